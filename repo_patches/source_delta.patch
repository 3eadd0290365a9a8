From 332e4a121f595a514aa4aa6a64098856a79811d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 01/51] fix: reconstruct all timestamps of recordings with
 varying time step

Replay::FillInTimestamps lost steps, invented steps or looped until memory
ran out when a recording mixed step sizes (including zero length steps).
---
 .../Applications/replayer/Replay.cpp          | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Applications/replayer/Replay.cpp b/EnvironmentSimulator/Applications/replayer/Replay.cpp
index 8e9698e..4a9adba 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.cpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.cpp
@@ -885,7 +885,34 @@ void Replay::FillInTimestamps()
         double current_dt = dts_.values.front().second;
         FillEmptyTimestamps(curr_time, timestamps_.back(), current_dt, filled);
     }
-    // Mixed timesteps in the scenario
+    // Mixed timesteps in the scenario, recorded in increasing time order (no ghost restart)
+    else if (std::is_sorted(dts_.values.begin(), dts_.values.end(), [](const auto& a, const auto& b) { return a.first < b.first; }))
+    {
+        size_t j = 0;  // index of the dt in force, a dt applies to the step ending at its timestamp and to the following ones
+        for (size_t i = 1; i < timestamps_.size(); i++)
+        {
+            while (j + 1 < dts_.values.size() && dts_.values[j + 1].first < curr_time + SMALL_NUMBER)
+            {
+                j++;
+            }
+
+            // If dt changes at next timestamp, the old dt is used only until one (new) step before it
+            bool   dt_change = j + 1 < dts_.values.size() && NEAR_NUMBERS(dts_.values[j + 1].first, timestamps_[i]);
+            double end_time  = dt_change ? timestamps_[i] - dts_.values[j + 1].second : timestamps_[i];
+
+            if (end_time > curr_time + SMALL_NUMBER)
+            {
+                FillEmptyTimestamps(curr_time, end_time, dts_.values[j].second, filled);
+            }
+
+            if (timestamps_[i] > filled.back() + SMALL_NUMBER)
+            {
+                filled.emplace_back(timestamps_[i]);
+            }
+            curr_time = filled.back();
+        }
+    }
+    // Mixed timesteps in the scenario, with ghost restart
     else
     {
         size_t i = 0;
-- 
2.43.0


From 06b4065dbe28e90032218d1a28e287ee43490ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:13 +0000
Subject: [PATCH 02/51] fix: initialise all members of the previous object
 state

z position and z velocity were left uninitialised, giving random z velocity
and acceleration the first step of objects added during the simulation.
---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index cd9c1df..1337d6d 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -52,8 +52,10 @@ Object::Object(Type type)
 
     state_old.pos_x  = 0;
     state_old.pos_y  = 0;
+    state_old.pos_z  = 0;
     state_old.vel_x  = 0;
     state_old.vel_y  = 0;
+    state_old.vel_z  = 0;
     state_old.h      = 0;
     state_old.h_rate = 0;
 
-- 
2.43.0


From d81a1ee9acc17f9c8bfdbeb507ac1abf1e887bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:10 +0000
Subject: [PATCH 03/51] fix: UDP driver ignores invalid and incomplete messages
 completely

An invalid message (version, object id, input mode, length) used to replace the last
message, and with it the driver input or dead reckoning in force. The dead reckoning
flag of XYZHPR messages was read from the wrong place.
---
 .../Controllers/ControllerUDPDriver.cpp       | 91 +++++++++++++------
 .../Controllers/ControllerUDPDriver.hpp       |  2 +
 2 files changed, 67 insertions(+), 26 deletions(-)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.cpp
index 998632f..241263f 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.cpp
@@ -22,6 +22,7 @@
 #include "logger.hpp"
 #include "ScenarioEngine.hpp"
 
+#include <cstddef>
 #include <random>
 
 using namespace scenarioengine;
@@ -173,28 +174,85 @@ void ControllerUDPDriver::Init()
     Controller::Init();
 }
 
+bool ControllerUDPDriver::IsValid(const DMMessage& message, int nrOfBytes) const
+{
+    if (nrOfBytes < static_cast<int>(sizeof(DMHeader)))
+    {
+        LOG_ERROR("ControllerUDPDriver: Received only {} bytes, ignoring", nrOfBytes);
+        return false;
+    }
+
+    if (message.header.version != UDP_DRIVER_MESSAGE_VERSION)
+    {
+        LOG_ERROR_ONCE("ControllerUDPDriver: Got unsupported msg version {} (only accepting version {})",
+                       message.header.version,
+                       UDP_DRIVER_MESSAGE_VERSION);
+        return false;
+    }
+
+    if (scenario_engine_->entities_.GetObjectById(static_cast<int>(message.header.objectId)) == nullptr)
+    {
+        LOG_ERROR("ControllerUDPDriver: Received message for unknown object id {}, ignoring", message.header.objectId);
+        return false;
+    }
+
+    size_t size = offsetof(DMMessage, message);
+    switch (static_cast<InputMode>(message.header.inputMode))
+    {
+        case InputMode::DRIVER_INPUT:
+            size += sizeof(DMMSGDriverInput);
+            break;
+        case InputMode::VEHICLE_STATE_XYZHPR:
+            size += offsetof(DMMSGVehicleStateXYZHPR, deadReckon) + 1;
+            break;
+        case InputMode::VEHICLE_STATE_XYH:
+            size += offsetof(DMMSGVehicleStateXYH, deadReckon) + 1;
+            break;
+        case InputMode::VEHICLE_STATE_H:
+            size += offsetof(DMMSGVehicleStateH, deadReckon) + 1;
+            break;
+        default:
+            LOG_ERROR("ControllerUDPDriver: Received {} bytes and unexpected input mode {}, ignoring", nrOfBytes, message.header.inputMode);
+            return false;
+    }
+
+    if (nrOfBytes < static_cast<int>(size))
+    {
+        LOG_ERROR("ControllerUDPDriver: Received {} bytes, expected at least {} for input mode {}, ignoring",
+                  nrOfBytes,
+                  size,
+                  message.header.inputMode);
+        return false;
+    }
+
+    return true;
+}
+
 void ControllerUDPDriver::Step(double timeStep)
 {
-    int retval            = 0;
-    int receivedNrOfBytes = 0;
+    int       retval            = 0;
+    int       receivedNrOfBytes = 0;
+    DMMessage newMsg;
 
     if (execMode_ == ExecMode::EXEC_MODE_ASYNCHRONOUS)
     {
         // Pick all queued messages - store only the last/latest
         while (retval >= 0)
         {
-            retval = udpServer_->Receive(reinterpret_cast<char*>(&msg), sizeof(msg));
-            if (retval > 0)
+            retval = udpServer_->Receive(reinterpret_cast<char*>(&newMsg), sizeof(newMsg));
+            if (retval > 0 && IsValid(newMsg, retval))
             {
+                msg               = newMsg;
                 receivedNrOfBytes = retval;
             }
         }
     }
     else
     {
-        retval = udpServer_->Receive(reinterpret_cast<char*>(&msg), sizeof(msg));
-        if (retval >= 0)
+        retval = udpServer_->Receive(reinterpret_cast<char*>(&newMsg), sizeof(newMsg));
+        if (retval > 0 && IsValid(newMsg, retval))
         {
+            msg               = newMsg;
             receivedNrOfBytes = retval;
         }
     }
@@ -214,22 +272,7 @@ void ControllerUDPDriver::Step(double timeStep)
         //	msg.header.inputMode,
         //	InputMode2Str(static_cast<InputMode>(msg.header.inputMode)).c_str());
 
-        if (msg.header.version != UDP_DRIVER_MESSAGE_VERSION)
-        {
-            LOG_ERROR_ONCE("ControllerUDPDriver: Got unsupported msg version {} (only accepting version {})",
-                           msg.header.version,
-                           UDP_DRIVER_MESSAGE_VERSION);
-
-            return;
-        }
-
         obj = scenario_engine_->entities_.GetObjectById(static_cast<int>(msg.header.objectId));
-        if (obj == nullptr)
-        {
-            LOG_ERROR("ControllerUDPDriver: Received message for unknown object id {}, ignoring", msg.header.objectId);
-            return;
-        }
-
         pos = &obj->pos_;
 
         if (msg.header.inputMode == static_cast<int>(InputMode::VEHICLE_STATE_XYZHPR))
@@ -291,10 +334,6 @@ void ControllerUDPDriver::Step(double timeStep)
                          roadmanager::Position::PosMode::Z_REL | roadmanager::Position::PosMode::H_ABS | roadmanager::Position::PosMode::P_REL |
                              roadmanager::Position::PosMode::R_REL);
         }
-        else
-        {
-            LOG_ERROR("ControllerExternalDriverModel received {} bytes and unexpected input mode {}", retval, msg.header.inputMode);
-        }
     }
 
     if (timeStep > SMALL_NUMBER && object_ != nullptr)
@@ -305,7 +344,7 @@ void ControllerUDPDriver::Step(double timeStep)
             // following states, only apply dead reckoning when no message has been received
             (receivedNrOfBytes == 0 &&
              ((lastMsg.header.inputMode == static_cast<int>(InputMode::VEHICLE_STATE_XYH) && lastMsg.message.stateXYH.deadReckon) ||
-              (lastMsg.header.inputMode == static_cast<int>(InputMode::VEHICLE_STATE_XYZHPR) && lastMsg.message.stateXYH.deadReckon))))
+              (lastMsg.header.inputMode == static_cast<int>(InputMode::VEHICLE_STATE_XYZHPR) && lastMsg.message.stateXYZHPR.deadReckon))))
         {
             // No message received, but dead reckoning enabled. Update position based on speed and heading
             double speed = 0.0;
diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.hpp b/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.hpp
index 1c87e42..523cd4b 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.hpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.hpp
@@ -124,6 +124,8 @@ namespace scenarioengine
         }
 
     private:
+        bool IsValid(const DMMessage& message, int nrOfBytes) const;
+
         vehicle::Vehicle  vehicle_;
         vehicle::THROTTLE accelerate = vehicle::THROTTLE_NONE;
         vehicle::STEERING steer      = vehicle::STEERING_NONE;
-- 
2.43.0


From 0242bca0d4fb8902db614fba6304fa797b205324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:10 +0000
Subject: [PATCH 04/51] fix: UDP driver wheel angle is no longer replaced by a
 calculated one

---
 .../Modules/Controllers/ControllerUDPDriver.cpp               | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.cpp
index 241263f..2675cee 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.cpp
@@ -290,6 +290,7 @@ void ControllerUDPDriver::Step(double timeStep)
                                msg.message.stateXYZHPR.r);
             obj->SetSpeed(msg.message.stateXYZHPR.speed);
             obj->wheel_angle_ = msg.message.stateXYZHPR.wheelAngle;
+            obj->dirty_.SetBits(Object::DirtyBit::WHEEL_ANGLE);
 
             // Also update the internal vehicle model, in case next message is driver input
             vehicle_.SetPos(msg.message.stateXYZHPR.x, msg.message.stateXYZHPR.y, msg.message.stateXYZHPR.z, msg.message.stateXYZHPR.h);
@@ -304,6 +305,7 @@ void ControllerUDPDriver::Step(double timeStep)
             pos->SetInertiaPos(msg.message.stateXYH.x, msg.message.stateXYH.y, msg.message.stateXYH.h);
             obj->SetSpeed(msg.message.stateXYH.speed);
             obj->wheel_angle_ = msg.message.stateXYH.wheelAngle;
+            obj->dirty_.SetBits(Object::DirtyBit::WHEEL_ANGLE);
 
             // Also update the internal vehicle model, in case next message is driver input
             vehicle_.SetPos(msg.message.stateXYH.x, msg.message.stateXYH.y, pos->GetZ(), msg.message.stateXYH.h);
@@ -321,6 +323,7 @@ void ControllerUDPDriver::Step(double timeStep)
             pos->SetInertiaPos(pos->GetX(), pos->GetY(), msg.message.stateH.h);
             obj->SetSpeed(msg.message.stateH.speed);
             obj->wheel_angle_ = msg.message.stateH.wheelAngle;
+            obj->dirty_.SetBits(Object::DirtyBit::WHEEL_ANGLE);
 
             // Also update the internal vehicle model, in case next message is driver input
             vehicle_.SetPos(pos->GetX(), pos->GetY(), pos->GetZ(), msg.message.stateH.h);
@@ -387,6 +390,7 @@ void ControllerUDPDriver::Step(double timeStep)
             object_->pos_.SetInertiaPos(vehicle_.posX_, vehicle_.posY_, vehicle_.heading_);
             object_->SetSpeed(vehicle_.speed_);
             object_->wheel_angle_ = vehicle_.wheelAngle_;
+            object_->dirty_.SetBits(Object::DirtyBit::WHEEL_ANGLE);
 
             // Fetch Z and Pitch from OpenDRIVE position
             vehicle_.SetZ(object_->pos_.GetZ());
-- 
2.43.0


From 3c1eae2abd42979b7f641986af71e4e925ea7070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:34 +0000
Subject: [PATCH 05/51] fix: UDP driver keeps dead reckoned position when
 switching to driver input

---
 .../Modules/Controllers/ControllerUDPDriver.cpp                | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.cpp
index 2675cee..93d5602 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerUDPDriver.cpp
@@ -378,6 +378,9 @@ void ControllerUDPDriver::Step(double timeStep)
             double dy = ds * sin(h);
 
             object_->pos_.SetInertiaPos(object_->pos_.GetX() + dx, object_->pos_.GetY() + dy, vehicle_.heading_);
+
+            // Also update the internal vehicle model, in case next message is driver input
+            vehicle_.SetPos(object_->pos_.GetX(), object_->pos_.GetY(), object_->pos_.GetZ(), vehicle_.heading_);
         }
         else if (lastMsg.header.inputMode == static_cast<int>(InputMode::DRIVER_INPUT))
         {
-- 
2.43.0


From ec0d28753c9ab0fc6cc57d0f377de69f8493b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:09 +0000
Subject: [PATCH 06/51] fix: ego state server start/stop race, port failure and
 unsynchronised access to entities

---
 .../ScenarioEngine/SourceFiles/Server.cpp     | 63 ++++++++++---------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Server.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Server.cpp
index 790577d..0ea8264 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Server.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Server.cpp
@@ -13,6 +13,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <atomic>
 
 #include "CommonMini.hpp"
 #include "Server.hpp"
@@ -30,10 +31,9 @@ enum
     SERV_STOPPED
 };
 
-static int             state = SERV_NOT_STARTED;
-static SE_Thread       thread;
-static SE_Mutex        mutex;
-static ScenarioEngine *scenario_engine = nullptr;
+static std::atomic<int> state{SERV_NOT_STARTED};
+static SE_Thread        thread;
+static ScenarioEngine  *scenario_engine = nullptr;
 
 namespace scenarioengine
 {
@@ -44,16 +44,22 @@ namespace scenarioengine
         (void)iPortIn;
         EgoStateBuffer_t buf;
 
-        state                = SERV_NOT_STARTED;
-        UDPServer *udpServer = new UDPServer(ESMINI_DEFAULT_INPORT);
+        UDPServer *udpServer = nullptr;
+        try
+        {
+            udpServer = new UDPServer(ESMINI_DEFAULT_INPORT);
+        }
+        catch (const std::exception &e)
+        {
+            LOG_ERROR("Server: Failed to open UDP socket: {}", e.what());
+            return;
+        }
 
         LOG_INFO("Server listening on port {}", ESMINI_DEFAULT_INPORT);
 
-        state             = SERV_RUNNING;
-        double  x_old     = 0.0;
-        double  y_old     = 0.0;
-        double  wheel_rot = 0.0;
-        Object *ego       = scenario_engine->entities_.object_.size() > 0 ? scenario_engine->entities_.object_[0] : nullptr;
+        double x_old     = 0.0;
+        double y_old     = 0.0;
+        double wheel_rot = 0.0;
 
         while (state == SERV_RUNNING)
         {
@@ -62,7 +68,7 @@ namespace scenarioengine
 #ifdef SWAP_BYTE_ORDER_ESMINI
             SwapByteOrder((unsigned char *)&buf, 4, sizeof(buf));
 #endif
-            if (ret >= 0)
+            if (ret == static_cast<int>(sizeof(EgoStateBuffer_t)))
             {
                 // Find out wheel rotation from x, y displacement
                 double ds = GetLengthOfLine2D(buf.x, buf.y, x_old, y_old);
@@ -83,20 +89,22 @@ namespace scenarioengine
                        180 * buf.wheel_angle / M_PI);
 
                 // Update Ego state
-                mutex.Lock();
-
-                ego->pos_.SetInertiaPos(buf.x, buf.y, buf.z, buf.h, buf.p, buf.r);
-                ego->SetSpeed(buf.speed);
-                ego->wheel_angle_ = buf.wheel_angle;
-                ego->wheel_rot_   = wheel_rot;
-
-                mutex.Unlock();
+                scenario_engine->mutex_.Lock();
+
+                if (scenario_engine->entities_.object_.size() > 0)
+                {
+                    Object *ego = scenario_engine->entities_.object_[0];
+                    ego->pos_.SetInertiaPos(buf.x, buf.y, buf.z, buf.h, buf.p, buf.r);
+                    ego->SetSpeed(buf.speed);
+                    ego->wheel_angle_ = buf.wheel_angle;
+                    ego->wheel_rot_   = wheel_rot;
+                }
+
+                scenario_engine->mutex_.Unlock();
             }
         }
 
         delete udpServer;
-
-        state = SERV_STOPPED;
     }
 
     void StartServer(ScenarioEngine *scenarioEngine)
@@ -104,22 +112,17 @@ namespace scenarioengine
         // Fetch scenarioengine
         scenario_engine = scenarioEngine;
 
+        state = SERV_RUNNING;
         thread.Start(ServerThread, NULL);
     }
 
     void StopServer()
     {
         // Flag time to stop
-        if (state == SERV_RUNNING)
-        {
-            state = SERV_STOP;
-        }
-        else
-        {
-            state = SERV_STOPPED;
-        }
+        state = SERV_STOP;
 
         // Wait/block until UDP server closed gracefully
         thread.Wait();
+        state = SERV_STOPPED;
     }
 }  // namespace scenarioengine
-- 
2.43.0


From a12c5998eaf44e608b2d4fb064ceafc5f084f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:45 +0000
Subject: [PATCH 07/51] fix: player server start/stop race, port failure,
 unknown objects, incomplete messages and unsynchronised injection

---
 .../Modules/CommonMini/CommonMini.hpp         |   2 +-
 .../Modules/PlayerBase/PlayerServer.cpp       | 105 ++++++++++++++----
 2 files changed, 83 insertions(+), 24 deletions(-)

diff --git a/EnvironmentSimulator/Modules/CommonMini/CommonMini.hpp b/EnvironmentSimulator/Modules/CommonMini/CommonMini.hpp
index 3ea1bee..cdac408 100644
--- a/EnvironmentSimulator/Modules/CommonMini/CommonMini.hpp
+++ b/EnvironmentSimulator/Modules/CommonMini/CommonMini.hpp
@@ -888,7 +888,7 @@ private:
 #if (defined WINVER && WINVER == _WIN32_WINNT_WIN7 || __MINGW32__)
     void* mutex_;
 #else
-    std::mutex  mutex_;
+    std::recursive_mutex mutex_;
 #endif
 };
 
diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index 8975547..7bf232a 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -13,6 +13,8 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <atomic>
+#include <cstddef>
 
 #include "CommonMini.hpp"
 #include "PlayerServer.hpp"
@@ -32,8 +34,8 @@ enum
     SERV_STOPPED
 };
 
-static int       state = SERV_NOT_STARTED;
-static SE_Thread thread;
+static std::atomic<int> state{SERV_NOT_STARTED};
+static SE_Thread        thread;
 
 namespace scenarioengine
 {
@@ -88,15 +90,20 @@ namespace scenarioengine
 
     void PlayerServer::Step()
     {
-        for (size_t i = 0; i < action_.size(); i++)
+        player_->scenarioEngine->mutex_.Lock();
+        for (size_t i = 0; i < action_.size();)
         {
             if (action_[i]->GetCurrentState() == OSCAction::State::COMPLETE)
             {
                 LOG_INFO("Injected action {} finished", action_[i]->GetName().c_str());
                 DeleteAction(static_cast<unsigned int>(i));
+            }
+            else
+            {
                 i++;
             }
         }
+        player_->scenarioEngine->mutex_.Unlock();
     }
 
     std::string PlayerServer::Type2Name(UDP_ACTION_TYPE type)
@@ -170,9 +177,19 @@ namespace scenarioengine
 
     void PlayerServer::InjectSpeedAction(SpeedActionStruct &action)
     {
+        player_->scenarioEngine->mutex_.Lock();
+
+        Object *object = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        if (object == nullptr)
+        {
+            LOG_ERROR("Inject speed action: Object with id {} not found, ignoring", action.id);
+            player_->scenarioEngine->mutex_.Unlock();
+            return;
+        }
+
         LongSpeedAction *a = new LongSpeedAction(nullptr);
         a->SetName("SpeedAction_" + std::to_string(counter_));
-        a->object_ = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        a->object_ = object;
 
         SetTransitionShape(a->transition_, action.transition_shape);
         SetTransitionDimension(a->transition_, action.transition_dim);
@@ -184,13 +201,25 @@ namespace scenarioengine
         a->target_.reset(target);
 
         AddAction(a);
+
+        player_->scenarioEngine->mutex_.Unlock();
     }
 
     void PlayerServer::InjectLaneChangeAction(LaneChangeActionStruct &action)
     {
+        player_->scenarioEngine->mutex_.Lock();
+
+        Object *object = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        if (object == nullptr)
+        {
+            LOG_ERROR("Inject lane change action: Object with id {} not found, ignoring", action.id);
+            player_->scenarioEngine->mutex_.Unlock();
+            return;
+        }
+
         LatLaneChangeAction *a = new LatLaneChangeAction(nullptr);
         a->SetName("LaneChangeAction_" + std::to_string(counter_));
-        a->object_ = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        a->object_ = object;
 
         SetTransitionShape(a->transition_, action.transition_shape);
         SetTransitionDimension(a->transition_, action.transition_dim);
@@ -212,13 +241,25 @@ namespace scenarioengine
         }
 
         AddAction(a);
+
+        player_->scenarioEngine->mutex_.Unlock();
     }
 
     void PlayerServer::InjectLaneOffsetAction(LaneOffsetActionStruct &action)
     {
+        player_->scenarioEngine->mutex_.Lock();
+
+        Object *object = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        if (object == nullptr)
+        {
+            LOG_ERROR("Inject lane offset action: Object with id {} not found, ignoring", action.id);
+            player_->scenarioEngine->mutex_.Unlock();
+            return;
+        }
+
         LatLaneOffsetAction *a = new LatLaneOffsetAction(nullptr);
         a->SetName("LaneOffsetAction_" + std::to_string(counter_));
-        a->object_ = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        a->object_ = object;
 
         SetTransitionShape(a->transition_, action.transition_shape);
         a->max_num_executions_ = 1;
@@ -229,6 +270,8 @@ namespace scenarioengine
         a->max_lateral_acc_ = action.maxLateralAcc;
 
         AddAction(a);
+
+        player_->scenarioEngine->mutex_.Unlock();
     }
 
     bool PlayerServer::InjectedActionOngoing(int action_type) const
@@ -251,24 +294,43 @@ namespace scenarioengine
         return false;
     }
 
+    // Minimum size of a complete message of specified type
+    static size_t MessageSize(int action_type)
+    {
+        switch (action_type)
+        {
+            case static_cast<int>(UDP_ACTION_TYPE::SPEED_ACTION):
+                return offsetof(ActionStruct, message.speed.transition_value) + sizeof(double);
+            case static_cast<int>(UDP_ACTION_TYPE::LANE_CHANGE_ACTION):
+                return offsetof(ActionStruct, message.laneChange.transition_value) + sizeof(double);
+            case static_cast<int>(UDP_ACTION_TYPE::LANE_OFFSET_ACTION):
+                return offsetof(ActionStruct, message.laneOffset.transition_shape) + sizeof(int);
+            case static_cast<int>(UDP_ACTION_TYPE::STEP_DT):
+                return offsetof(ActionStruct, message.stepDT.dt) + sizeof(double);
+            default:
+                return sizeof(int);
+        }
+    }
+
     static void ServerThread(void *args)
     {
         ScenarioPlayer           *player  = reinterpret_cast<ScenarioPlayer *>(args);
         static unsigned short int iPortIn = ESMINI_DEFAULT_ACTION_INPORT;  // Port for incoming packages
         (void)iPortIn;
         ActionStruct buf;
-        state                = SERV_NOT_STARTED;
-        UDPServer *udpServer = new UDPServer(ESMINI_DEFAULT_ACTION_INPORT);
-        if (udpServer->GetStatus() != 0)
+        UDPServer   *udpServer = nullptr;
+        try
         {
-            LOG_ERROR("PlayerServer: Failed to open UDP socket");
+            udpServer = new UDPServer(ESMINI_DEFAULT_ACTION_INPORT);
+        }
+        catch (const std::exception &e)
+        {
+            LOG_ERROR("PlayerServer: Failed to open UDP socket: {}", e.what());
             return;
         }
 
         LOG_INFO("PlayerServer listening on port {}", ESMINI_DEFAULT_ACTION_INPORT);
 
-        state = SERV_RUNNING;
-
         while (state == SERV_RUNNING)
         {
             int ret = udpServer->Receive(reinterpret_cast<char *>(&buf), sizeof(ActionStruct));
@@ -276,7 +338,11 @@ namespace scenarioengine
 #ifdef SWAP_BYTE_ORDER_ESMINI
             SwapByteOrder((unsigned char *)&buf, 4, sizeof(buf));
 #endif
-            if (ret >= 0)
+            if (ret >= 0 && static_cast<size_t>(ret) < MessageSize(buf.action_type))
+            {
+                LOG_ERROR("PlayerServer: Incomplete message ({} bytes), ignoring", ret);
+            }
+            else if (ret >= 0)
             {
                 switch (buf.action_type)
                 {
@@ -313,14 +379,13 @@ namespace scenarioengine
         }
 
         delete udpServer;
-
-        state = SERV_STOPPED;
     }
 
     void PlayerServer::Start()
     {
         if (player_ != nullptr)
         {
+            state = SERV_RUNNING;
             thread.Start(ServerThread, reinterpret_cast<void *>(player_));
         }
     }
@@ -328,17 +393,11 @@ namespace scenarioengine
     void PlayerServer::Stop()
     {
         // Flag time to stop
-        if (state == SERV_RUNNING)
-        {
-            state = SERV_STOP;
-        }
-        else
-        {
-            state = SERV_STOPPED;
-        }
+        state = SERV_STOP;
 
         // Wait/block until UDP server closed gracefully
         thread.Wait();
+        state = SERV_STOPPED;
 
         Reset();
     }
-- 
2.43.0


From dd526cd60f6dca1080c396d2c4c67b06bb512cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:45 +0000
Subject: [PATCH 08/51] fix: pause and step commands from player server take
 effect once and between frames

---
 .../Modules/PlayerBase/PlayerServer.cpp              |  4 ++++
 .../Modules/PlayerBase/playerbase.cpp                | 12 +++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index 7bf232a..2ec7f00 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -362,12 +362,16 @@ namespace scenarioengine
                         player->SetState(ScenarioPlayer::PlayerState::PLAYER_STATE_PAUSE);
                         break;
                     case static_cast<int>(UDP_ACTION_TYPE::STEP):
+                        player->scenarioEngine->mutex_.Lock();
                         player->SetState(ScenarioPlayer::PlayerState::PLAYER_STATE_STEP);
                         player->Frame(true);
+                        player->scenarioEngine->mutex_.Unlock();
                         break;
                     case static_cast<int>(UDP_ACTION_TYPE::STEP_DT):
+                        player->scenarioEngine->mutex_.Lock();
                         player->SetState(ScenarioPlayer::PlayerState::PLAYER_STATE_STEP);
                         player->Frame(buf.message.stepDT.dt, true);
+                        player->scenarioEngine->mutex_.Unlock();
                         break;
                     case static_cast<int>(UDP_ACTION_TYPE::QUIT):
                         player->SetQuitRequest(true);
diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index a758284..af8bf97 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -185,7 +185,11 @@ int ScenarioPlayer::Frame(double timestep_s, bool server_mode)
     int    retval        = 0;
     double ghost_solo_dt = (GetFixedTimestep() < 0.0) ? 0.05 : GetFixedTimestep();
 
-    if (!IsPaused() || server_mode)
+    // The state might be changed by the player server at any time, so evaluate it once, synchronized with frames executed by the server
+    scenarioEngine->mutex_.Lock();
+    const bool run = !IsPaused() || server_mode;
+
+    if (run)
     {
 #ifdef _USE_OSI
         if (osiReporter != nullptr)
@@ -194,8 +198,6 @@ int ScenarioPlayer::Frame(double timestep_s, bool server_mode)
         }
 #endif
 
-        scenarioEngine->mutex_.Lock();
-
         DirtyBits::SetReadFront();
         retval = ScenarioFrame(timestep_s, true);
 
@@ -216,8 +218,8 @@ int ScenarioPlayer::Frame(double timestep_s, bool server_mode)
         {
             SetState(PlayerState::PLAYER_STATE_PAUSE);
         }
-        scenarioEngine->mutex_.Unlock();
     }
+    scenarioEngine->mutex_.Unlock();
 
     if (!server_mode)
     {
@@ -236,7 +238,7 @@ int ScenarioPlayer::Frame(double timestep_s, bool server_mode)
         }
     }
 
-    if (!IsPaused() || server_mode)
+    if (run)
     {
         if (retval == 0)
         {
-- 
2.43.0


From aeae6f2825f053c94f80d4bd48feec1552776ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:52 +0000
Subject: [PATCH 09/51] fix: UDP socket closed twice after bind failure

---
 EnvironmentSimulator/Modules/CommonMini/UDP.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/EnvironmentSimulator/Modules/CommonMini/UDP.cpp b/EnvironmentSimulator/Modules/CommonMini/UDP.cpp
index ba3e3a7..e6c283a 100644
--- a/EnvironmentSimulator/Modules/CommonMini/UDP.cpp
+++ b/EnvironmentSimulator/Modules/CommonMini/UDP.cpp
@@ -62,6 +62,11 @@ int UDPBase::Bind(struct sockaddr_in& addr)
 
 void UDPBase::CloseGracefully()
 {
+    if (sock_ == SE_INVALID_SOCKET)
+    {
+        return;  // not opened, or already closed
+    }
+
 #ifdef _WIN32
     if (closesocket(sock_) == SOCKET_ERROR)
 #else
@@ -75,6 +80,7 @@ void UDPBase::CloseGracefully()
         LOG_ERROR("close socket error");
 #endif
     }
+    sock_ = SE_INVALID_SOCKET;
 
 #ifdef _WIN32
     WSACleanup();
-- 
2.43.0


From 1a24e7bc2a6f635bd54a23de8747bb868f40c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:40 +0000
Subject: [PATCH 10/51] fix: injected action replaced before it was started is
 not executed

---
 .../Modules/PlayerBase/PlayerServer.cpp               | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index 2ec7f00..ed0e6ff 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -53,8 +53,10 @@ namespace scenarioengine
         LOG_INFO("Adding action {}", action->GetName());
 
         // abort any action of same type and object
-        for (auto &a : action_)
+        for (size_t i = 0; i < action_.size();)
         {
+            OSCAction *a = action_[i];
+
             if (a->action_type_ == action->action_type_ &&
                 ((a->GetBaseType() != OSCAction::BaseType::PRIVATE) ||
                  (static_cast<OSCPrivateAction *>(a)->object_ == static_cast<OSCPrivateAction *>(action)->object_)))
@@ -63,8 +65,15 @@ namespace scenarioengine
                          a->GetName(),
                          a->Type2Str(),
                          a->GetBaseType() == OSCAction::BaseType::PRIVATE ? (" for " + static_cast<OSCPrivateAction *>(a)->object_->GetName()) : "");
+                if (a->GetCurrentState() == OSCAction::State::INIT)
+                {
+                    // not started yet, and never will be
+                    DeleteAction(static_cast<unsigned int>(i));
+                    continue;
+                }
                 a->End();
             }
+            i++;
         }
 
         action_.push_back(action);
-- 
2.43.0


From 2a9d2b364a6daaf23af1def2866035b72da565fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:45 +0000
Subject: [PATCH 11/51] fix: injected action with step shape completes
 regardless of transition value

---
 EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index ed0e6ff..ffefb2c 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -202,7 +202,8 @@ namespace scenarioengine
 
         SetTransitionShape(a->transition_, action.transition_shape);
         SetTransitionDimension(a->transition_, action.transition_dim);
-        a->transition_.SetParamTargetVal(action.transition_value);
+        // enforce value 0 for step shape, as for actions in scenario file
+        a->transition_.SetParamTargetVal(a->transition_.shape_ == OSCPrivateAction::DynamicsShape::STEP ? 0.0 : action.transition_value);
         a->max_num_executions_ = 1;
 
         LongSpeedAction::TargetAbsolute *target = new LongSpeedAction::TargetAbsolute;
@@ -232,7 +233,8 @@ namespace scenarioengine
 
         SetTransitionShape(a->transition_, action.transition_shape);
         SetTransitionDimension(a->transition_, action.transition_dim);
-        a->transition_.SetParamTargetVal(action.transition_value);
+        // enforce value 0 for step shape, as for actions in scenario file
+        a->transition_.SetParamTargetVal(a->transition_.shape_ == OSCPrivateAction::DynamicsShape::STEP ? 0.0 : action.transition_value);
         a->max_num_executions_ = 1;
 
         if (action.mode == 0)
-- 
2.43.0


From 480616f5f7678965928d140e3cf8d414633b6b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:02 +0000
Subject: [PATCH 12/51] fix: remote step in the middle of a local frame no
 longer loses motion

---
 .../Modules/PlayerBase/playerbase.cpp         | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index af8bf97..ab0ae6f 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -218,6 +218,13 @@ int ScenarioPlayer::Frame(double timestep_s, bool server_mode)
         {
             SetState(PlayerState::PLAYER_STATE_PAUSE);
         }
+
+        if (retval == 0)
+        {
+            ScenarioPostFrame();
+            scenarioEngine->SwapAndClearDirtyBits();
+            DirtyBits::SetReadBack();
+        }
     }
     scenarioEngine->mutex_.Unlock();
 
@@ -238,18 +245,6 @@ int ScenarioPlayer::Frame(double timestep_s, bool server_mode)
         }
     }
 
-    if (run)
-    {
-        if (retval == 0)
-        {
-            scenarioEngine->mutex_.Lock();
-            ScenarioPostFrame();
-            scenarioEngine->SwapAndClearDirtyBits();
-            DirtyBits::SetReadBack();
-            scenarioEngine->mutex_.Unlock();
-        }
-    }
-
     return retval;
 }
 
-- 
2.43.0


From 56a7b0779b93cd1c103bf9f6c7a07b07b348b6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:28 +0000
Subject: [PATCH 13/51] fix: entity conditions evaluate each triggering entity
 on its own

With triggering entities rule 'all', the result of a fulfilling entity was
carried over to the following ones (reach position, collision, end of road,
stand still, off road), and entities with undefined headway or time to
collision were skipped instead of counting as not fulfilling. Relative
clearance considered deleted entities and carried over found objects.
---
 .../OSCTypeDefs/OSCCondition.cpp              | 51 ++++++++++++-------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 66d483a..43e07ad 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -740,13 +740,14 @@ bool TrigByTimeHeadway::CheckCondition(double sim_time)
 
     for (size_t i = 0; i < triggering_entities_.entity_.size(); i++)
     {
-        result          = false;
         Object* trigObj = triggering_entities_.entity_[i].object_;
         if (!trigObj->IsActive() || (object_ && !object_->IsActive()))
         {
             continue;
         }
 
+        result = false;
+
         if (trigObj->Distance(object_, cs_, relDistType_, freespace_, rel_dist) != 0)
         {
             rel_dist = LARGE_NUMBER;
@@ -769,11 +770,11 @@ bool TrigByTimeHeadway::CheckCondition(double sim_time)
             {
                 triggered_by_entities_.push_back(trigObj);
             }
+        }
 
-            if (EvalDone(result, triggering_entity_rule_))
-            {
-                break;
-            }
+        if (EvalDone(result, triggering_entity_rule_))
+        {
+            break;
         }
     }
 
@@ -796,19 +797,16 @@ bool TrigByTimeToCollision::CheckCondition(double sim_time)
 
     for (size_t i = 0; i < triggering_entities_.entity_.size(); i++)
     {
-        result          = false;
         Object* trigObj = triggering_entities_.entity_[i].object_;
-        if (!trigObj->IsActive())
+        if (!trigObj->IsActive() || (object_ && !object_->IsActive()))
         {
             continue;
         }
 
+        result = false;
+
         if (object_ != nullptr)
         {
-            if (!object_->IsActive())
-            {
-                continue;
-            }
             trigObj->TimeToCollision(object_, cs_, relDistType_, freespace_, ttc_);
         }
         else
@@ -847,11 +845,11 @@ bool TrigByTimeToCollision::CheckCondition(double sim_time)
             {
                 triggered_by_entities_.push_back(trigObj);
             }
+        }
 
-            if (EvalDone(result, triggering_entity_rule_))
-            {
-                break;
-            }
+        if (EvalDone(result, triggering_entity_rule_))
+        {
+            break;
         }
     }
 
@@ -887,6 +885,8 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
             continue;
         }
 
+        result = false;
+
         Position* pos = position_->GetRMPos();
         if (pos == nullptr)
         {
@@ -1065,6 +1065,8 @@ bool TrigByCollision::CheckCondition(double sim_time)
             continue;
         }
 
+        result = false;
+
         if (object_ && object_->IsActive())
         {
             if (trigObj->Collision(object_))
@@ -1201,6 +1203,9 @@ bool TrigByEndOfRoad::CheckCondition(double sim_time)
             continue;
         }
 
+        result            = false;
+        current_duration_ = 0;
+
         if (triggering_entities_.entity_[i].object_->IsEndOfRoad())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetEndOfRoadTimestamp();
@@ -1244,6 +1249,8 @@ bool TrigByStandStill::CheckCondition(double sim_time)
             continue;
         }
 
+        current_duration_ = 0;
+
         if (triggering_entities_.entity_[i].object_->IsStandStill())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetStandStillTimestamp();
@@ -1285,6 +1292,8 @@ bool TrigByOffRoad::CheckCondition(double sim_time)
             continue;
         }
 
+        current_duration_ = 0;
+
         if (triggering_entities_.entity_[i].object_->IsOffRoad())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetOffRoadTimestamp();
@@ -1610,8 +1619,13 @@ bool TrigByRelativeClearance::CheckCondition(double sim_time)
 
     for (size_t i = 0; i < triggering_entities_.entity_.size(); i++)
     {
-        Object*            entityObject = triggering_entities_.entity_[i].object_;
-        roadmanager::Road* road         = odr->GetRoadById(entityObject->pos_.GetTrackId());
+        Object* entityObject = triggering_entities_.entity_[i].object_;
+        if (!entityObject->IsActive())
+        {
+            continue;
+        }
+
+        roadmanager::Road* road = odr->GetRoadById(entityObject->pos_.GetTrackId());
 
         if (road == nullptr)
         {
@@ -1619,7 +1633,8 @@ bool TrigByRelativeClearance::CheckCondition(double sim_time)
         }
 
         Object* refObject_;
-        result = false;
+        result   = false;
+        objFound = false;
 
         // First check all entities within lane range
         for (size_t j = 0; j < storyBoard_->entities_->object_.size(); j++)
-- 
2.43.0


From 71a2ccd1d36390beaac36766281578f2ccb824e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:44 +0000
Subject: [PATCH 14/51] fix: freespace distance to trailers and to objects
 within the extent of another

The search for the frontmost towing vehicle of the target never advanced its
loop variable, and the road coordinate branch measured to the target rather
than to each vehicle of its train. Overlap in road coordinates was missed when
the second bounding box lies within the extent of the first one.
---
 .../ScenarioEngine/SourceFiles/Entities.cpp   | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 1337d6d..cf257b0 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1024,18 +1024,19 @@ int Object::FreeSpaceDistanceObjectRoadLane(Object* target, PositionDiff* posDif
     posDiff->ds = minDS;
     posDiff->dt = minDT;
 
-    // Check for overlap
-    for (int i = 0; i < 4; i++)  // for each ds
+    // Check for overlap, i.e. vertices of second BB found both ahead of and behind (left and right) vertices of first BB
+    for (int i = 0; i < 4; i++)
     {
-        if (!((SIGN(ds[i][0]) == SIGN(ds[i][1])) && (SIGN(ds[i][0]) == SIGN(ds[i][2])) && (SIGN(ds[i][0]) == SIGN(ds[i][3]))))
-        {
-            // Overlap
-            posDiff->ds = 0.0;
-        }
-        if (!((SIGN(dt[i][0]) == SIGN(dt[i][1])) && (SIGN(dt[i][0]) == SIGN(dt[i][2])) && (SIGN(dt[i][0]) == SIGN(dt[i][3]))))
+        for (int j = 0; j < 4; j++)
         {
-            // Overlap
-            posDiff->dt = 0.0;
+            if (SIGN(ds[i][j]) != SIGN(ds[0][0]))
+            {
+                posDiff->ds = 0.0;
+            }
+            if (SIGN(dt[i][j]) != SIGN(dt[0][0]))
+            {
+                posDiff->dt = 0.0;
+            }
         }
     }
 
@@ -1076,7 +1077,7 @@ int Object::Distance(Object*                           target,
             {
                 pivot_obj = pivot_obj->TowVehicle();
             }
-            while (target_obj->TowVehicle())
+            while (target_front_obj->TowVehicle())
             {
                 target_front_obj = target_front_obj->TowVehicle();
             }
@@ -1133,7 +1134,7 @@ int Object::Distance(Object*                           target,
             {
                 pivot_obj = pivot_obj->TowVehicle();
             }
-            while (target_obj->TowVehicle())
+            while (target_front_obj->TowVehicle())
             {
                 target_front_obj = target_front_obj->TowVehicle();
             }
@@ -1148,7 +1149,7 @@ int Object::Distance(Object*                           target,
                        ((relDistType == RelativeDistanceType::REL_DIST_LATERAL && fabs(candidate_info.pos_diff.dt) > 0.0) ||
                         (relDistType == RelativeDistanceType::REL_DIST_LONGITUDINAL && fabs(candidate_info.pos_diff.ds) > 0.0)))
                 {
-                    int return_value = pivot_obj->FreeSpaceDistanceObjectRoadLane(target, &pos_diff, cs);
+                    int return_value = pivot_obj->FreeSpaceDistanceObjectRoadLane(target_obj, &pos_diff, cs);
                     if (return_value == 0)
                     {
                         if ((relDistType == RelativeDistanceType::REL_DIST_LATERAL && fabs(pos_diff.dt) < fabs(candidate_info.pos_diff.dt)) ||
-- 
2.43.0


From 6a235a07798e10d7309622565a6d29a396a84275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:20 +0000
Subject: [PATCH 15/51] fix: lateral lane position reports use the given lane
 and leave the longitudinal motion alone

SE_ReportObjectLateralLanePosition() ignored its laneId argument and marked the
longitudinal position as reported too, which halted the vehicle.
---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 4252cf2..7058b93 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1283,15 +1283,14 @@ extern "C"
 
     SE_DLL_API int SE_ReportObjectLateralLanePosition(int object_id, int laneId, double laneOffset)
     {
-        (void)laneId;
         Object *obj = nullptr;
         if (getObjectById(object_id, obj) == -1)
         {
             return -1;
         }
 
-        obj->pos_.SetLanePos(obj->pos_.GetTrackId(), obj->pos_.GetLaneId(), obj->pos_.GetS(), laneOffset);
-        obj->dirty_.SetBits(Object::DirtyBit::LONGITUDINAL | Object::DirtyBit::LATERAL);
+        obj->pos_.SetLanePos(obj->pos_.GetTrackId(), laneId, obj->pos_.GetS(), laneOffset);
+        obj->dirty_.SetBits(Object::DirtyBit::LATERAL);
 
         return 0;
     }
-- 
2.43.0


From ca4e0b44570723ba1ef5c6367992ccb8be559a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:20 +0000
Subject: [PATCH 16/51] fix: accept any existing object id in
 SE_SetSnapLaneTypes() and SE_SetLockOnLane()

The id was compared with the number of objects, hence valid ids were rejected
once any object had been removed.
---
 .../Libraries/esminiLib/esminiLib.cpp         | 20 +++----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 7058b93..f588897 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1376,15 +1376,8 @@ extern "C"
             return -1;
         }
 
-        if (object_id >= 0 && object_id < static_cast<int>(player->scenarioEngine->entities_.object_.size()))
-        {
-            obj->pos_.SetSnapLaneTypes(laneTypes);
-            obj->dirty_.SetBits(Object::DirtyBit::LANE_TYPE_SNAP_MASK);
-        }
-        else
-        {
-            return -1;
-        }
+        obj->pos_.SetSnapLaneTypes(laneTypes);
+        obj->dirty_.SetBits(Object::DirtyBit::LANE_TYPE_SNAP_MASK);
 
         return 0;
     }
@@ -1397,14 +1390,7 @@ extern "C"
             return -1;
         }
 
-        if (object_id >= 0 && object_id < static_cast<int>(player->scenarioEngine->entities_.object_.size()))
-        {
-            obj->pos_.SetLockOnLane(mode);
-        }
-        else
-        {
-            return -1;
-        }
+        obj->pos_.SetLockOnLane(mode);
 
         return 0;
     }
-- 
2.43.0


From dbf0d1a52a7613b8e5a1f1f6ed2bc1ea39bcfcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:53 +0000
Subject: [PATCH 17/51] fix: removing an object visits all of its controllers

The list of controllers was modified while being iterated.
---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp         | 3 ++-
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index f588897..425b3c0 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1185,7 +1185,8 @@ extern "C"
 
         if (player != nullptr)
         {
-            for (auto &ctrl : obj->controllers_)
+            const std::vector<Controller *> controllers = obj->controllers_;  // copy, since unassign will modify the list
+            for (auto ctrl : controllers)
             {
                 obj->UnassignController(ctrl);
                 ctrl->UnlinkObject();
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
index 8de1d88..b653f6a 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
@@ -827,7 +827,8 @@ int SwarmTrafficAction::despawn(double simTime)
 
         if (deleteVehicle)
         {
-            for (auto ctrl : vehicle->controllers_)
+            const std::vector<Controller*> controllers = vehicle->controllers_;  // copy, since unassign will modify the list
+            for (auto ctrl : controllers)
             {
                 vehicle->UnassignController(ctrl);
                 ctrl->UnlinkObject();
-- 
2.43.0


From f93b90dcc1631a9e18fc14bf0a526e87b9c42748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:52 +0000
Subject: [PATCH 18/51] fix: objects removed through the API stay valid for
 whatever still refers to them

SE_DeleteObject() freed the object and its controllers although conditions,
actions, events and sensors can still refer to them. They are now kept, inactive
and out of reach, until the scenario is closed.
---
 .../Libraries/esminiLib/esminiLib.cpp         | 10 ++----
 .../ScenarioEngine/SourceFiles/Entities.cpp   | 33 +++++++++++++++++++
 .../ScenarioEngine/SourceFiles/Entities.hpp   |  8 +++++
 3 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 425b3c0..20167f2 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1185,14 +1185,8 @@ extern "C"
 
         if (player != nullptr)
         {
-            const std::vector<Controller *> controllers = obj->controllers_;  // copy, since unassign will modify the list
-            for (auto ctrl : controllers)
-            {
-                obj->UnassignController(ctrl);
-                ctrl->UnlinkObject();
-                player->scenarioEngine->scenarioReader->RemoveController(ctrl);
-            }
-            player->scenarioEngine->entities_.removeObject(object_id);
+            obj->UnassignControllers();
+            player->scenarioEngine->entities_.retireObject(object_id);
             return 0;
         }
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index cf257b0..39c7d0f 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1585,6 +1585,12 @@ int Entities::activateObject(Object* obj, int call_index)
         LOG_ERROR_AND_QUIT("Error: activateObject max recursion reached ({}). Check scenario trailer config", max_trailers);
     }
 
+    if (std::find(object_retired_.begin(), object_retired_.end(), obj) != object_retired_.end())
+    {
+        LOG_ERROR("Failed to activate obj {}. It has been permanently removed.", obj->GetName());
+        return -1;
+    }
+
     int n_active_objs = static_cast<int>(std::count(object_.begin(), object_.end(), obj));
 
     if (n_active_objs == 0)
@@ -1718,6 +1724,33 @@ void Entities::removeObject(Object* object, bool recursive)
     return;
 }
 
+void Entities::retireObject(int id)
+{
+    for (size_t i = 0; i < object_.size(); i++)
+    {
+        if (object_[i]->id_ == id)
+        {
+            retireObject(object_[i]);
+            return;
+        }
+    }
+}
+
+void Entities::retireObject(Object* object)
+{
+    auto it = std::find(object_.begin(), object_.end(), object);
+    if (it == object_.end())
+    {
+        return;
+    }
+
+    object_.erase(it);
+    object->SetActive(false);
+    object_retired_.push_back(object);
+
+    retireObject(object->TrailerVehicle());
+}
+
 bool Entities::nameExists(std::string name) const
 {
     for (size_t i = 0; i < object_.size(); i++)
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
index 69196ae..f3b44b4 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
@@ -1119,10 +1119,16 @@ namespace scenarioengine
             {
                 delete entry;
             }
+
+            for (auto* entry : object_retired_)
+            {
+                delete entry;
+            }
         }
 
         std::vector<Object*> object_;
         std::vector<Object*> object_pool_;
+        std::vector<Object*> object_retired_;  // permanently removed, but possibly still referred to by e.g. conditions and actions
 
         int     addObject(Object* obj, bool activate, int call_index = 0);
         int     activateObject(Object* obj, int call_index = 0);
@@ -1130,6 +1136,8 @@ namespace scenarioengine
         void    removeObject(int id, bool recursive = true);
         void    removeObject(std::string name, bool recursive = true);
         void    removeObject(Object* object, bool recursive = true);
+        void    retireObject(int id);
+        void    retireObject(Object* object);
         int     getNewId();
         bool    indexExists(int id) const;
         bool    nameExists(std::string name) const;
-- 
2.43.0


From 1b8eb06ebcdd7a525d21685c1bd8b55cba416189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:02 +0000
Subject: [PATCH 19/51] fix: replay of interrupted recordings

A recording which was cut short (crash, disk full) ends with an incomplete
packet and an incomplete timestep. The packet was used with missing data set to
zero, and objects with missing data made the replayer and dat2csv terminate. Now
reading stops at the last complete timestep.
---
 .../Applications/replayer/Replay.cpp             | 16 ++++++++++++++++
 .../ScenarioEngine/SourceFiles/PacketHandler.cpp |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/EnvironmentSimulator/Applications/replayer/Replay.cpp b/EnvironmentSimulator/Applications/replayer/Replay.cpp
index 4a9adba..9ea79ae 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.cpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.cpp
@@ -285,6 +285,9 @@ bool Replay::ExtractPacketsAsSlices(bool dt_in_slice, size_t scenario_idx)
     bool         has_restart     = false;
     bool         first_timestamp = true;
     double       prev_timestamp  = 0.0;
+    bool         complete        = false;
+    size_t       n_timestamps    = timestamps_.size();  // number of timestamps and dts before current slice
+    size_t       n_dts           = dts_.values.size();
 
     Dat::PacketHeader header;
     while (dat_reader_->ReadFile(header))
@@ -295,6 +298,9 @@ bool Replay::ExtractPacketsAsSlices(bool dt_in_slice, size_t scenario_idx)
         double timestamp = prev_timestamp;
         if (packet.header.id == static_cast<id_t>(Dat::PacketId::TIMESTAMP))
         {
+            n_timestamps = timestamps_.size();
+            n_dts        = dts_.values.size();
+
             packet_slices_.emplace_back();  // Initializes a PacketSlice in place
             current_slice = &packet_slices_.back();
 
@@ -339,6 +345,7 @@ bool Replay::ExtractPacketsAsSlices(bool dt_in_slice, size_t scenario_idx)
             }
 
             eos_received_ = true;
+            complete      = true;
 
             continue;  // Don't add the packet to any slices
         }
@@ -374,6 +381,15 @@ bool Replay::ExtractPacketsAsSlices(bool dt_in_slice, size_t scenario_idx)
         prev_timestamp = timestamp;
     }
 
+    if (!complete && current_slice != nullptr)
+    {
+        // The recording was interrupted. The last timestep is probably not complete, skip it.
+        LOG_WARN("Recording has no end, skip the last timestep {:.3f} since it might be incomplete", current_slice->timestamp);
+        packet_slices_.pop_back();
+        timestamps_.resize(n_timestamps);
+        dts_.values.resize(n_dts);
+    }
+
     return has_restart;
 }
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.cpp
index e4e2444..48aceb3 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.cpp
@@ -538,6 +538,12 @@ bool Dat::DatReader::ReadFile(Dat::PacketHeader& header)
         return false;
     }
 
+    if (static_cast<std::streamoff>(header.data_size) > static_cast<std::streamoff>(file_size_ - file_.tellg()))
+    {
+        LOG_WARN("Incomplete packet at end of file {}", file_name_);
+        return false;
+    }
+
     return true;
 }
 
-- 
2.43.0


From be31d6d61d501432dab69b7c527a56c02bedb6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:03 +0000
Subject: [PATCH 20/51] fix: replay shows a consistent state for timesteps of
 zero length

Of several states with the same timestamp the last one was used for some objects
and the first one for others.
---
 EnvironmentSimulator/Applications/replayer/Replay.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/EnvironmentSimulator/Applications/replayer/Replay.hpp b/EnvironmentSimulator/Applications/replayer/Replay.hpp
index 0ff4bc9..9ec5867 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.hpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.hpp
@@ -51,11 +51,6 @@ namespace scenarioengine
 
             size_t idx = last_index;
 
-            if (NEAR_NUMBERS(last_time, time))
-            {
-                return values[idx].second;
-            }
-
             if (time >= values[idx].first)  // moving forward
             {
                 while (idx + 1 < values.size() && values[idx + 1].first <= time + SMALL_NUMBER)
-- 
2.43.0


From 729778f2815c6cbdc9e5b26942301cdd690d425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:03 +0000
Subject: [PATCH 21/51] fix: angular acceleration at large changes of the yaw
 rate

The difference between two rates was wrapped as if they were angles.
---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
index aa17dbc..d371547 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
@@ -691,7 +691,7 @@ void ScenarioEngine::prepareGroundTruth(double dt)
                 if (!obj->dirty_.Check(Object::DirtyBit::ANGULAR_ACC))
                 {
                     // If not already reported, calculate angular acceleration
-                    obj->SetAngularAcc(GetAngleDifference(heading_rate_new, obj->state_old.h_rate) / dt, 0.0, 0.0);
+                    obj->SetAngularAcc((heading_rate_new - obj->state_old.h_rate) / dt, 0.0, 0.0);
                 }
 
                 if (obj->type_ == Object::Type::VEHICLE)
-- 
2.43.0


From 9f1261cc691c495af60f8d6e8b0dda8d286d2d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:24 +0000
Subject: [PATCH 22/51] fix: SE_Init() starts from scratch like the other init
 functions

Without a preceding SE_Close() the arguments of the previous scenario were still
in use and its player was leaked.
---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 20167f2..f54733e 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -688,6 +688,8 @@ extern "C"
 
     SE_DLL_API int SE_Init(const char *oscFilename, int disable_ctrls, int use_viewer, int threads, int record)
     {
+        resetScenario();
+
 #ifndef _USE_OSG
         if (use_viewer)
         {
-- 
2.43.0


From 01404240ddd4a0a3ae3d6ff75a483c0d2724776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:24 +0000
Subject: [PATCH 23/51] fix: object callbacks are called once each and with
 their own data

Each of n callbacks for an object was called n times, with the data of the
others, and callbacks of previous scenarios were not cleared.
---
 .../Libraries/esminiLib/esminiLib.cpp              | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index f54733e..8b18e32 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -82,6 +82,7 @@ static void resetScenario(void)
     // Reset (global) callbacks
     OSCCondition::conditionCallback        = nullptr;
     StoryBoardElement::stateChangeCallback = nullptr;
+    objCallback.clear();
 
     time_stamp = 0;
 }
@@ -2415,13 +2416,14 @@ extern "C"
 
     void objCallbackFn(scenarioengine::Object *obj, void *my_data)
     {
+        (void)my_data;
         for (size_t i = 0; i < objCallback.size(); i++)
         {
             if (objCallback[i].id == obj->GetId())
             {
                 SE_ScenarioObjectState se_state;
                 copyStateFromScenarioObject(&se_state, *obj);
-                objCallback[i].func(&se_state, my_data);
+                objCallback[i].func(&se_state, objCallback[i].data);
             }
         }
     }
@@ -2431,9 +2433,15 @@ extern "C"
         SE_ObjCallback cb;
         cb.id   = object_id;
         cb.func = fnPtr;
-        cb.data = nullptr;
+        cb.data = user_data;
+
+        // objCallbackFn will invoke all callbacks registered for the object
+        bool registered = std::any_of(objCallback.begin(), objCallback.end(), [&](const SE_ObjCallback &c) { return c.id == object_id; });
         objCallback.push_back(cb);
-        player->RegisterObjCallback(object_id, objCallbackFn, user_data);
+        if (!registered)
+        {
+            player->RegisterObjCallback(object_id, objCallbackFn, nullptr);
+        }
     }
 
     SE_DLL_API void SE_RegisterConditionCallback(void (*fnPtr)(const char *name, double timestamp))
-- 
2.43.0


From 6b816ac9066a6893e1c2efdfd321d4a457eb55ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:24 +0000
Subject: [PATCH 24/51] fix: a scenario that failed to load does not affect the
 following one

Unresolved storyboard element triggers were kept and resolved, although deleted,
when loading the next scenario.
---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index cf2667f..34351e3 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -77,6 +77,8 @@ ScenarioReader::ScenarioReader(Entities *entities, Catalogs *catalogs, OSCEnviro
       has_lightstate_action_(false)
 {
     parameters.Clear();
+    variables.Clear();
+    storyboard_element_triggers.clear();  // there can be leftovers from a previous scenario which failed to load
 }
 
 ScenarioReader::~ScenarioReader()
-- 
2.43.0


From 5d548f09c2d120058dfdac33c309cdfd8c341c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:49 +0000
Subject: [PATCH 25/51] fix: first realtime step of a scenario does not depend
 on the previous scenario

The system time of the last frame was kept from one scenario to the next.
---
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp | 3 +--
 EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index ab0ae6f..e8a1985 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -254,8 +254,7 @@ int ScenarioPlayer::Frame(bool server_mode)
 
     if ((dt = GetFixedTimestep()) < 0.0)
     {
-        static __int64 time_stamp = 0;
-        return Frame(SE_getSimTimeStep(time_stamp, minStepSize, maxStepSize), server_mode);
+        return Frame(SE_getSimTimeStep(frame_time_stamp_, minStepSize, maxStepSize), server_mode);
     }
     else
     {
diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
index 3b0f5bd..fa31206 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
@@ -280,6 +280,7 @@ namespace scenarioengine
         std::vector<ObjectSensor *> sensor;
         const double                maxStepSize;
         const double                minStepSize;
+        __int64                     frame_time_stamp_ = 0;  // system time of last frame in realtime mode
         std::vector<ObjCallback>    objCallback;
         std::string                 exe_path_;
         SE_Semaphore                player_init_semaphore;
-- 
2.43.0


From 58207510a0ab7fe27e3039df1de43226e02cf56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:49 +0000
Subject: [PATCH 26/51] fix: option collision applies to the scenario it is
 given for only

Collision detection remained enabled for all following scenarios.
---
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp | 9 ++++++++-
 EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index e8a1985..ea187bf 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -123,6 +123,12 @@ ScenarioPlayer::~ScenarioPlayer()
     }
 #endif  // _USE_OSI
 
+    if (collision_option_applied_)
+    {
+        // restore global setting, the option should not affect next scenario
+        SE_Env::Inst().SetCollisionDetection(false);
+    }
+
     SE_Env::Inst().GetOptions().Reset();
 }
 
@@ -1809,9 +1815,10 @@ int ScenarioPlayer::Init()
         LOG_INFO("Generated seed {}", SE_Env::Inst().GetRand().GetSeed());
     }
 
-    if (opt.GetOptionSet("collision"))
+    if (opt.GetOptionSet("collision") && !SE_Env::Inst().GetCollisionDetection())
     {
         SE_Env::Inst().SetCollisionDetection(true);
+        collision_option_applied_ = true;
     }
 
     if (opt.GetOptionSet("plot"))
diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
index fa31206..1f5218b 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
@@ -280,7 +280,8 @@ namespace scenarioengine
         std::vector<ObjectSensor *> sensor;
         const double                maxStepSize;
         const double                minStepSize;
-        __int64                     frame_time_stamp_ = 0;  // system time of last frame in realtime mode
+        __int64                     frame_time_stamp_         = 0;      // system time of last frame in realtime mode
+        bool                        collision_option_applied_ = false;  // collision detection was enabled by option
         std::vector<ObjCallback>    objCallback;
         std::string                 exe_path_;
         SE_Semaphore                player_init_semaphore;
-- 
2.43.0


From 4ae41908e7536d67625940317ad5fc417f2d33d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:45 +0000
Subject: [PATCH 27/51] fix: SE_RegisterObjectCallback does not crash when no
 scenario is loaded

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 8b18e32..0233885 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2430,6 +2430,11 @@ extern "C"
 
     SE_DLL_API void SE_RegisterObjectCallback(int object_id, void (*fnPtr)(SE_ScenarioObjectState *, void *), void *user_data)
     {
+        if (player == nullptr)
+        {
+            return;
+        }
+
         SE_ObjCallback cb;
         cb.id   = object_id;
         cb.func = fnPtr;
-- 
2.43.0


From 9c95d192d4519107f406bbf5d73adac4e8d62bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 28/51] fix: real-time step stays within its limits when the
 system clock is set back or the process sleeps

---
 EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp b/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
index 9ee53e6..20fe9af 100644
--- a/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
+++ b/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
@@ -1122,11 +1122,11 @@ double SE_getSimTimeStep(__int64& time_stamp, double min_time_step, double max_t
         }
         else if (dt < min_time_step)  // avoid CPU rush, sleep for a while
         {
-            double nap_duration = min_time_step - dt;
+            double nap_duration = min_time_step - MAX(dt, 0.0);  // dt is negative if system clock has been set back
             LOG_DEBUG("dt {:.10f} < minimum {} ms ({}s), take minimal nap", dt, min_time_step * 1e+3, min_time_step);
             SE_sleepMicroseconds(static_cast<unsigned int>(nap_duration * 1e+6));  // sleep microseconds
             now = SE_getSystemTimeMicroseconds();
-            dt  = (now - time_stamp) * 1e-6;
+            dt  = CLAMP((now - time_stamp) * 1e-6, min_time_step, max_time_step);
         }
     }
     time_stamp = now;
-- 
2.43.0


From c5923e4ab29747e591a9f397dcbf502dd3c43618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 29/51] fix: parameter declarations and catalog assignments do
 not leak into other elements

---
 .../Modules/ScenarioEngine/SourceFiles/Parameters.cpp         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index 6b487e9..11fcf83 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -19,8 +19,10 @@ using namespace scenarioengine;
 
 void Parameters::addParameterDeclarations(pugi::xml_node xml_node)
 {
-    paramDeclarationsSize_.push(static_cast<int>(parameterDeclarations_.Parameter.size()));
     parseParameterDeclarations(xml_node, &parameterDeclarations_);
+
+    // Assignments apply to the declarations of the referenced catalog entry only, not to nested elements
+    catalog_param_assignments.clear();
 }
 
 void Parameters::parseGlobalParameterDeclarations(pugi::xml_node osc_root)
-- 
2.43.0


From 13f38a66e6fb5522f3100cb48fb150de7337c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 30/51] fix: ideal sensor respects its object limit and its
 heading

---
 .../Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp   | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
index 501ee3f..9f3ebb5 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
@@ -61,7 +61,7 @@ void ObjectSensor::Update()
 {
     nObj_ = 0;
 
-    for (size_t i = 0; i < entities_->object_.size(); i++)
+    for (size_t i = 0; i < entities_->object_.size() && nObj_ < maxObj_; i++)
     {
         Object *obj = entities_->object_[i];
         if (obj == host_ || obj->IsGhost())
@@ -102,11 +102,8 @@ void ObjectSensor::Update()
             continue;
         }
 
-        double xon, yon;
-        NormalizeVec2D(xo, yo, xon, yon);
-
-        // Find angle to object
-        double angle     = acos(GetDotProduct2D(hx2, hy2, xon, yon));
+        // Find (signed) angle to object
+        double angle     = atan2(GetCrossProduct2D(hx2, hy2, xo, yo), GetDotProduct2D(hx2, hy2, xo, yo));
         double rel_angle = GetAbsAngleDifference(angle, pos_.h);
         if (rel_angle < fovH_ / 2)
         {
-- 
2.43.0


From 1ac7d325b9742ef744c52fee2c888b09172e866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 31/51] fix: Rel2Abs prediction does not crash on actions it
 does not copy

---
 .../Modules/Controllers/ControllerRel2Abs.cpp                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp
index 3f703cb..4c8acb0 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp
@@ -175,11 +175,12 @@ void ControllerRel2Abs::Step(double timeStep)
 
                 for (unsigned int j = 0; j < activeActions.size(); j++)
                 {
-                    OSCPrivateAction* action_copy = activeActions[j]->Copy();
-                    action_copy->object_          = entities_->object_[i];
+                    // only the listed action types support copying
                     if (std::find(std::begin(action_whitelist), std::end(action_whitelist), activeActions[j]->action_type_) !=
                         std::end(action_whitelist))
                     {
+                        OSCPrivateAction* action_copy = activeActions[j]->Copy();
+                        action_copy->object_          = entities_->object_[i];
                         activeActionsCopies.push_back(static_cast<OSCAction*>(action_copy));
                     }
                 }
-- 
2.43.0


From 728712bfff4d16e15f053dbf1f33dde5da8c5351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 32/51] fix: ghost of an object with an initial light state
 action does not crash the load

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 0752537..7ee8f5c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -1487,6 +1487,12 @@ namespace scenarioengine
 
         ~LightStateAction();
 
+        OSCPrivateAction* Copy()
+        {
+            LightStateAction* new_action = new LightStateAction(*this);
+            return new_action;
+        }
+
         enum class FlashingStatus
         {
             OFF = 0,
-- 
2.43.0


From 54d4ee945abe1471b349660acc6c98fe8157f933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:02 +0000
Subject: [PATCH 33/51] fix: controllers of removed objects are not stepped

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
index d371547..6755b2a 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
@@ -259,7 +259,9 @@ int ScenarioEngine::step(double deltaSimTime)
 
     for (size_t i = 0; i < scenarioReader->controller_.size(); i++)
     {
-        if (scenarioReader->controller_[i]->Active())
+        // controllers of objects that have been removed from the scenario have nothing to control
+        Object* ctrl_obj = scenarioReader->controller_[i]->GetLinkedObject();
+        if (scenarioReader->controller_[i]->Active() && (ctrl_obj == nullptr || ctrl_obj->IsActive()))
         {
             if (SE_Env::Inst().GetGhostMode() != GhostMode::RESTARTING)
             {
-- 
2.43.0


From f4c362eb728633907664febe0a03f2f6bf16d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:03 +0000
Subject: [PATCH 34/51] fix: Rel2Abs replaces a relative distance action once

---
 .../Modules/Controllers/ControllerRel2Abs.cpp             | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp
index 4c8acb0..1a7c453 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp
@@ -391,16 +391,18 @@ void ControllerRel2Abs::Step(double timeStep)
                     lsa->target_.reset(target_abs);
                     // get lda's event and add lsa action to it
                     std::vector<Event*> events = lda->object_->getEvents();
-                    for (size_t j = 0; j < events.size(); j++)
+                    bool                added  = false;
+                    for (size_t j = 0; j < events.size() && !added; j++)
                     {
                         // Ensure it's correct event
-                        for (size_t k = 0; k < events[j]->action_.size(); k++)
+                        for (size_t k = 0; k < events[j]->action_.size() && !added; k++)
                         {
-                            if (activeActions[i] == events[j]->action_[k])
+                            if (lda == events[j]->action_[k])
                             {
                                 events[j]->action_.push_back(static_cast<OSCAction*>(lsa));
                                 activeActions.erase(activeActions.begin() + i);
                                 activeActions.push_back(lsa);
+                                added = true;
                             }
                         }
                     }
-- 
2.43.0


From 17609ed68282db486028cd62b92392fc735a856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:38 +0000
Subject: [PATCH 35/51] fix: ALKS R157 reference driver does not crash when its
 trigger fires without a target

---
 .../Modules/Controllers/ControllerALKS_R157SM.cpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerALKS_R157SM.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerALKS_R157SM.cpp
index b3fda2b..02c51f6 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerALKS_R157SM.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerALKS_R157SM.cpp
@@ -902,7 +902,7 @@ bool ControllerALKS_R157SM::ReferenceDriver::CheckPerceptionCutIn()
                 trig = true;
             }
 
-            if (trig)
+            if (trig && object_in_focus_.obj)
             {
                 perception_t_ = object_in_focus_.obj->pos_.GetT();
 
-- 
2.43.0


From 028bc3838274ab6edfb53eb2014babe400abbf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:35 +0000
Subject: [PATCH 36/51] fix: ghost restart terminates when stepping with zero
 time step

---
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index ea187bf..92c6f20 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -189,7 +189,7 @@ void ScenarioPlayer::Draw()
 int ScenarioPlayer::Frame(double timestep_s, bool server_mode)
 {
     int    retval        = 0;
-    double ghost_solo_dt = (GetFixedTimestep() < 0.0) ? 0.05 : GetFixedTimestep();
+    double ghost_solo_dt = (GetFixedTimestep() < SMALL_NUMBER) ? 0.05 : GetFixedTimestep();
 
     // The state might be changed by the player server at any time, so evaluate it once, synchronized with frames executed by the server
     scenarioEngine->mutex_.Lock();
-- 
2.43.0


From c4c0162a323229951285cb619e055623c171461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:49 +0000
Subject: [PATCH 37/51] fix: speed profile with skipped first entries does not
 read beyond its list

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 45944a7..664b2b2 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1424,7 +1424,7 @@ void LongSpeedProfileAction::Start(double simTime)
 
         vertex.back().SetK(k_tmp);
 
-        if (index > 1)
+        if (index > 1 && vertex.size() > 1)
         {
             delta_k = vertex.back().k_ - (vertex.rbegin() + 1)->k_;  // last - second last
         }
@@ -1433,7 +1433,7 @@ void LongSpeedProfileAction::Start(double simTime)
             delta_k = vertex.back().k_ - init_acc_;  // slope is zero at start - no delta
         }
 
-        if (abs(delta_k) < SMALL_NUMBER && index > 1)
+        if (abs(delta_k) < SMALL_NUMBER && index > 1 && vertex.size() > 1)
         {
             // replace previous entry
             double new_k  = (entry_[index].speed_ + speed_offset - (vertex.rbegin() + 1)->v_) / (time - (vertex.rbegin() + 1)->t_);
-- 
2.43.0


From bd6f1b6151237e60b77582ce344238eaf622caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:24 +0000
Subject: [PATCH 38/51] fix: reach position condition compares orientation
 angles modulo 2 pi

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 43e07ad..64031f2 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -900,8 +900,9 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
             // Check for any orientation condition
             if (checkOrientation_)
             {
-                if (abs(trigObj->pos_.GetH() - pos->GetH()) < angularTolerance_ && abs(trigObj->pos_.GetP() - pos->GetP()) < angularTolerance_ &&
-                    abs(trigObj->pos_.GetR() - pos->GetR()) < angularTolerance_)
+                if (GetAbsAngleDifference(trigObj->pos_.GetH(), pos->GetH()) < angularTolerance_ &&
+                    GetAbsAngleDifference(trigObj->pos_.GetP(), pos->GetP()) < angularTolerance_ &&
+                    GetAbsAngleDifference(trigObj->pos_.GetR(), pos->GetR()) < angularTolerance_)
                 {
                     result = true;
                 }
-- 
2.43.0


From 0aab147cb2588aa06b7799987560cd9c16f7102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:24 +0000
Subject: [PATCH 39/51] fix: reach position condition log info when no entity
 fulfils the condition (falling edge)

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 64031f2..4750983 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -933,7 +933,7 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
 
 std::string TrigByReachPosition::GetAdditionalLogInfo()
 {
-    if (checkOrientation_)
+    if (checkOrientation_ && !triggered_by_entities_.empty())
     {
         return fmt::format("distance {:.2f} < tolerance ({:.2f}), orientation [{:.2f}, {:.2f}, {:.2f}] (tolerance {:.2f}), edge: {}",
                            dist_,
-- 
2.43.0


From 6981c1b02181f2ce178319191c078eb4e5c8288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:08 +0000
Subject: [PATCH 40/51] fix: speed action over distance keeps the requested
 distance when executed again

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp      | 9 ++++++++-
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp      | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 664b2b2..4c5032c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1198,9 +1198,15 @@ void LongSpeedAction::Start(double simTime)
         // Convert to time, since speed shape is expected over time, not distance (as in lane change case)
         // special cased when speed changes sign:
 
+        if (requested_distance_ < 0.0 || !NEAR_NUMBERS(transition_.GetParamTargetVal(), resolved_duration_))
+        {
+            // not the duration from a previous execution of the action
+            requested_distance_ = transition_.GetParamTargetVal();
+        }
+
         double v0   = transition_.GetStartVal();
         double v1   = target_->GetValue();
-        double dist = transition_.GetParamTargetVal();
+        double dist = requested_distance_;
 
         if (abs(v1 - v0) < SMALL_NUMBER)
         {
@@ -1231,6 +1237,7 @@ void LongSpeedAction::Start(double simTime)
             // => time = 2*distance/(v_init + v_end)
             transition_.SetParamTargetVal(2 * dist / (abs(v0 + v1)));
         }
+        resolved_duration_ = transition_.GetParamTargetVal();
     }
 
     transition_.SetTargetVal(ABS_LIMIT(target_->GetValue(), object_->performance_.maxSpeed));
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 7ee8f5c..d0f0f0b 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -260,6 +260,8 @@ namespace scenarioengine
 
         std::shared_ptr<Target> target_;
         bool                    target_speed_reached_;
+        double                  requested_distance_ = -1.0;  // dimension distance only
+        double                  resolved_duration_  = -1.0;  // duration replacing the requested distance while executing
 
         LongSpeedAction(StoryBoardElement* parent)
             : OSCPrivateAction(OSCPrivateAction::ActionType::LONG_SPEED, parent, static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LONG)),
@@ -277,6 +279,8 @@ namespace scenarioengine
             target_               = action.target_;
             transition_           = action.transition_;
             target_speed_reached_ = action.target_speed_reached_;
+            requested_distance_   = action.requested_distance_;
+            resolved_duration_    = action.resolved_duration_;
         }
 
         OSCPrivateAction* Copy()
-- 
2.43.0


From ea696bb380aae829e9b12192cf339bd782f0a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:36 +0000
Subject: [PATCH 41/51] fix: clear collisions of deactivated entities

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 39c7d0f..3397ba5 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1643,6 +1643,13 @@ int Entities::deactivateObject(Object* obj, int call_index)
         object_.erase(std::remove(object_.begin(), object_.end(), obj), object_.end());
         obj->SetActive(false);
 
+        // any ongoing collisions are over, also if the object is activated again later
+        for (Object* other : object_)
+        {
+            other->collisions_.erase(std::remove(other->collisions_.begin(), other->collisions_.end(), obj), other->collisions_.end());
+        }
+        obj->collisions_.clear();
+
         int n_objs = static_cast<int>(std::count(object_pool_.begin(), object_pool_.end(), obj));
         if (n_objs == 0)
         {
-- 
2.43.0


From 1fc15658e6f80fa353b8a8aa6e5ab71a205e503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:30 +0000
Subject: [PATCH 42/51] fix: longitudinal distance action resolves displacement
 any at each execution

---
 .../OSCTypeDefs/OSCPrivateAction.cpp          |  9 +++++----
 .../OSCTypeDefs/OSCPrivateAction.hpp          | 20 ++++++++++---------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 4c5032c..0a137fc 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1818,6 +1818,7 @@ void LongDistanceAction::Start(double simTime)
     }
 
     // Resolve displacement
+    resolved_displacement_ = displacement_;
     if (displacement_ == DisplacementType::ANY)
     {
         // Find out current displacement, and apply it
@@ -1839,11 +1840,11 @@ void LongDistanceAction::Start(double simTime)
 
         if (distance < 0.0)
         {
-            displacement_ = DisplacementType::LEADING;
+            resolved_displacement_ = DisplacementType::LEADING;
         }
         else
         {
-            displacement_ = DisplacementType::TRAILING;
+            resolved_displacement_ = DisplacementType::TRAILING;
         }
     }
 
@@ -1888,11 +1889,11 @@ void LongDistanceAction::Step(double simTime, double dt)
         requested_dist = abs(target_object_->speed_) * distance_;
     }
 
-    if (displacement_ == DisplacementType::TRAILING)
+    if (resolved_displacement_ == DisplacementType::TRAILING)
     {
         requested_dist = abs(requested_dist);
     }
-    else if (displacement_ == DisplacementType::LEADING)
+    else if (resolved_displacement_ == DisplacementType::LEADING)
     {
         requested_dist = -abs(requested_dist);
     }
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index d0f0f0b..a5ef42d 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -468,6 +468,7 @@ namespace scenarioengine
         double                        freespace_;
         bool                          continuous_;
         DisplacementType              displacement_;
+        DisplacementType              resolved_displacement_ = DisplacementType::NONE;  // any resolved at each start of the action
         DynamicConstraints            dynamics_;
         roadmanager::CoordinateSystem cs_;
 
@@ -489,15 +490,16 @@ namespace scenarioengine
                                static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LONG))
         {
             SetName(action.GetName());
-            target_object_ = action.target_object_;
-            dynamics_      = action.dynamics_;
-            distance_      = action.distance_;
-            dist_type_     = action.dist_type_;
-            freespace_     = action.freespace_;
-            acceleration_  = action.acceleration_;
-            displacement_  = action.displacement_;
-            cs_            = action.cs_;
-            continuous_    = action.continuous_;
+            target_object_         = action.target_object_;
+            dynamics_              = action.dynamics_;
+            distance_              = action.distance_;
+            dist_type_             = action.dist_type_;
+            freespace_             = action.freespace_;
+            acceleration_          = action.acceleration_;
+            displacement_          = action.displacement_;
+            resolved_displacement_ = action.resolved_displacement_;
+            cs_                    = action.cs_;
+            continuous_            = action.continuous_;
         }
 
         OSCPrivateAction* Copy()
-- 
2.43.0


From 5b67c15a5052c89af38b3d72df5e56648eae64bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:43 +0000
Subject: [PATCH 43/51] fix: csv log ends its line and counts it when there are
 no objects

---
 EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp | 9 ++++++++-
 EnvironmentSimulator/Modules/CommonMini/CommonMini.hpp | 2 +-
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp b/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
index 20fe9af..c1f4cca 100644
--- a/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
+++ b/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
@@ -2112,11 +2112,18 @@ CSV_Logger::~CSV_Logger()
     callback_ = 0;
 }
 
-void CSV_Logger::LogEntryHeader(double timestamp)
+void CSV_Logger::LogEntryHeader(double timestamp, bool isendline)
 {
     static char data_entry[max_csv_entry_length];
     snprintf(data_entry, max_csv_entry_length, "%d, %f, ", data_index_, timestamp);
     file_ << data_entry;
+
+    // No vehicle data will follow, the line is complete already
+    if (isendline == true)
+    {
+        file_ << std::endl;
+        data_index_++;
+    }
 }
 
 void CSV_Logger::LogVehicleData(bool        isendline,
diff --git a/EnvironmentSimulator/Modules/CommonMini/CommonMini.hpp b/EnvironmentSimulator/Modules/CommonMini/CommonMini.hpp
index cdac408..adf07b4 100644
--- a/EnvironmentSimulator/Modules/CommonMini/CommonMini.hpp
+++ b/EnvironmentSimulator/Modules/CommonMini/CommonMini.hpp
@@ -996,7 +996,7 @@ public:
     static CSV_Logger& Inst();
 
     // Call this first for each timestep, before LogVehicleData()
-    void LogEntryHeader(double timestamp);
+    void LogEntryHeader(double timestamp, bool isendline = false);
 
     // Logging function called by VehicleLogger object using pass by value
     void LogVehicleData(bool        isendline,
diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index 92c6f20..6ec28fb 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -2148,7 +2148,7 @@ void ScenarioPlayer::UpdateCSV_Log()
     // Flag for signalling end of data line, all vehicles reported
     bool isendline = false;
 
-    CSV_Log->LogEntryHeader(scenarioEngine->getSimulationTime());
+    CSV_Log->LogEntryHeader(scenarioEngine->getSimulationTime(), scenarioEngine->entities_.object_.empty());
 
     // For each vehicle (entitity) stored in the ScenarioPlayer
     for (size_t i = 0; i < scenarioEngine->entities_.object_.size(); i++)
-- 
2.43.0


From 715f53359078904cd83e88ee62d11f32a4972b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:43 +0000
Subject: [PATCH 44/51] fix: distance travelled past the end of a trajectory
 considers the timing scale

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 0a137fc..0a48d17 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -539,6 +539,10 @@ void FollowTrajectoryAction::Step(double simTime, double dt)
         {
             // Move the remaning distance along road at current lane offset
             double remaningTime = time_ + timeOffset - (traj_->GetStartTime() + traj_->GetDuration());
+            if (timing_scale_ > SMALL_NUMBER)
+            {
+                remaningTime /= timing_scale_;  // trajectory time -> simulation time
+            }
             remaningDistance    = remaningTime * object_->speed_;
         }
 
-- 
2.43.0


From 20300c911d5687d813922a35879d196ec9c3ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:44 +0000
Subject: [PATCH 45/51] fix: trajectory speed update considers the timing
 offset in absolute timing

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 0a48d17..94cd6f2 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -608,7 +608,7 @@ void scenarioengine::FollowTrajectoryAction::Move(double simTime, double dt)
         object_->pos_.SetTrajectoryPosByTime(time_ + timeOffset + timing_offset_);
 
         if ((dt > SMALL_NUMBER) &&  // skip speed update if timestep is zero
-            (time_ + timeOffset < traj_->GetStartTime() + traj_->GetDuration() + SMALL_NUMBER))
+            (time_ + timeOffset + timing_offset_ < traj_->GetStartTime() + traj_->GetDuration() + SMALL_NUMBER))
         {
             // don't calculate and update actual speed when reached end of trajectory,
             // since the movement is based on remaining length of trajectory, not speed
-- 
2.43.0


From 40df18c282a283f2e938b0c59a68effeb1cf1eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:44 +0000
Subject: [PATCH 46/51] fix: speed profile with merged entries ends at its
 final speed

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 94cd6f2..ceadd7e 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1448,6 +1448,10 @@ void LongSpeedProfileAction::Start(double simTime)
         {
             // replace previous entry
             double new_k  = (entry_[index].speed_ + speed_offset - (vertex.rbegin() + 1)->v_) / (time - (vertex.rbegin() + 1)->t_);
+            if (index == entry_.size() - 1)
+            {
+                new_k = 0.0;  // final entry, speed is kept from here
+            }
             vertex.back() = EntryVertex(time, entry_[index].speed_ + speed_offset, new_k);
             continue;  // skip entry
         }
@@ -1713,7 +1717,8 @@ void LongSpeedProfileAction::Step(double simTime, double dt)
 
     elapsed_ = MAX(0.0, time - segment_[0].t);
 
-    if (static_cast<unsigned int>(cur_index_) >= entry_.size() - 1 && fabs(speed_ - segment_.back().v) < SMALL_NUMBER)
+    // entries may have been merged, leaving fewer segments than entries
+    if (static_cast<size_t>(cur_index_) >= MIN(entry_.size(), segment_.size()) - 1 && fabs(speed_ - segment_.back().v) < SMALL_NUMBER)
     {
         speed_ = segment_.back().v;
         OSCAction::End();
-- 
2.43.0


From 0e1044b85456616d30dd8b378cfbc303916a17ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:44 +0000
Subject: [PATCH 47/51] fix: speed profile entry without time does not replace
 the previous entry

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index ceadd7e..1feb9cd 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1425,7 +1425,7 @@ void LongSpeedProfileAction::Start(double simTime)
 
         if (index < entry_.size() - 1)
         {
-            if (dt < SMALL_NUMBER)
+            if (fabs(dt) < SMALL_NUMBER)
             {
                 // replace previous entry
                 vertex.back() = EntryVertex(time, entry_[index].speed_ + speed_offset);
-- 
2.43.0


From 0a4ba1b4b97578b9bb4f112ebf010792c4c02d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:16 +0000
Subject: [PATCH 48/51] fix: connecting a trailer releases it from its previous
 tow vehicle

---
 .../ScenarioEngine/SourceFiles/Entities.cpp        | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 3397ba5..1c7c73b 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1845,14 +1845,18 @@ void Vehicle::SetAllowedPitch()
 
 int Vehicle::ConnectTrailer(Vehicle* trailer)
 {
-    if (trailer && trailer->trailer_coupler_)
+    if (trailer && trailer->trailer_coupler_ && trailer_hitch_)
     {
-        trailer->trailer_coupler_->tow_vehicle_ = this;
-        if (trailer_hitch_)
+        Vehicle* previous_tow_vehicle = static_cast<Vehicle*>(trailer->TowVehicle());
+        if (previous_tow_vehicle && previous_tow_vehicle != this)
         {
-            trailer_hitch_->trailer_vehicle_ = trailer;
-            return 0;
+            // a trailer has only one tow vehicle at a time
+            previous_tow_vehicle->DisconnectTrailer();
         }
+
+        trailer->trailer_coupler_->tow_vehicle_ = this;
+        trailer_hitch_->trailer_vehicle_        = trailer;
+        return 0;
     }
 
     return -1;
-- 
2.43.0


From ae2676a0dbcc563af97a766f2a687f20dcf9df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:16 +0000
Subject: [PATCH 49/51] fix: refuse to connect a trailer to its own tow chain

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 1c7c73b..340437f 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1847,6 +1847,15 @@ int Vehicle::ConnectTrailer(Vehicle* trailer)
 {
     if (trailer && trailer->trailer_coupler_ && trailer_hitch_)
     {
+        for (Object* obj = this; obj; obj = obj->TowVehicle())
+        {
+            if (obj == trailer)
+            {
+                LOG_ERROR("Trailer {} can't be connected to {} since it is part of its tow chain", trailer->GetName(), GetName());
+                return -1;
+            }
+        }
+
         Vehicle* previous_tow_vehicle = static_cast<Vehicle*>(trailer->TowVehicle());
         if (previous_tow_vehicle && previous_tow_vehicle != this)
         {
-- 
2.43.0


From ca6f4d401811345e58179389641b1750ce2ea7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:16 +0000
Subject: [PATCH 50/51] fix: adding an entity is a relocation, not motion

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
index b653f6a..5a851bf 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
@@ -249,6 +249,7 @@ void AddEntityAction::Start(double simTime)
     }
 
     entity_->pos_.TeleportTo(pos_);
+    entity_->dirty_.SetBits(Object::DirtyBit::TELEPORT);  // indicate new position
 
     if (!entity_->TowVehicle() && entity_->TrailerVehicle())
     {
-- 
2.43.0


From 0be1fccb03fdba794bc1382b73258ce446ece30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:16 +0000
Subject: [PATCH 51/51] fix: relocation of trailers along with their tow
 vehicle is not motion

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp              | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 340437f..033b0b2 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1901,6 +1901,7 @@ void Vehicle::AlignTrailers()
 
             trailer->pos_.SetInertiaPos(v1.x(), v1.y(), pos_.GetH());
             trailer->SetSpeed(GetSpeed());
+            trailer->dirty_.SetBits(DirtyBit::TELEPORT);  // indicate new position
         }
         v = trailer;
     }
-- 
2.43.0

