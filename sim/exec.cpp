// Plan interpreter and fork server.  One plan = one simulated execution; the plan holds every decision
// (scenario, call sequence, step sizes, deliveries, faults, schedule), so running it again repeats it exactly.
#include "sim.hpp"
#include "esminiLib.hpp"
#include "RoadManager.hpp"
#include "Replay.hpp"

#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

extern "C" int dat2csv_main(int argc, char** argv);
extern "C" int esmini_main(int argc, char** argv);

static char*           g_buf  = nullptr;  // shared trace buffer
static volatile size_t* g_len = nullptr;
static const size_t    kCap   = 192u << 20;

static void tput(const char* s, size_t n)
{
    size_t l = *g_len;
    if (l + n > kCap)
    {
        _exit(96);
    }
    memcpy(g_buf + l, s, n);
    *g_len = l + n;
}

namespace sim
{
    void trace(const char* fmt, ...)
    {
        char    line[8192];
        va_list ap;
        va_start(ap, fmt);
        int n = vsnprintf(line, sizeof(line) - 2, fmt, ap);
        va_end(ap);
        if (n < 0) return;
        if (n > static_cast<int>(sizeof(line)) - 2) n = sizeof(line) - 2;
        line[n++] = '\n';
        tput(line, static_cast<size_t>(n));
    }
    void fatal(const char* kind, const char* detail)
    {
        trace("!%s %s", kind, detail);
        trace("P %s", probes_str().c_str());
        trace("D %llu %llx %d", static_cast<unsigned long long>(decisions()), static_cast<unsigned long long>(sched_hash()), live_threads());
        std::string s = schedule_str();
        if (!s.empty() && s.size() < 4000000)
        {
            tput("L ", 2);
            tput(s.data(), s.size());
            tput("\n", 1);
        }
        _exit(strcmp(kind, "CRASHED") == 0 ? 77 : 78);
    }
}  // namespace sim

static std::string unesc(const std::string& s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); i++)
    {
        if (s[i] == '%' && i + 2 < s.size())
        {
            o += static_cast<char>(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16));
            i += 2;
        }
        else
            o += s[i];
    }
    return o;
}
static std::string esc(const char* s)
{
    if (!s) return "%00";
    std::string o;
    for (; *s; s++)
    {
        if (*s <= ' ' || *s == '%' || static_cast<unsigned char>(*s) > 126)
        {
            char b[4];
            snprintf(b, sizeof(b), "%%%02X", static_cast<unsigned char>(*s));
            o += b;
        }
        else
            o += *s;
    }
    return o.empty() ? std::string("%00") : o;
}
static std::string unhex(const std::string& s)
{
    std::string o;
    for (size_t i = 0; i + 1 < s.size(); i += 2) o += static_cast<char>(strtol(s.substr(i, 2).c_str(), nullptr, 16));
    return o;
}

static std::string g_snap = "b";  // which groups to dump after each step
static bool        g_auto = true;
static std::vector<double> g_dts;  // sizes of real-time steps
static std::vector<int> g_sensors;

static void tnum(std::string& o, double v)
{
    char b[40];
    if (v == 0.0)
        snprintf(b, sizeof(b), " %s", std::signbit(v) ? "-0.0" : "0");
    else
        snprintf(b, sizeof(b), " %.17g", v);
    o += b;
}

static void snapshot()
{
    int n = SE_GetNumberOfObjects();
    std::string o = "T";
    tnum(o, SE_GetSimulationTime());
    o += " " + std::to_string(n) + " " + std::to_string(SE_GetQuitFlag()) + " " + std::to_string(SE_GetPauseFlag()) + "\n";
    tput(o.data(), o.size());
    if (g_snap.find('-') != std::string::npos) return;
    for (int i = 0; i < n; i++)
    {
        int                    id = SE_GetId(i);
        SE_ScenarioObjectState s;
        memset(&s, 0, sizeof(s));
        if (SE_GetObjectState(id, &s) != 0)
        {
            sim::trace("O %d MISSING", id);
            continue;
        }
        std::string l = "O " + std::to_string(s.id);
        for (double v : {(double)s.timestamp, (double)s.x, (double)s.y, (double)s.z, (double)s.h, (double)s.p, (double)s.r, (double)s.speed}) tnum(l, v);
        l += " " + std::to_string((int)s.roadId) + " " + std::to_string((int)s.junctionId) + " " + std::to_string(s.laneId);
        for (double v : {(double)s.s, (double)s.t, (double)s.laneOffset, (double)s.wheel_angle, (double)s.wheel_rot}) tnum(l, v);
        l += "\n";
        tput(l.data(), l.size());
        if (g_snap.find('k') != std::string::npos)  // kinematics
        {
            double v[14] = {0};
            SE_GetObjectVelocityGlobalXYZ(id, &v[0], &v[1], &v[2]);
            SE_GetObjectAccelerationGlobalXYZ(id, &v[3], &v[4], &v[5]);
            SE_GetObjectAngularVelocity(id, &v[6], &v[7], &v[8]);
            SE_GetObjectAngularAcceleration(id, &v[9], &v[10], &v[11]);
            v[12]         = SE_GetObjectOdometer(id);
            v[13]         = SE_GetObjectAcceleration(id);
            std::string k = "K " + std::to_string(id);
            for (double d : v) tnum(k, d);
            k += "\n";
            tput(k.data(), k.size());
        }
        if (g_snap.find('c') != std::string::npos)  // collisions
        {
            std::string k  = "C " + std::to_string(id);
            int         nc = SE_GetObjectNumberOfCollisions(id);
            for (int c = 0; c < nc; c++) k += " " + std::to_string(SE_GetObjectCollision(id, c));
            k += "\n";
            tput(k.data(), k.size());
        }
        if (g_snap.find('m') != std::string::npos)  // meta
        {
            SE_OverrideActionList ov;
            memset(&ov, 0, sizeof(ov));
            SE_GetOverrideActionStatus(id, &ov);
            sim::trace("M %d %s %d %d %d %g %g %g %g %g %g %d %d %d %d", id, esc(SE_GetObjectName(id)).c_str(), s.objectType, s.objectCategory, s.ctrl_type,
                       (double)s.centerOffsetX, (double)s.centerOffsetY, (double)s.centerOffsetZ, (double)s.width, (double)s.length, (double)s.height, s.visibilityMask,
                       SE_GetObjectRouteStatus(id), SE_ObjectHasGhost(id), ov.throttle.active);
        }
        if (g_snap.find('l') != std::string::npos)  // lights
        {
            std::string k = "I " + std::to_string(id);
            for (int t = 0; t < 14; t++)
            {
                SE_LightState ls;
                memset(&ls, 0, sizeof(ls));
                int r = SE_GetObjectLightState(id, static_cast<SE_VehicleLightType>(t), &ls);
                k += " " + std::to_string(r) + ":" + std::to_string(ls.light_mode);
            }
            k += "\n";
            tput(k.data(), k.size());
        }
        if (g_snap.find('w') != std::string::npos)
        {
            int nw = SE_GetObjectNumberOfWheels(id);
            std::string k = "W " + std::to_string(id) + " " + std::to_string(nw);
            for (int w = 0; w < nw; w++)
            {
                SE_WheelData wd;
                memset(&wd, 0, sizeof(wd));
                SE_GetObjectWheelData(id, w, &wd);
                tnum(k, wd.x); tnum(k, wd.y); tnum(k, wd.z); tnum(k, wd.h); tnum(k, wd.p); tnum(k, wd.friction_coefficient);
            }
            k += "\n";
            tput(k.data(), k.size());
        }
        if (g_snap.find('g') != std::string::npos)  // where the reported road coordinates lie
        {
            roadmanager::Road* road = roadmanager::Position::GetOpenDrive()->GetRoadById(s.roadId);
            if (road)
            {
                roadmanager::Position a, b;
                a.SetTrackPos(s.roadId, s.s, s.t);
                b.SetLanePos(s.roadId, s.laneId, s.s, s.laneOffset);
                std::string k = "G " + std::to_string(id);
                for (double d : {road->GetLength(), a.GetX(), a.GetY(), b.GetX(), b.GetY(), (double)b.GetLaneId()}) tnum(k, d);
                k += "\n";
                tput(k.data(), k.size());
            }
        }
    }
    if (g_snap.find('s') != std::string::npos)
    {
        int ns = SE_GetNumberOfObjectSensors();
        for (int i = 0; i < ns; i++)
        {
            int         list[4096];
            int         k = SE_FetchSensorObjectList(i, list);
            std::string l = "S " + std::to_string(i) + " " + std::to_string(k);
            for (int j = 0; j < k && j < 4096; j++) l += " " + std::to_string(list[j]);
            l += "\n";
            tput(l.data(), l.size());
        }
    }
}

static void cb_state(const char* name, int type, int state, const char* path)
{
    sim::trace("E %d %d %s %s", type, state, esc(name).c_str(), esc(path).c_str());
}
static void cb_cond(const char* name, double ts)
{
    sim::trace("N %s %.17g", esc(name).c_str(), ts);
}
static void cb_obj(SE_ScenarioObjectState* s, void* d)
{
    sim::trace("B %d %.17g %.17g %.17g %.17g %ld", s->id, (double)s->timestamp, (double)s->x, (double)s->y, (double)s->speed, (long)(intptr_t)d);
}

static std::vector<std::pair<std::string, std::string>> g_param_cb;
static void cb_param(void*)
{
    for (auto& p : g_param_cb)
    {
        int r = SE_SetParameterString(p.first.c_str(), p.second.c_str());
        double dv;
        if (r != 0 && (dv = atof(p.second.c_str()), true)) r = SE_SetParameterDouble(p.first.c_str(), dv);
        sim::trace("X param %s %d", p.first.c_str(), r);
    }
}

struct Tok
{
    std::vector<std::string> t;
    size_t i = 1;
    std::string s() { return i < t.size() ? unesc(t[i++]) : std::string(); }
    std::string raw() { return i < t.size() ? t[i++] : std::string(); }
    int    n() { return i < t.size() ? static_cast<int>(strtol(t[i++].c_str(), nullptr, 10)) : 0; }
    int64_t ll() { return i < t.size() ? strtoll(t[i++].c_str(), nullptr, 10) : 0; }
    double d() { return i < t.size() ? strtod(t[i++].c_str(), nullptr) : 0.0; }
    bool more() { return i < t.size(); }
};

static std::map<std::string, std::string> g_blob;

static __attribute__((noinline)) void dirty_stack(int pat)
{
    volatile char b[65536];
    for (size_t i = 0; i < sizeof(b); i++) b[i] = static_cast<char>(pat);
}
static int g_stackpat = -1;

static int run_plan(const std::string& plan)
{
    std::istringstream in(plan);
    std::string        line;
    int                lineno = 0;
    bool               started = false;
    while (std::getline(in, line))
    {
        lineno++;
        if (line.empty() || line[0] == '#') continue;
        Tok t;
        {
            std::istringstream ls(line);
            std::string        w;
            while (ls >> w) t.t.push_back(w);
        }
        if (t.t.empty()) continue;
        const std::string& op = t.t[0];
        // ------------------------------------------------ configuration (before start)
        if (op == "sched")
        {
            std::string m = t.s();
            if (m == "random")
            {
                sim::cfg.sched_mode   = 1;
                sim::cfg.sched_seed   = static_cast<uint64_t>(t.ll());
                sim::cfg.preempt_mean = t.n();
            }
            else if (m == "list")
            {
                sim::cfg.sched_mode = 2;
                std::string l = t.raw();
                size_t p = 0;
                while (p < l.size())
                {
                    size_t c = l.find(':', p), e = l.find(',', p);
                    if (c == std::string::npos) break;
                    if (e == std::string::npos) e = l.size();
                    sim::cfg.sched_list.push_back({strtoull(l.substr(p, c - p).c_str(), nullptr, 10), atoi(l.substr(c + 1, e - c - 1).c_str())});
                    p = e + 1;
                }
            }
            else
                sim::cfg.sched_mode = 0;
            continue;
        }
        if (op == "nettrace") { sim::net_trace = t.n() != 0; continue; }
        if (op == "entropy") { sim::cfg.entropy = static_cast<uint32_t>(t.ll()); continue; }
        if (op == "tick") { sim::cfg.clock_tick_ns = t.ll(); continue; }
        if (op == "blob") { std::string k = t.s(); g_blob[k] = t.s(); continue; }
        if (op == "file")
        {
            std::string   name = t.s();
            std::string   data = t.s();
            for (size_t i = name.find('/'); i != std::string::npos && i > 0; i = name.find('/', i + 1)) mkdir(name.substr(0, i).c_str(), 0777);
            std::ofstream f(name, std::ios::binary);
            f << data;
            continue;
        }
        if (op == "perturb")
        {
            int v = t.n();
            mallopt(M_PERTURB, v);
            g_stackpat = v;
            int junk   = t.n();
            for (int i = 0; i < junk; i++)
            {
                void* p = malloc(static_cast<size_t>(17 + (i * 7919 + v * 104729) % 4096));
                if (i % 3) free(p);
            }
            continue;
        }
        if (op == "env") { std::string k = t.s(), v = t.s(); setenv(k.c_str(), v.c_str(), 1); continue; }
        if (op == "frule")
        {
            sim::FileRule r;
            r.kind  = t.s();
            r.match = t.s();
            r.at    = t.ll();
            r.n     = t.ll();
            r.once  = t.n() != 0;
            sim::file_rules.push_back(r);
            continue;
        }
        if (op == "fclear") { sim::file_rules.clear(); continue; }
        if (op == "srule")
        {
            sim::SysRule r;
            r.call = t.s();
            r.nth  = t.n();
            r.err  = t.n();
            sim::sys_rules.push_back(r);
            continue;
        }
        if (op == "sclear") { sim::sys_rules.clear(); continue; }
        if (!started)
        {
            sim::start();
            started = true;
        }
        if (g_stackpat >= 0) dirty_stack(g_stackpat);
        // ------------------------------------------------ apps
        if (op == "app")
        {
            std::string              which = t.s();
            std::vector<std::string> a;
            a.push_back(which);
            while (t.more()) a.push_back(t.s());
            std::vector<char*> av;
            for (auto& s : a) av.push_back(&s[0]);
            av.push_back(nullptr);
            int r = which == "dat2csv" ? dat2csv_main(static_cast<int>(a.size()), av.data()) : esmini_main(static_cast<int>(a.size()), av.data());
            fflush(stdout);
            sim::trace("R %d %d", lineno, r);
            continue;
        }
        if (op == "datdump")  // everything a recording holds, read forwards, backwards and in jumps
        {
            scenarioengine::Replay rp(t.s(), true);
            auto                   line = [&](int id, double tm) -> std::string
            {
                scenarioengine::ReplayEntry e = rp.GetReplayEntryAtTimeIncremental(id, tm);
                auto&                       n = e.state.info;
                auto&                       q = e.state.pos;
                if (!n.active) return "";
                char b[512];
                snprintf(b, sizeof(b), "Q %.17g %d %s %d %d %d %g %g %g %g %g %g %d", tm, id, esc(n.name.c_str()).c_str(), n.obj_type, n.obj_category, n.ctrl_type,
                         (double)n.boundingbox.center_.x_, (double)n.boundingbox.center_.y_, (double)n.boundingbox.center_.z_, (double)n.boundingbox.dimensions_.width_,
                         (double)n.boundingbox.dimensions_.length_, (double)n.boundingbox.dimensions_.height_, n.visibilityMask);
                std::string s = b;
                if (e.has_lightstate)
                    for (auto& l : n.light_state) s += " " + std::to_string(static_cast<int>(l.mode));
                snprintf(b, sizeof(b), " / %.17g %.17g %.17g %.17g %.17g %.17g %u %d %.17g %.17g %.17g %.17g %.17g %.17g", q.x, q.y, q.z, q.h, q.p, q.r, q.roadId, q.laneId, q.offset, q.t, q.s, n.speed,
                         n.wheel_angle, n.wheel_rot);
                return s + b;
            };
            std::map<std::pair<size_t, int>, std::string> all;
            size_t                                        nt = rp.timestamps_.size();
            for (size_t k = 0; k < nt; k++)
                for (auto& o : rp.objects_timeline_)
                {
                    std::string s = all[{k, o.first}] = line(o.first, rp.timestamps_[k]);
                    if (!s.empty()) sim::trace("%s", s.c_str());
                }
            for (size_t k = nt; k-- > 0;)
                for (auto& o : rp.objects_timeline_)
                    if (line(o.first, rp.timestamps_[k]) != all[{k, o.first}]) sim::trace("QX back %.17g %d", rp.timestamps_[k], o.first);
            for (size_t k = 0, j = 0; k < nt; k++, j = (j + 7919) % nt)
                for (auto& o : rp.objects_timeline_)
                    if (line(o.first, rp.timestamps_[j]) != all[{j, o.first}]) sim::trace("QX jump %.17g %d", rp.timestamps_[j], o.first);
            continue;
        }
        // ------------------------------------------------ session control
        if (op == "args")
        {
            std::vector<std::string> a;
            while (t.more())
            {
                std::string s = t.s();
                if (!s.empty() && s[0] == '@') s = g_blob[s.substr(1)];
                a.push_back(s);
            }
            std::vector<const char*> av;
            for (auto& s : a) av.push_back(s.c_str());
            int r = SE_InitWithArgs(static_cast<int>(av.size()), av.data());
            sim::trace("R %d %d", lineno, r);
            if (r == 0 && g_auto) snapshot();
        }
        else if (op == "initstr")
        {
            std::string b = g_blob[t.s()];
            int dc = t.n(), rec = t.n();
            int r = SE_InitWithString(b.c_str(), dc, 0, 0, rec);
            sim::trace("R %d %d", lineno, r);
            if (r == 0 && g_auto) snapshot();
        }
        else if (op == "init")
        {
            std::string f = t.s();
            int dc = t.n(), rec = t.n();
            int r = SE_Init(f.c_str(), dc, 0, 0, rec);
            sim::trace("R %d %d", lineno, r);
            if (r == 0 && g_auto) snapshot();
        }
        else if (op == "close") { SE_Close(); sim::trace("R %d 0", lineno); }
        else if (op == "seed") SE_SetSeed(static_cast<unsigned>(t.ll()));
        else if (op == "path") SE_AddPath(t.s().c_str());
        else if (op == "clearpaths") SE_ClearPaths();
        else if (op == "datpath") SE_SetDatFilePath(t.s().c_str());
        else if (op == "logpath") SE_SetLogFilePath(t.s().c_str());
        else if (op == "opt") { std::string k = t.s(); if (t.more()) SE_SetOptionValue(k.c_str(), t.s().c_str()); else SE_SetOption(k.c_str()); }
        else if (op == "popt") { std::string k = t.s(); if (t.more()) SE_SetOptionValuePersistent(k.c_str(), t.s().c_str()); else SE_SetOptionPersistent(k.c_str()); }
        else if (op == "unopt") SE_UnsetOption(t.s().c_str());
        else if (op == "getopt") { std::string k = t.s(); sim::trace("X opt %s %d %s", k.c_str(), SE_GetOptionSet(k.c_str()), esc(SE_GetOptionValue(k.c_str())).c_str()); }
        else if (op == "pdist") sim::trace("R %d %d", lineno, SE_SetParameterDistribution(t.s().c_str()));
        else if (op == "pdistreset") SE_ResetParameterDistribution();
        else if (op == "perm") sim::trace("R %d %d", lineno, SE_SelectPermutation(static_cast<unsigned>(t.n())));
        else if (op == "perminfo") sim::trace("X perm %u %d", SE_GetNumberOfPermutations(), SE_GetPermutationIndex());
        else if (op == "cb")
        {
            SE_RegisterStoryBoardElementStateChangeCallback(cb_state);
            SE_RegisterConditionCallback(cb_cond);
        }
        else if (op == "cbobj") { int id = t.n(); SE_RegisterObjectCallback(id, cb_obj, reinterpret_cast<void*>(static_cast<intptr_t>(t.n()))); }
        else if (op == "cbparam")
        {
            g_param_cb.clear();
            while (t.more()) { std::string k = t.s(); g_param_cb.push_back({k, t.s()}); }
            SE_RegisterParameterDeclarationCallback(cb_param, nullptr);
        }
        else if (op == "coldet") SE_CollisionDetection(t.n() != 0);
        else if (op == "snapmode") { g_snap = t.s(); g_auto = g_snap.find('n') == std::string::npos; }
        else if (op == "snap") snapshot();
        // ------------------------------------------------ stepping
        else if (op == "step")
        {
            int r = SE_StepDT(t.d());
            if (r != 0) sim::trace("R %d %d", lineno, r);
            if (g_auto) snapshot();
        }
        else if (op == "steps")
        {
            int    n  = t.n();
            double dt = t.d();
            for (int i = 0; i < n; i++)
            {
                int r = SE_StepDT(dt);
                if (r != 0) sim::trace("R %d %d", lineno, r);
                if (g_auto) snapshot();
            }
        }
        else if (op == "nap") { sim::cfg.nap_extra_ns = t.ll(); sim::cfg.nap_jump_ns = t.ll(); }
        else if (op == "clk") sim::trace("X clk %lld %lld", static_cast<long long>(sim::now()), static_cast<long long>(sim::wall()));
        else if (op == "dtclear") g_dts.clear();
        else if (op == "stepget")
        {
            double dt = SE_GetSimTimeStep();
            int    r  = SE_StepDT(dt);
            g_dts.push_back(dt);
            if (r != 0) sim::trace("R %d %d", lineno, r);
            if (g_auto) snapshot();
        }
        else if (op == "stepsame")
        {
            size_t i = static_cast<size_t>(t.n());
            int    r = i < g_dts.size() ? SE_StepDT(g_dts[i]) : -2;
            if (r != 0) sim::trace("R %d %d", lineno, r);
            if (g_auto) snapshot();
        }
        else if (op == "stepreal")
        {
            // the size of the step is one of the limits or an exact number of microseconds: find it from the simulation time
            static int64_t last = 0;
            double         t0   = SE_GetSimulationTime();
            int            r    = SE_Step();
            double         d    = SE_GetSimulationTime() - t0;
            double         dt   = d;
            int64_t        us   = sim::wall() / 1000;
            for (double c : {0.001, 0.1, static_cast<double>(us - last) * 1e-6})
                if (std::abs(c - d) < 1e-9) dt = c;
            last = us;
            g_dts.push_back(dt);
            if (r != 0) sim::trace("R %d %d", lineno, r);
            if (g_auto) snapshot();
        }
        else if (op == "simdt") sim::trace("X simdt %.17g", g_dts.empty() ? -1.0 : g_dts.back());
        // ------------------------------------------------ environment
        else if (op == "adv") sim::advance(t.ll());
        else if (op == "jump") sim::jump_clock(t.ll());
        else if (op == "wall") sim::set_wall(t.ll());
        else if (op == "yield") sim::yield_now(t.n());
        else if (op == "quiesce") sim::trace("X quiesce %d", sim::quiesce(t.ll()) ? 1 : 0);
        else if (op == "udp") { int p = t.n(); sim::udp_deliver(p, unhex(t.raw())); }
        else if (op == "udpat") { int64_t d = t.ll(); int p = t.n(); sim::udp_deliver_at(d, p, unhex(t.raw())); }
        else if (op == "netinfo") { int p = t.n(); sim::trace("X net %d %d %zu %d %d", p, sim::udp_bound(p), sim::udp_pending(p), sim::open_sockets(), sim::live_threads()); }
        // ------------------------------------------------ objects
        else if (op == "add")
        {
            std::string name = t.s();
            int type = t.n(), cat = t.n(), role = t.n(), model = t.n();
            sim::trace("R %d %d", lineno, SE_AddObject(name.c_str(), type, cat, role, model, nullptr));
        }
        else if (op == "addbb")
        {
            std::string name = t.s();
            int type = t.n(), cat = t.n(), role = t.n();
            SE_OSCBoundingBox bb;
            bb.center_.x_ = t.d(); bb.center_.y_ = t.d(); bb.center_.z_ = t.d();
            bb.dimensions_.width_ = t.d(); bb.dimensions_.length_ = t.d(); bb.dimensions_.height_ = t.d();
            sim::trace("R %d %d", lineno, SE_AddObjectWithBoundingBox(name.c_str(), type, cat, role, -1, nullptr, bb, 0));
        }
        else if (op == "del") sim::trace("R %d %d", lineno, SE_DeleteObject(t.n()));
        else if (op == "rpos") { int id = t.n(); double v[6]; for (double& x : v) x = t.d(); sim::trace("R %d %d", lineno, SE_ReportObjectPos(id, v[0], v[1], v[2], v[3], v[4], v[5])); }
        else if (op == "rposm") { int id = t.n(); double v[6]; for (double& x : v) x = t.d(); int m = t.n(); sim::trace("R %d %d", lineno, SE_ReportObjectPosMode(id, v[0], v[1], v[2], v[3], v[4], v[5], m)); }
        else if (op == "rxyh") { int id = t.n(); double x = t.d(), y = t.d(), h = t.d(); sim::trace("R %d %d", lineno, SE_ReportObjectPosXYH(id, x, y, h)); }
        else if (op == "rroad") { int id = t.n(); int rd = t.n(), ln = t.n(); double off = t.d(), s = t.d(); sim::trace("R %d %d", lineno, SE_ReportObjectRoadPos(id, static_cast<unsigned>(rd), ln, off, s)); }
        else if (op == "rspeed") { int id = t.n(); sim::trace("R %d %d", lineno, SE_ReportObjectSpeed(id, t.d())); }
        else if (op == "rlat") { int id = t.n(); sim::trace("R %d %d", lineno, SE_ReportObjectLateralPosition(id, t.d())); }
        else if (op == "rlatlane") { int id = t.n(); int l = t.n(); sim::trace("R %d %d", lineno, SE_ReportObjectLateralLanePosition(id, l, t.d())); }
        else if (op == "rvel") { int id = t.n(); double a = t.d(), b = t.d(), c = t.d(); sim::trace("R %d %d", lineno, SE_ReportObjectVel(id, a, b, c)); }
        else if (op == "racc") { int id = t.n(); double a = t.d(), b = t.d(), c = t.d(); sim::trace("R %d %d", lineno, SE_ReportObjectAcc(id, a, b, c)); }
        else if (op == "ravel") { int id = t.n(); double a = t.d(), b = t.d(), c = t.d(); sim::trace("R %d %d", lineno, SE_ReportObjectAngularVel(id, a, b, c)); }
        else if (op == "raacc") { int id = t.n(); double a = t.d(), b = t.d(), c = t.d(); sim::trace("R %d %d", lineno, SE_ReportObjectAngularAcc(id, a, b, c)); }
        else if (op == "rwheel") { int id = t.n(); double a = t.d(), b = t.d(); sim::trace("R %d %d", lineno, SE_ReportObjectWheelStatus(id, a, b)); }
        else if (op == "snaplane") { int id = t.n(); sim::trace("R %d %d", lineno, SE_SetSnapLaneTypes(id, t.n())); }
        else if (op == "lockonlane") { int id = t.n(); sim::trace("R %d %d", lineno, SE_SetLockOnLane(id, t.n() != 0)); }
        else if (op == "objinfo")
        {
            int                    id = t.n();
            SE_ScenarioObjectState s;
            memset(&s, 0, sizeof(s));
            int r = SE_GetObjectState(id, &s);
            sim::trace("X obj %d %d %s %d", id, r, esc(SE_GetObjectName(id)).c_str(), r == 0 ? s.id : -1);
        }
        else if (op == "idbyname") { std::string n = t.s(); sim::trace("X idbyname %s %d", esc(n.c_str()).c_str(), SE_GetIdByName(n.c_str())); }
        else if (op == "dist") { int a = t.n(), b = t.n(); int fs = t.n(); SE_PositionDiff d; memset(&d, 0, sizeof(d)); int r = SE_GetDistanceToObject(a, b, fs != 0, &d); sim::trace("X dist %d %d %d %.17g %.17g %d %.17g %.17g %d", a, b, r, d.ds, d.dt, d.dLaneId, d.dx, d.dy, d.oppositeLanes); }
        else if (op == "sdist") { int a = t.n(), b = t.n(); int ty = t.n(); double tl = t.d(); double d = 0, ts = 0; int r = SE_SimpleGetDistanceToObject(a, b, static_cast<SE_RelativeDistanceType>(ty), tl, &d, &ts); sim::trace("X sdist %d %d %d %.17g %.17g", a, b, r, d, ts); }
        else if (op == "roadinfo")
        {
            int id = t.n(); double d = t.d(); int m = t.n();
            SE_RoadInfo ri; memset(&ri, 0, sizeof(ri));
            int r = SE_GetRoadInfoAtDistance(id, d, &ri, m, true);
            sim::trace("X roadinfo %d %d %.17g %.17g %d %d %.17g %.17g", id, r, ri.global_pos_x, ri.global_pos_y, (int)ri.roadId, ri.laneId, ri.s, ri.t);
        }
        else if (op == "ghostinfo")
        {
            int id = t.n(); double d = t.d();
            SE_RoadInfo ri; memset(&ri, 0, sizeof(ri)); double sp = 0, ts = 0;
            int r = SE_GetRoadInfoAlongGhostTrail(id, d, &ri, &sp, &ts);
            sim::trace("X ghostinfo %d %d %.17g %.17g %.17g %.17g", id, r, ri.global_pos_x, ri.global_pos_y, sp, ts);
        }
        else if (op == "sensor")
        {
            int id = t.n(); double v[7]; for (double& x : v) x = t.d(); int mx = t.n();
            sim::trace("R %d %d", lineno, SE_AddObjectSensor(id, v[0], v[1], v[2], v[3], v[4], v[5], v[6], mx));
        }
        // ------------------------------------------------ injected actions
        else if (op == "ispeed") { SE_SpeedActionStruct a; memset(&a, 0, sizeof(a)); a.id = t.n(); a.speed = t.d(); a.transition_shape = t.n(); a.transition_dim = t.n(); a.transition_value = t.d(); SE_InjectSpeedAction(&a); }
        else if (op == "ilane") { SE_LaneChangeActionStruct a; memset(&a, 0, sizeof(a)); a.id = t.n(); a.mode = t.n(); a.target = t.n(); a.transition_shape = t.n(); a.transition_dim = t.n(); a.transition_value = t.d(); SE_InjectLaneChangeAction(&a); }
        else if (op == "ioff") { SE_LaneOffsetActionStruct a; memset(&a, 0, sizeof(a)); a.id = t.n(); a.offset = t.d(); a.maxLateralAcc = t.d(); a.transition_shape = t.n(); SE_InjectLaneOffsetAction(&a); }
        else if (op == "iongoing") { int ty = t.n(); sim::trace("X ongoing %d %d", ty, SE_InjectedActionOngoing(ty) ? 1 : 0); }
        // ------------------------------------------------ parameters and variables
        else if (op == "svar")
        {
            std::string ty = t.s(), n = t.s(), v = t.s();
            int r = ty == "d" ? SE_SetVariableDouble(n.c_str(), strtod(v.c_str(), nullptr)) : ty == "i" ? SE_SetVariableInt(n.c_str(), atoi(v.c_str())) : ty == "b" ? SE_SetVariableBool(n.c_str(), v == "true") : SE_SetVariableString(n.c_str(), v.c_str());
            sim::trace("R %d %d", lineno, r);
        }
        else if (op == "spar")
        {
            std::string ty = t.s(), n = t.s(), v = t.s();
            int r = ty == "d" ? SE_SetParameterDouble(n.c_str(), strtod(v.c_str(), nullptr)) : ty == "i" ? SE_SetParameterInt(n.c_str(), atoi(v.c_str())) : ty == "b" ? SE_SetParameterBool(n.c_str(), v == "true") : SE_SetParameterString(n.c_str(), v.c_str());
            sim::trace("R %d %d", lineno, r);
        }
        else if (op == "gvar" || op == "gpar")
        {
            std::string ty = t.s(), n = t.s();
            bool        v  = op == "gvar";
            if (ty == "d") { double x = 0; int r = v ? SE_GetVariableDouble(n.c_str(), &x) : SE_GetParameterDouble(n.c_str(), &x); sim::trace("X %s %s %d %.17g", op.c_str(), n.c_str(), r, x); }
            else if (ty == "i") { int x = 0; int r = v ? SE_GetVariableInt(n.c_str(), &x) : SE_GetParameterInt(n.c_str(), &x); sim::trace("X %s %s %d %d", op.c_str(), n.c_str(), r, x); }
            else if (ty == "b") { bool x = false; int r = v ? SE_GetVariableBool(n.c_str(), &x) : SE_GetParameterBool(n.c_str(), &x); sim::trace("X %s %s %d %d", op.c_str(), n.c_str(), r, x); }
            else { const char* x = nullptr; int r = v ? SE_GetVariableString(n.c_str(), &x) : SE_GetParameterString(n.c_str(), &x); sim::trace("X %s %s %d %s", op.c_str(), n.c_str(), r, r == 0 ? esc(x).c_str() : "-"); }
        }
        else if (op == "nvars") sim::trace("X nvars %d %d", SE_GetNumberOfVariables(), SE_GetNumberOfParameters());
        else if (op == "mark") sim::trace("Z %s", t.raw().c_str());
        else if (op == "cat")  // include a file's content in the trace
        {
            std::string   n = t.s();
            std::ifstream f(n, std::ios::binary);
            std::stringstream ss;
            ss << f.rdbuf();
            std::string d = ss.str();
            sim::trace("F %s %zu", esc(n.c_str()).c_str(), d.size());
            tput(d.data(), d.size());
            tput("\n", 1);
        }
        else
        {
            sim::trace("!BADOP %d %s", lineno, op.c_str());
            return 90;
        }
    }
    sim::trace("P %s", sim::probes_str().c_str());
    sim::trace("D %llu %llx %d", static_cast<unsigned long long>(sim::decisions()), static_cast<unsigned long long>(sim::sched_hash()), sim::live_threads());
    std::string s = sim::schedule_str();
    if (!s.empty() && s.size() < 4000000)
    {
        tput("L ", 2);
        tput(s.data(), s.size());
        tput("\n", 1);
    }
    sim::trace("END");
    return 0;
}

static double realtime()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

static bool rd(int fd, char* b, size_t n)
{
    while (n > 0)
    {
        ssize_t k = syscall(SYS_read, fd, b, n);
        if (k <= 0) return false;
        b += k;
        n -= static_cast<size_t>(k);
    }
    return true;
}
static void wr(int fd, const char* b, size_t n)
{
    while (n > 0)
    {
        ssize_t k = syscall(SYS_write, fd, b, n);
        if (k <= 0) _exit(95);
        b += k;
        n -= static_cast<size_t>(k);
    }
}

// protocol: 12 ascii digits plan length, 8 ascii digits timeout ms, 4 ascii digits directory length, directory, plan
static int serve()
{
    void* m = mmap(nullptr, kCap + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return 1;
    g_len = static_cast<volatile size_t*>(m);
    g_buf = static_cast<char*>(m) + 4096;
    for (;;)
    {
        char h[25] = {0};
        if (!rd(0, h, 24)) return 0;
        size_t plen = strtoull(std::string(h, 12).c_str(), nullptr, 10);
        int    tmo  = atoi(std::string(h + 12, 8).c_str());
        size_t dlen = strtoull(std::string(h + 20, 4).c_str(), nullptr, 10);
        // the request is kept out of the heap, so that the heap a child starts with never depends on earlier requests
        size_t mlen = dlen + plen + 2;
        char*  rq   = static_cast<char*>(mmap(nullptr, mlen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        char*  dir  = rq;
        char*  plan = rq + dlen + 1;
        if (!rd(0, dir, dlen) || !rd(0, plan, plen)) return 0;
        *g_len    = 0;
        pid_t pid = getenv("SIMH_NOFORK") ? 0 : fork();     // without fork: for debuggers
        if (pid == 0)
        {
            if (chdir(dir) != 0) _exit(94);
            int fd = open("stdout.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(fd, 1);
            fd = open("stderr.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(fd, 2);
            fd = open("/dev/null", O_RDONLY);
            dup2(fd, 0);
#ifndef __SANITIZE_ADDRESS__
            struct rlimit rl = {2500u << 20, 2500u << 20};
            setrlimit(RLIMIT_AS, &rl);
#endif
            int r = run_plan(std::string(plan, plen));
            fflush(stdout);
            _exit(r);
        }
        munmap(rq, mlen);
        int    st = 0;
        double t0 = realtime();
        bool   hang = false;
        useconds_t nap = 50;
        for (;;)
        {
            pid_t k = waitpid(pid, &st, WNOHANG);
            if (k == pid) break;
            if (realtime() - t0 > tmo / 1000.0)
            {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                hang = true;
                break;
            }
            struct timespec ts = {0, static_cast<long>(nap) * 1000};
            syscall(SYS_nanosleep, &ts, nullptr);
            if (nap < 1000) nap += 50;
        }
        int  kind = hang ? 2 : WIFSIGNALED(st) ? 1 : 0;
        int  code = hang ? 0 : WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st);
        char o[40];
        snprintf(o, sizeof(o), "%1d%04d%012zu", kind, code, static_cast<size_t>(*g_len));
        wr(1, o, 17);
        wr(1, g_buf, *g_len);
    }
}

int main(int argc, char** argv)
{
    (void)argc;
    // same address space layout in every process
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIMH_REEXEC"))
    {
        personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE);
        setenv("SIMH_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    return serve();
}
