prop('C01', 'A run is repeatable whatever the environment is like',
     'Given the same scenario, random seed, options and sequence of host calls, every run reports bit-identical object states, storyboard and condition history, and writes an identical recording. '
     'Wall-clock time and clock jumps, pauses between calls, device entropy, and the previous content and layout of memory have no influence.',
     ['inputs', 'configurations', 'histories'], 'for every scenario, call sequence and pair of environments (clock, entropy, memory)',
     'Existing tests run a scenario once in one environment and compare with fixed numbers; they cannot compare two environments.',
     [SE + 'ScenarioEngine.cpp', SE + 'Entities.cpp', PB + 'playerbase.cpp', M + 'CommonMini/CommonMini.cpp', SE + 'Entities.hpp'],
     [('one seeded generator owned by the environment object', M + 'CommonMini/CommonMini.cpp SE_Rand / SetSeed'), ('simulation time advanced only by the requested step', SE + 'ScenarioEngine.cpp step')],
     'Same plan executed in two simulated environments (clock origin, tick and jumps, entropy stream, heap and stack fill, heap layout) and compared bit by bit, for all bundled scenarios and generated ones. Sampling, not proof.',
     ['object state, velocity, sensor, collision and light getters after every step', 'storyboard and condition callbacks', 'bytes of the recording'])

prop('C02', 'A session behaves as in a fresh process, whatever ran before it',
     'A scenario loaded through the library gives the same sequence of states, callbacks, return values, collisions and sensor hits as when it is loaded first in a new process, whatever sessions were run before in the same process: with other scenarios, roads, options, callbacks, parameters, real-time or fixed steps, closed or replaced without close, or refused because files were missing, cut or wrong. Only what is documented to persist (persistent options, the parameter callback until close) does. No such sequence leads to access of freed memory.',
     ['inputs', 'histories', 'faults'], 'for every history of sessions before the observed one',
     'State left behind in statics and singletons shows only for a certain pair of sessions; tests run one scenario per case and compare with constants measured in the same order.',
     [LIB, PB + 'playerbase.cpp', SE + 'StoryboardElement.cpp', SE + 'ScenarioEngine.cpp', SE + 'Parameters.cpp'],
     [('session life cycle', LIB + ' SE_Init, SE_Close, resetScenario'), ('player', PB + 'playerbase.cpp ScenarioPlayer'), ('readers and trigger registry', SE + 'ScenarioReader.cpp, StoryboardElement.cpp'), ('settings shared in the process', M + 'CommonMini/CommonMini.cpp SE_Env')],
     'Two processes run the last session, one of them after 1 to 3 generated earlier sessions with injected file faults, under AddressSanitizer; the traces must be identical. The simulated wall clock, entropy and files are the same for both.',
     ['the whole trace of the last session', 'sanitizer reports'])

prop('C03', 'A finished recording reproduces the simulated states',
     'Reading back the recording of a finished run yields, for every simulated step that changed anything, a sample at that simulation time in which every object that existed has the name, type, dimensions, visibility, light modes, pose, speed, road position and wheel state the host could read after that step, and no object that did not exist. Reading forwards, backwards or jumping in time gives the same. '
     'Samples the reader fills in between show the state in force at that time, and no sample lies outside the simulated time span.',
     ['inputs', 'histories'], 'for every scenario and sequence of steps of varying size, object additions, deletions and external reports',
     'Unit tests compare a few recordings with fixed step size against stored numbers; compression and gap filling depend on the whole history of step sizes and changes.',
     [SE + 'PacketHandler.cpp', SE + 'PacketHandler.hpp', E + 'Applications/replayer/Replay.cpp', E + 'Applications/replayer/Replay.hpp', E + 'Applications/replayer/dat2csv.cpp', PB + 'playerbase.cpp'],
     [('change-driven packets with a per-object cache', SE + 'PacketHandler.cpp DatWriter::WriteObjectStatesToDat'), ('timeline reconstruction', E + 'Applications/replayer/Replay.cpp')],
     'Recordings of simulated runs are converted by the real converter and compared row by row with the states read through the API. Tolerance 2e-6 (the writer suppresses changes below 1e-6).',
     ['dat2csv output'])

prop('C04', 'A recording that was cut short reads back as an exact prefix of the run',
     'A recording (.dat) which ends early, at any byte, because the process died, the disk was full or the write failed, can still be read: the reader ends normally, and what it delivers equals the states of the run up to the last completely stored step. Nothing invented, mixed or torn is delivered and no completely stored step is lost.',
     ['inputs', 'crash points', 'histories'], 'for every run and every point at which its recording is cut or its writing fails',
     'Tests read complete recordings. Where a file is cut relative to packets, objects and steps gives thousands of different tails per run, and write failures hit inside buffered stream writes.',
     [SE + 'PacketHandler.cpp', SE + 'PacketHandler.hpp', E + 'Applications/replayer/Replay.cpp', E + 'Applications/replayer/Replay.hpp'],
     [('reading packets', SE + 'PacketHandler.cpp DatReader::ReadFile'), ('time slices', E + 'Applications/replayer/Replay.cpp ExtractPacketsAsSlices, ParsePackets'), ('writing', SE + 'PacketHandler.cpp DatWriter')],
     'The states the host saw are the oracle; the harness finds the last complete step by walking the packet headers of the cut file. A cut before the first step of known length only has to be survived.',
     ['dat2csv output for cut recordings', 'object states during the run', 'sanitizer reports'])

prop('C05', 'Failing output files never disturb the simulation',
     'When writing the recording, the csv log or the text log fails (disk full, I/O error, short or interrupted write, file that cannot be opened) at any point of a run, the simulated states, callbacks, events and return values are the same as without the failure, other output files are complete and unchanged, the process does not end, and sessions run afterwards are not affected. The only exception is that a csv log that cannot be opened may refuse the scenario with an error.',
     ['inputs', 'faults', 'histories'], 'for every point at which an output operation fails',
     'The point of failure is arbitrary and tests never let a write fail.',
     [SE + 'PacketHandler.cpp', M + 'CommonMini/logger.cpp', M + 'CommonMini/CommonMini.cpp', PB + 'playerbase.cpp'],
     [('recording', SE + 'PacketHandler.cpp'), ('log', M + 'CommonMini/logger.cpp'), ('csv log', M + 'CommonMini/CommonMini.cpp CSV_Logger')],
     'The same plan is run with and without the faults, in a simulated file system that injects them.',
     ['trace', 'content of the files that did not fail'])

prop('C06', 'UDP-driven vehicles follow exactly the messages that arrived',
     'A vehicle under UDP driver control shows, after each step, the state given by the newest complete and valid message consumed so far (one vehicle per object id and port): position, orientation, speed and wheel angle as sent in the state modes, dead reckoned from the last message while none arrives if so requested, otherwise unchanged. '
     'Lost, duplicated, delayed, reordered, truncated, unknown-version, unknown-mode or foreign-id datagrams and receive errors never produce any other state, never stall the simulation beyond the configured time-out, and never affect other vehicles.',
     ['inputs', 'histories', 'faults'], 'for every sequence of datagrams and every loss, duplication, delay, reordering, truncation and receive error',
     'No test sends datagrams with losses; the result depends on the whole message history.',
     [M + 'Controllers/ControllerUDPDriver.cpp', M + 'Controllers/ControllerUDPDriver.hpp', M + 'CommonMini/UDP.cpp'],
     [('message consumption and dead reckoning', M + 'Controllers/ControllerUDPDriver.cpp Step'), ('UDP receive with time-out', M + 'CommonMini/UDP.cpp UDPServer::Receive')],
     'Reference model of the documented message semantics fed with the datagrams the simulated network delivered; states compared after every step. The internal speed of the driver-input mode vehicle model after a state message is not specified.',
     ['object state getters after every step'])

prop('C07', 'Injected actions take effect exactly once and the newest wins',
     'Each complete speed, lane change or lane offset command for an existing object, received by the remote action server or injected through the API, is executed once: it replaces a command of the same kind for the same object that is pending or ongoing, affects no other object and no other kind, and the object ends up at the commanded speed, lane or lane offset, after which no injected action is reported as ongoing. '
     'Incomplete, unknown or foreign-object datagrams and receive errors have no effect.',
     ['inputs', 'schedules', 'histories', 'faults'], 'for every sequence of commands, every interleaving of the server thread with the stepping thread, and every loss, duplication or truncation of datagrams',
     'Tests inject a handful of commands through the API on one thread.',
     [PB + 'PlayerServer.cpp', PB + 'PlayerServer.hpp', SE + 'ScenarioEngine.cpp', PB + 'playerbase.cpp'],
     [('action list shared by server thread and engine', PB + 'PlayerServer.cpp AddAction / Step'), ('stepping of injected actions', SE + 'ScenarioEngine.cpp step')],
     'Seeded thread schedules (preemption at every lock, unlock, socket and system call), simulated UDP, reference model of the newest command per object and kind. Scenarios without competing storyboard actions; speeds high enough for lane changes to finish.',
     ['object states at the end of each phase', 'storyboard element callbacks', 'SE_InjectedActionOngoing'])

prop('C08', 'Remote play, pause, step and quit act once and at frame borders',
     'Every received remote step command simulates exactly one step, of the requested size if given, and leaves the player paused; while the player is paused local step calls simulate nothing; while it is playing each local step call simulates exactly one step. Time advances by exactly the sizes of the simulated steps, every vehicle moves by speed times step size in each of them, and each is logged once. Pause and quit flags reflect the last command received. '
     'Incomplete or unknown datagrams have no effect.',
     ['schedules', 'histories', 'faults'], 'for every sequence of commands and local step calls and every interleaving of server thread and stepping thread',
     'No test runs the server thread concurrently with stepping; the outcome depends on the interleaving.',
     [PB + 'PlayerServer.cpp', PB + 'playerbase.cpp', PB + 'playerbase.hpp'],
     [('frame execution by two threads', PB + 'playerbase.cpp Frame'), ('command dispatch', PB + 'PlayerServer.cpp ServerThread')],
     'Seeded thread schedules, simulated UDP; object callback gives the time and position of every simulated step on whichever thread; exact counts between quiescent points, bounds where a command races with a local call.',
     ['object callback', 'pause and quit flags', 'csv log rows'])

prop('C09', 'Network servers start, stop and fail without harming the simulation',
     'With the remote action server or the ego state server enabled, every session starts, steps and closes normally and in bounded time, in every interleaving, also if the port cannot be opened, if the session is closed at once, if sessions follow each other, if there are no objects, or if malformed datagrams or commands for unknown objects arrive. After closing, no server thread and no socket remain. '
     'A complete received ego state is what object 0 continues from; an incomplete one changes nothing.',
     ['schedules', 'faults', 'histories'], 'for every interleaving of server threads with session start, stepping and shutdown, and every socket failure',
     'Start-up and shut-down races and failing ports do not occur in the tests.',
     [SE + 'Server.cpp', PB + 'PlayerServer.cpp', M + 'CommonMini/UDP.cpp', PB + 'playerbase.cpp'],
     [('server thread life cycle', SE + 'Server.cpp StartServer / StopServer'), ('server thread life cycle', PB + 'PlayerServer.cpp Start / Stop')],
     'Seeded thread schedules over one to three sessions in one process, failing socket and bind calls, malformed datagrams; a watchdog on simulated steps reports hangs.',
     ['return codes', 'socket and thread counts after close', 'object states'])

prop('C10', 'Storyboard elements start, run and end as prescribed',
     'In every step, exactly those stories, acts, maneuver groups, maneuvers, events and actions change state that the scenario prescribes: an element starts when its parent runs and its start trigger is true, is stopped with all its content when its stop trigger is true, '
     'and ends when its content has ended; events respect priority (override, skip, parallel) and maximum execution count, an action is ended by a newer action for the same object and control domain and by nothing else, speed changes over time take exactly the requested time. '
     'A trigger is true if all conditions of any of its groups are true, considering edge and delay, over simulation time, variables, parameters and storyboard element states; each condition becoming true is reported once with its time. Stopping the storyboard ends the simulation.',
     ['inputs', 'histories'], 'for every storyboard, sequence of step sizes and sequence of variable and parameter changes by the host',
     'Tests follow a few fixed scenarios with one step size; the order of triggers, priorities, execution counts, edges and delays combine without bound.',
     [SE + 'StoryboardElement.cpp', SE + 'Storyboard.cpp', SE + 'ScenarioEngine.cpp', M + 'ScenarioEngine/OSCTypeDefs/OSCCondition.cpp', M + 'ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp', SE + 'ScenarioReader.cpp'],
     [('element state machine', SE + 'StoryboardElement.cpp'), ('event priorities and domain conflicts', SE + 'Storyboard.cpp Event::Start'), ('condition edge and delay', M + 'ScenarioEngine/OSCTypeDefs/OSCCondition.cpp')],
     'Executable reference model of the storyboard stepped in lockstep with the real engine on generated storyboards; per step and element the sequence of states, condition callbacks, simulation time, quit flag and final values are compared. Order between different elements within one step is not judged; entity conditions are in C11. A storyboard stopped at time 0 is not covered.',
     ['storyboard element and condition callbacks', 'variable and parameter getters', 'simulation time and quit flag'])

prop('C11', 'Entity conditions hold exactly when the entity states fulfil them',
     'In every step, a condition on entities is true exactly if, in the state from which the step starts, any respectively all of its triggering entities that still exist fulfil it: speed and relative speed (total or per direction), acceleration, angle, reached position, travelled distance, distance to a position or to another entity '
     '(longitudinal, lateral or euclidean, in entity or road coordinates, between reference points or free space between bounding boxes including trailers), time headway, time to collision, collision with an entity or a type of entity, relative clearance, and stand still, off road and end of road for the required duration. '
     'Undefined headway or time to collision does not fulfil a condition, deleted entities are ignored, and one entity never influences the verdict on another.',
     ['inputs', 'histories'], 'for every set of entities, bounding boxes, conditions and history of reported motion, step sizes and deletions',
     'Tests probe single conditions with one or two entities at chosen moments; thresholds are crossed at arbitrary times, durations span histories, and the verdict depends on the combination of entities and rules.',
     [M + 'ScenarioEngine/OSCTypeDefs/OSCCondition.cpp', SE + 'Entities.cpp', SE + 'ScenarioEngine.cpp', SE + 'ScenarioReader.cpp'],
     [('evaluation per entity and rule', M + 'ScenarioEngine/OSCTypeDefs/OSCCondition.cpp TrigBy*::CheckCondition'), ('distances and collisions', SE + 'Entities.cpp'), ('stand still, off road, end of road clocks', SE + 'ScenarioEngine.cpp step')],
     'Each condition drives an event of its own; in every step the event runs exactly if an independent reference (own geometry, own clocks) finds the condition fulfilled in the reported object states. Flat straight road, so that road and Cartesian coordinates can be computed independently. Cases within 1e-5 of a threshold, time to collision of objects moving across the road, clearance for oncoming lanes and positions relative to objects off the road are not judged.',
     ['storyboard element callbacks', 'object states before and after each step'])

prop('C12', 'Vehicles follow exactly the course their motion actions prescribe',
     'Speed actions (absolute, or relative to another vehicle, once or continuously), speed profiles (position mode, with and without given times), lane change, lane offset (absolute or relative), teleport and longitudinal distance actions move their vehicle along the prescribed course, for all transition shapes (linear, sinusoidal, cubic, step) and dimensions (time, rate, distance): the value follows the shape from its value at the start to the target, within the maximum speed, acceleration and deceleration of the vehicle or of the action, '
     'reaches the target and the action completes when, and only when, it is reached or a newer action of the same domain replaces it. An action that is executed again does the same from where it then starts. Actions of the other domain and other vehicles are not disturbed, a vehicle without an action keeps its speed, lane and offset, and per step it travels speed times elapsed time.',
     ['inputs', 'histories'], 'for every combination of motion actions, start times, vehicles and step sizes',
     'Tests follow single actions with fixed steps at a few sample times; courses depend on the start state, on the interplay of longitudinal and lateral actions, on replacement in the middle of a transition and on the step pattern.',
     [M + 'ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp', SE + 'ScenarioEngine.cpp', SE + 'Entities.cpp'],
     [('transition dynamics', M + 'ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp TransitionDynamics'), ('action steps', M + 'ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp *Action::Step'), ('default motion', SE + 'ScenarioEngine.cpp defaultController')],
     'Lockstep reference model of the vehicles on a straight road: position along and across the road, speed and heading are compared after every step and action ends must coincide. Lateral actions on a standing vehicle and unconstrained longitudinal distance actions are not judged.',
     ['object states after each step', 'storyboard element callbacks'])

prop('C13', 'Reported velocity, acceleration, rates and odometer match the motion',
     'For every object and step, reported velocity is the change of position, acceleration the change of velocity, yaw rate the change of heading and yaw acceleration the change of yaw rate, each divided by the elapsed time; the odometer grows by the distance moved and the wheels of a vehicle turn by speed times elapsed time over the wheel radius. This holds whatever moves the object: default motion, any action, a controller or position reports of the host, on straight, curved and sloped roads, for any sequence of step lengths. In a step in which an object is teleported or added, the relocation does not count as motion: its velocity is its speed along its heading and the odometer stays.',
     ['inputs', 'histories'], 'for every scenario, host call sequence and step pattern',
     'Tests look at a few values for fixed step lengths; wrong bookkeeping of previous states shows only for certain sequences of step lengths, reports, actions and objects coming and going.',
     [SE + 'ScenarioEngine.cpp', SE + 'Entities.cpp', M + 'PlayerBase/playerbase.cpp'],
     [('state derivation', SE + 'ScenarioEngine.cpp prepareGroundTruth'), ('previous state', SE + 'Entities.hpp Object::state_old'), ('dirty bits', SE + 'Entities.hpp Object::DirtyBit')],
     'Purely relational oracle over consecutive reported states. Runs without added objects, teleports and reported velocities are judged in every step.',
     ['object states and kinematics through the library API after each step'])

prop('C15', 'States reported by the host take effect exactly, on the object and step meant',
     'A host reporting states of an object (position in world or road coordinates, lateral or lane position, speed, velocity, acceleration, angular velocity and acceleration, wheel angle and rotation) sees exactly these values after the next step, whatever the order of reports; components it did not report are derived from the motion, later reports override earlier ones, other objects are not affected, and reports do not outlast the step. Objects added by the host stay where it puts them; scenario vehicles move on by themselves in the directions not reported. Reports on ids that do not exist are rejected without effect.',
     ['inputs', 'histories'], 'for every sequence of reports, objects, additions, removals and steps',
     'Tests report one kind of value on one object. Interplay of several reports on several objects in one step, and with steps without reports, is a history property.',
     [LIB, SE + 'ScenarioEngine.cpp', SE + 'Entities.cpp', M + 'Controllers/ControllerExternal.cpp'],
     [('report functions', LIB + ' SE_ReportObject*'), ('dirty bits', SE + 'ScenarioEngine.cpp step, prepareGroundTruth'), ('external control', M + 'Controllers/ControllerExternal.cpp')],
     'Reference model per object on a straight flat road. Attitude after road coordinate reports and headings after such are not judged.',
     ['return values of the report functions', 'object states and kinematics after each step'])

prop('C16', 'Objects keep identity while others come and go; stale ids are harmless',
     'While objects are added and removed by the host and by the scenario in any order, every object keeps its id and name, ids are never given twice, the set of objects equals exactly those added and not removed, lookups by id and name agree with it, and lists of collisions and sensor detections contain only existing objects. Calls with ids that do not (or no longer) exist are rejected. No sequence, including removal of objects which conditions, actions, controllers, sensors and callbacks refer to, leads to a crash or to access of freed memory.',
     ['inputs', 'histories'], 'for every sequence of additions, removals, queries, injected actions, sensors and steps',
     'Dangling references depend on which of many holders still refers to the object, and on what happens in the steps after its removal; tests remove an unreferenced object.',
     [SE + 'Entities.cpp', LIB, SE + 'ScenarioEngine.cpp', M + 'ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp', SE + 'IdealSensor.cpp'],
     [('object lists', SE + 'Entities.cpp Entities'), ('host interface', LIB + ' SE_AddObject, SE_DeleteObject'), ('add and delete entity actions', M + 'ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp'), ('sensors', SE + 'IdealSensor.cpp'), ('collision lists', SE + 'ScenarioEngine.cpp DetectCollisions')],
     'Runs under AddressSanitizer against a model of the object set. Objects deleted by the scenario keep a reserved id, calls on those are not judged.',
     ['return values', 'enumerated objects, collisions and sensor hits after each step', 'sanitizer reports'])

prop('C14', 'Real-time stepping follows the clock within its limits, whatever the clock does',
     'Stepping in real time (SE_Step, SE_GetSimTimeStep) advances simulation time by the wall time passed since the previous step, never less than the lower and never more than the upper limit of the step size, also when the host stalls, calls early, sleeps longer than asked for, or the system clock is set forward or back; it never blocks longer than the lower limit. A run with these step sizes passed explicitly gives exactly the same states, events and callbacks.',
     ['inputs', 'schedules', 'faults'], 'for every sequence of host delays, over-long sleeps and clock jumps',
     'The tests use fixed steps; the clock cannot be made to jump in them.',
     [M + 'CommonMini/CommonMini.cpp', LIB, PB + 'playerbase.cpp'],
     [('step size from the clock', M + 'CommonMini/CommonMini.cpp SE_getSimTimeStep'), ('real-time step', LIB + ' SE_Step')],
     'Clock and sleep are simulated: the seed decides every delay, jump and over-long sleep. The reported step sizes are compared with the simulated clock, the states with a run of explicit steps. Backward jumps: only the limits are judged for the step concerned.',
     ['simulation time', 'step sizes', 'object states and callbacks', 'simulated sleep times'])

prop('C17', 'Sensors and collision lists show exactly the objects in view and in contact',
     'After each step the ideal sensors of a host list exactly the objects that are visible to sensors and lie within range and field of view of the sensor, wherever it is mounted and turned, limited to the configured number, and the collision lists name exactly the pairs of objects whose bounding boxes overlap, symmetrically, whatever objects moved, appeared, disappeared, returned, or changed visibility, and whatever sensors were added during the run.',
     ['inputs', 'histories'], 'for every sequence of motions, additions, removals, visibility changes and sensor additions',
     'Membership depends on incremental updates of the lists over the whole history.',
     [SE + 'IdealSensor.cpp', SE + 'ScenarioEngine.cpp', SE + 'Entities.cpp', LIB],
     [('sensor', SE + 'IdealSensor.cpp Update'), ('collision lists', SE + 'ScenarioEngine.cpp DetectCollisions'), ('overlap test', SE + 'Entities.cpp Object::Collision'), ('visibility', M + 'ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp VisibilityAction')],
     'The lists are recomputed from the reported poses and boxes after every step; objects closer than a small margin to a border are not judged.',
     ['SE_FetchSensorObjectList', 'SE_GetObjectCollision', 'object states', 'sanitizer reports'])

prop('C18', 'A scenario loads completely or is refused; files and catalogs change nothing',
     'Whatever file of a scenario (scenario, road network, catalogs) is missing, cut short or fails while being read, the load is either refused with an error or behaves exactly as a complete one; it never crashes, and after a refused load the same process loads and runs the repaired scenario exactly as a fresh process. A scenario whose vehicles, pedestrians, objects, controllers, routes, trajectories and maneuvers come from catalogs, with parameters assigned, behaves exactly as the same scenario with everything written inline.',
     ['inputs', 'faults', 'crash points'], 'for every file, every point at which reading it fails, and every split of a scenario into catalogs and parameters',
     'The point of failure is arbitrary and tests never let a read fail.',
     [SE + 'ScenarioReader.cpp', SE + 'Parameters.cpp', SE + 'Catalogs.cpp', M + 'RoadManager/RoadManager.cpp', LIB],
     [('scenario reading', SE + 'ScenarioReader.cpp'), ('catalog resolution', SE + 'Catalogs.cpp'), ('parameter scopes', SE + 'Parameters.cpp'), ('road network reading', M + 'RoadManager/RoadManager.cpp OpenDrive::LoadOpenDriveFile')],
     'The simulated file system removes, truncates or fails files at seeded offsets; scenarios are generated inline and split into catalogs by a seeded transformation; runs under AddressSanitizer.',
     ['return value of the load', 'states, events and callbacks of the following run', 'sanitizer reports'])

prop('C19', 'Objects that have nothing to do with each other do not influence each other',
     'Adding objects far away, on a road of their own, with their own stories, controllers, injected commands and state reports, before, between or after the objects of a scenario, changes nothing about the motion, lights, wheels, storyboard history and conditions of the objects that were there.',
     ['inputs', 'histories'], 'for every pair of scenarios, placement of the objects in the lists, and interleaving of the calls on them',
     'Leakage between objects (shared state, indices instead of ids, lists walked while changing) shows only in particular combinations.',
     [SE + 'ScenarioEngine.cpp', SE + 'Entities.cpp', SE + 'Storyboard.cpp', M + 'Controllers/Controller.cpp', LIB],
     [('stepping of objects', SE + 'ScenarioEngine.cpp step, defaultController, prepareGroundTruth'), ('events and overriding', SE + 'Storyboard.cpp'), ('controllers', M + 'Controllers')],
     'Differential: the same plan with and without the additional objects. Left out: controllers that depend on all objects by design (ghosts restart the whole scenario, SloppyDriver draws from the common random sequence, Rel2Abs predicts everybody).',
     ['object states, kinematics, lights and wheels after each step', 'storyboard and condition callbacks'])

prop('C20', 'Every run stays sane: no crash, hang, memory error, broken state',
     'For every scenario that loads (the shipped scenarios, and variations of their numbers, with their trailers, ghosts, swarms, routes, junctions, synchronisations and controllers; generated scenarios with any controllers) and every sequence of API calls and step sizes, each call returns, no memory is accessed out of bounds or after it was freed, simulation time never runs backwards, every reported number is finite, headings stay within one turn, and the reported road and lane coordinates of an object denote the point at which it is reported.',
     ['inputs', 'histories'], 'for every scenario and sequence of calls and step sizes',
     'Memory errors and endless loops depend on rare combinations; the tests run without a memory checker, with fixed steps and the shipped numbers.',
     [SE + 'ScenarioEngine.cpp', PB + 'playerbase.cpp', M + 'RoadManager/RoadManager.cpp', M + 'Controllers', M + 'ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp', SE + 'Entities.cpp', LIB],
     [('ghost restart loop', PB + 'playerbase.cpp Frame'), ('actions', M + 'ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp'), ('positions', M + 'RoadManager/RoadManager.cpp Position'), ('controllers', M + 'Controllers')],
     'Runs under AddressSanitizer with invariants checked in every frame. World coordinates are projected onto roads with limited accuracy, so a deviation up to 1 m, near road ends and far off the road is accepted. Ending with an error message instead of running is accepted.',
     ['all object getters after each step', 'return of each call in bounded time', 'sanitizer reports'])

prop('C21', 'The csv log has one whole line per simulated step with the states of that step',
     'With csv logging on, the log has, after the header, exactly one line per simulated step, in order, with consecutive index and the simulation time of the step, and in it for each object then in the scenario its name, id and exactly the state the host reads after that step (speed, wheel angle and rotation, box, position, velocity, acceleration, road and lane coordinates, heading and its rate, curvature, collisions), whatever objects come and go, also when none is left. '
     'After a crash, or a write error at any point, what is in the file is a prefix of that log. A second session writes a log of its own.',
     ['inputs', 'crash points', 'faults', 'histories'], 'for every scenario, call sequence, step pattern, failing write and crash point',
     'Tests compare the log of one scenario at a few times and never fail a write or stop the process.',
     [PB + 'playerbase.cpp', M + 'CommonMini/CommonMini.cpp', M + 'CommonMini/CommonMini.hpp'],
     [('log lines', M + 'CommonMini/CommonMini.cpp CSV_Logger'), ('logging of a step', PB + 'playerbase.cpp UpdateCSV_Log')],
     'Log written through the simulated file system with seeded faults (I/O error, full disk, short and interrupted writes, open failure, crash) is parsed and compared with the states fetched through the API in the same run.',
     ['bytes of the csv log', 'object states through the library API after each step'])

prop('C22', 'Trajectories are followed on their line and on time, whatever the step sizes',
     'A vehicle following a polyline trajectory (in position or follow mode, from any initial distance offset, with absolute or relative timing, scale and offset, or without timing) is after every step on the line of the trajectory, at the point prescribed by its timing, or, without timing, at the distance its speed has taken it; with timing its speed is the one of the segment. '
     'The action ends exactly when the end is passed, the vehicle goes on from there with the remaining time of that step, and other motion actions before, after and in parallel act as usual. Step sizes, replacement in the middle and repetition of the action do not matter.',
     ['inputs', 'histories'], 'for every trajectory, timing, start state, combination with other actions and step pattern',
     'Tests follow few shipped trajectories with a fixed step; behaviour at vertices, ends and timing borders depends on how steps fall relative to them.',
     [M + 'ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp', M + 'RoadManager/RoadManager.cpp'],
     [('trajectory action', M + 'ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp FollowTrajectoryAction'), ('polylines', M + 'RoadManager/RoadManager.cpp PolyLineBase, PolyLineShape'), ('movement along a trajectory', M + 'RoadManager/RoadManager.cpp Position::MoveTrajectoryDS, SetTrajectoryPosByTime')],
     'Lockstep reference model of C12 extended with trajectories. Clothoids and NURBS, and stand-still vertices with explicit headings, are not judged here (C13 and C20 run them).',
     ['object states after each step', 'storyboard element callbacks'])

prop('C23', 'Trailers stay coupled and follow their towing vehicle in every step',
     'After every step the coupler of each towed trailer coincides with the hitch of its tow vehicle, the trailer heads from its previous position towards that hitch and has the speed of the tow vehicle, for trains of any length, whatever moves the front vehicle. At the start of the scenario, and when the front vehicle is teleported or added, the train is lined up straight behind it, and that relocation counts neither as velocity nor in the odometer. '
     'A trailer has at most one tow vehicle and a vehicle at most one trailer; connecting and disconnecting take effect in the step in which the action runs, connecting a trailer moves it over from its former tow vehicle, and a connection that would close a circle is refused. Deleting and adding a vehicle removes and brings along the trailers it tows, and vehicles that are not towed go on by themselves.',
     ['inputs', 'histories'], 'for every train, history of connections, deletions, additions, relocations and motion actions, and step pattern',
     'The tests tow one trailer along one road; the coupling depends on who moved, connected, vanished and returned in the same step and in which order.',
     [SE + 'Entities.cpp', SE + 'ScenarioEngine.cpp', M + 'ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp'],
     [('coupling and dragging', SE + 'Entities.cpp Vehicle::AlignTrailers, ScenarioEngine.cpp step loop'), ('connections', SE + 'Entities.cpp Vehicle::ConnectTrailer, DisconnectTrailer'), ('coming and going', SE + 'Entities.cpp Entities::activateObject, deactivateObject'), ('actions', M + 'ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp ConnectTrailerAction, DisconnectTrailerAction')],
     'Model of who tows whom driven by the observed action starts; geometry judged from reported states. Parts of trains whose front is deleted, and trailer speed while a lateral action or trajectory runs, are not judged.',
     ['object states and kinematics after each step', 'storyboard element callbacks'])
