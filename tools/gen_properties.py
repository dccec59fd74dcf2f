#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long strings stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(qtext.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

CM = 'controller_manager/src/controller_manager.cpp'
CMH = 'controller_manager/include/controller_manager/controller_manager.h'
CB = 'controller_interface/include/controller_interface/controller_base.h'
CT = 'controller_interface/include/controller_interface/controller.h'
MIC = 'controller_interface/include/controller_interface/multi_interface_controller.h'
RI = 'controller_interface/include/controller_interface/internal/robothw_interfaces.h'
HI = 'hardware_interface/include/hardware_interface/'
CRH = 'combined_robot_hw/src/combined_robot_hw.cpp'
JL = 'joint_limits_interface/include/joint_limits_interface/'
TI = 'transmission_interface/include/transmission_interface/'
TS = 'transmission_interface/src/'
UT = 'controller_manager_msgs/src/controller_manager_msgs/utils.py'
NT = "The upstream tests of this part need a running ROS master and are not among the tests that run here; they replay a handful of fixed scenarios in wall-clock time."

prop('C01', 'Controllers only ever see a legal sequence of lifecycle callbacks',
 '''In every control cycle each controller that runs at its beginning is updated exactly once, with the time and period of that cycle, before any
 switch of that cycle, and no other controller is updated. A controller is never updated, started, stopped, made to wait or aborted before it was
 initialised successfully, is started before its first update, is not started again while it runs, and gets no update after
 it was stopped until it is started again. Its reported state (initialised, running, stopped, waiting, aborted) is at every
 moment the one reached by its last completed transition, and a request made to a controller itself reports whether it was carried out.''',
 ['histories'], 'every sequence of load, unload, switch and control-cycle steps up to the bound, with every answer of the hardware',
 NT + ' The state machine of one controller is tested alone, never its interplay with switch requests that name running, unknown or duplicate controllers.',
 [CB, CM], [('state guard of the request functions', CB + ': startRequest, stopRequest, waitRequest, abortRequest, updateRequest'),
            ('request processing in the cycle', CM + ': update, manageSwitch')],
 [('controller state', 'lifecycle state of one controller', CB)], ['controller callbacks', 'controller state queries'])
prop('C02', 'A switch request does exactly what it says, or nothing at all',
 '''A strict switch request is refused if it names an unknown controller, a controller to stop that is not running, or a
 controller to start that is already running (unless it is also asked to stop); a best-effort request ignores exactly those
 entries and performs the rest; a running controller named both to start and to stop makes either kind refused. A refused
 request runs no callback of any controller, changes no state and never commands the hardware to switch. An accepted request stops every
 effective stop entry and starts every effective start entry exactly once, however often or in what order they are named,
 and leaves all other controllers alone.''',
 ['histories', 'inputs'], 'all start and stop lists (with unknown names and duplicates) and both strictness levels, in every reachable combination of controller states',
 NT + ' They try about twenty request shapes from one or two initial states.',
 [CM, 'controller_manager_msgs/srv/SwitchController.srv'], [('request filtering by strictness', CM + ': switchController')],
 [('pending requests', 'controllers to stop and to start in the next cycle', CMH)], ['return value of the switch call', 'controller callbacks and states'])
prop('C03', 'Two running controllers never hold the same hardware resource',
 '''Under the default conflict policy no two controllers that claim the same resource are ever running at the same time, and a
 controller that claims one resource twice never runs. A switch is refused because of resource conflicts only when the set of
 controllers that would be running after it does conflict, and the set the robot is asked to check is exactly that set.''',
 ['histories', 'configurations'], 'all small assignments of resources to controllers and all switch histories up to the bound, including hardware that is slow or fails',
 NT + ' They contain three conflicting pairs, always from an idle robot.',
 [CM, HI + 'robot_hw.h'], [('post-switch set computed and offered for conflict check', CM + ': switchController'), ('claim counting', HI + 'robot_hw.h: checkForConflict')],
 [], ['set of running controllers after each step', 'arguments of the conflict check'])
prop('C04', 'The hardware is asked, told and awaited in order, once per switch',
 '''For each accepted switch the robot is asked to check conflicts, then to prepare, and only if both succeed it is told
 exactly once, from the control loop, to switch, with exactly the lists it prepared: the controllers whose state really
 changes, with the resources they claimed. No controller of that switch is stopped or started before the hardware was told, none is
 started before the hardware reports it is done, and a refused preparation has no further effect.''',
 ['histories', 'fault_sequences'], 'all switch histories up to the bound with every sequence of hardware answers (conflict, refuse, done, ongoing, error)',
 NT + ' They script eleven answer sequences.',
 [CM, HI + 'robot_hw.h'], [('switch handshake', CM + ': switchController, manageSwitch, startControllers, startControllersAsap')],
 [('switch parameters', 'progress of the pending switch', CMH)], ['calls received by the robot', 'controller callbacks'])
prop('C05', 'Waiting, aborting and timing out of pending starts is decided per policy',
 '''While the hardware reports that a switch is ongoing, the controllers to start are made to wait once per cycle and never
 updated; when it reports an error, or the pending time exceeds a non-zero timeout, the ones still pending are aborted exactly once and
 the switch ends. With the all-at-once policy all controllers start in the first cycle in which the whole switch is done; with
 the as-soon-as-ready policy each one starts, or aborts, on its own hardware's answer, and those already decided are not touched again. Zero timeout
 waits for ever.''',
 ['histories', 'fault_sequences'], 'every sequence of hardware answers per controller and every position of the timeout, up to the cycle bound, both policies',
 NT + ' They use one or two fixed answer sequences per policy and a wall-clock timer.',
 [CM], [('start policies', CM + ': startControllers, startControllersAsap')], [], ['controller callbacks per cycle', 'return of the switch call'])
prop('C06', 'Loading and unloading keep an exact registry and never half-succeed',
 '''A controller is registered after loading exactly if its name was free, its type is known to a loader (asked in registration
 order), it could be constructed and it initialised without failing or throwing; otherwise nothing of it remains and the loaded set is unchanged.
 Unloading succeeds exactly for loaded controllers that are not running and destroys them before it returns; reloading libraries with controllers loaded is
 refused unless forced, and forced it stops and unloads all of them first. Loading and unloading never disturb other controllers.''',
 ['histories', 'fault_sequences'], 'all load, unload, reload, switch and cycle histories up to the bound with every way construction and initialisation can fail',
 NT, [CM, 'controller_manager/include/controller_manager/controller_loader.h'], [('double-buffered list', CM + ': loadController, unloadController'), ('reload', CM + ': reloadControllerLibrariesSrv')],
 [('controller lists', 'two lists, one current', CMH)], ['return values', 'list of controllers', 'construction and destruction of controllers'])
prop('C07', 'Listing reports the loaded controllers, states, types and claims truthfully',
 '''The controller listing names every loaded controller exactly once in load order, with its type, its present state as one
 of the documented words and the exact resources it claimed per hardware interface; the type listing names every type that every registered
 loader declares together with that loader's base class. Looking a controller up by name finds it exactly while it is loaded.''',
 ['histories'], 'every state reachable by the histories explored; listing after every step',
 NT, [CM], [('listing services', CM + ': listControllersSrv, listControllerTypesSrv, getControllerByName')], [], ['service responses'])
prop('C08', 'The control loop runs free of races while services load, unload and switch',
 '''While other threads load, unload, switch, list or reload, the control loop never touches a controller, list or request that
 is being changed or was destroyed, no two threads make unsynchronised conflicting accesses to shared state, and the control loop never blocks on,
 or waits for, another thread. Every service call returns as long as the control loop keeps cycling.''',
 ['schedules'], 'all interleavings, at the granularity of memory accesses that conflict, of a control-loop thread and one or two service threads up to the preemption bound',
 'A test sees one schedule per run; the windows are a few instructions wide. No existing test looks for races.',
 [CM, CMH, CB], [('double buffering and hand-over of the list index', CM + ': update, loadController, unloadController'), ('switch hand-shake flag', CM + ': switchController, manageSwitch'), ('locks', CMH)],
 [('current list and list in use', 'which list the control loop may read', CMH)], ['memory accesses of both threads', 'lifetime of controllers'])
prop('C09', 'Concurrent service calls behave as if executed one after another',
 '''Whatever calls (load, unload, switch, list, reload, lookup) several threads issue concurrently with a cycling control loop,
 their results and the resulting set and states of controllers are those of some order of the calls that respects real time, and
 each accepted switch is carried out completely before its call returns success. A listing taken at any moment reports for each controller a state it
 really had during the call, and a controller that is only being reset does not appear stopped.''',
 ['schedules', 'histories'], 'all interleavings up to the preemption bound of two service threads with one or two calls each and a control-loop thread',
 'Tests issue calls from one thread.', [CM], [('service and list locks', CMH), ('switch parameters reset', CM + ': switchController')], [], ['return values', 'final listing', 'hardware calls'])
prop('C10', 'A switch reported as failed has no effect afterwards',
 '''When a switch call gives up because the control loop did not carry it out in time, then after it returned neither the
 hardware is told to switch nor is any controller started, stopped, made to wait or aborted on account of that request, and later requests start from a clean slate.
 It gives up no earlier than the timeout plus one second, and not at all with a zero timeout.''',
 ['schedules', 'fault_sequences'], 'every point at which the control loop can stall and resume relative to the deadline, up to the preemption bound',
 'Needs the control loop stalled at exact points relative to a wall-clock deadline.',
 [CM], [('wall-clock deadline of the waiting loop', CM + ': switchController')], [], ['hardware and controller callbacks after the call returned'])
prop('C11', 'A reset restarts exactly the running controllers, once, before updating them',
 '''A control cycle with the reset flag stops and then starts each running controller exactly once, before any controller is
 updated in that cycle, leaves it running, and touches no other controller; a cycle without the flag restarts nothing. A pending switch proceeds unaffected.''',
 ['histories'], 'every reachable combination of controller states and pending switches, reset flag in every cycle position',
 NT + ' None of them sets the flag.', [CM, CB], [('reset loop', CM + ': update')], [], ['controller callbacks'])
prop('C12', 'Initialisation gives a controller its interfaces and claims exactly what it took',
 '''Initialising a controller succeeds exactly if all required hardware interfaces exist and its own initialisation succeeds, and may happen
 once; optional interfaces are offered if present. The claims it reports are exactly the resources it fetched from claiming interfaces during its own
 initialisation, grouped by interface; it sees no interface it did not ask for, and a failed or earlier initialisation leaves no claims behind that later show up for another controller.''',
 ['configurations', 'histories', 'fault_sequences'], 'all combinations of present, required and optional interfaces, of handles fetched, and of failures, in sequences of controllers',
 'The interface headers that initialise controllers are not compiled by the tests that run here; upstream tests use five fixed controllers.',
 [CT, MIC, RI], [('interface check', RI), ('claim collection', CT + ': initRequest; ' + MIC + ': initRequest')], [], ['claims reported', 'result and state', 'later claims on the same robot'])

prop('C13', 'The functions of the control cycle neither allocate memory nor wait',
'''The functions that are meant for the real-time control loop do their work without allocating or freeing memory, taking a lock or sleeping: a control
cycle of the controller manager (in every state, with and without a pending switch or reset), a combined robot's reading, writing, switching and reporting of
switch results, enforcing joint limits and propagating transmissions. What the callbacks of controllers and of the robot do themselves does not count.''',
['histories', 'configurations'], 'every cycle of every sequence of load, switch, reset and control-cycle steps, and every enforcement and propagation of the configurations, up to the bound',
'The tests that run here compare values; no test observes what a call does to the heap or to locks, and rare branches (a wait, an error, a timeout, a partly carried out switch) would have to be reached in a cycle.',
[CM, CB, CRH, JL + 'joint_limits_interface.h', TI + 'transmission_interface.h'], [('the cycle', CM + ': update, manageSwitch, startControllers, startControllersAsap, stopControllers'), ('combined robot', CRH + ': read, write, doSwitch, switchResult'), ('limits', JL + 'joint_limits_interface.h: enforceLimits'), ('transmissions', TI + 'transmission_interface.h: propagate')], [], ['heap operations, lock acquisitions and sleeps inside the calls'])

prop('H01', 'Resource registries return exactly what was last registered under a name',
 '''After any history of registrations, looking up a name returns the handle registered last under it, looking up any other
 name fails with an error that names it, and the list of names is exactly the names registered, each once. Combining registries gives the union,
 in which every name resolves to a handle registered under it with one of them (which one is unspecified), and leaves the sources as they were.''',
 ['histories'], 'all registration, replacement, lookup and combination histories over three names up to the bound, against a map',
 'Existing tests register two or three handles and look each one up once.', [HI + 'internal/resource_manager.h', HI + 'internal/hardware_resource_manager.h'],
 [('map of handles', HI + 'internal/resource_manager.h')], [], ['lookups', 'names'])
prop('H02', 'Fetching a handle claims it exactly for interfaces that need exclusivity',
 '''Fetching a handle through an exclusive interface adds its name to the claims, fetching through a read-only interface never
 does, and a failed lookup claims nothing. Claims are exactly the set of names claimed since the last clearing, and clearing empties it.''',
 ['histories'], 'all claim, fetch, failed-fetch and clear histories over three names up to the bound, for every interface type of the library',
 'One fixed fetch per interface type is tested.', [HI + 'hardware_interface.h', HI + 'internal/hardware_resource_manager.h'],
 [('claim policies', HI + 'internal/hardware_resource_manager.h')], [], ['claims'])
prop('H03', 'Robot interfaces are found by type, whether registered directly or combined',
 '''Asking a robot for an interface type returns the one registered last under that type, or, when several sub-robots or
 managers provide it, a combined one in which every resource of each is reachable and claimable; asking for an absent type returns nothing. Names and
 resources listed for the robot are exactly those of its own and its sub-managers' interfaces, no matter in which order interfaces, resources and sub-managers were registered and queried.''',
 ['histories', 'configurations'], 'all histories of registering interfaces, handles and sub-managers interleaved with queries, up to the bound',
 'Existing tests register everything first and query once.', [HI + 'internal/interface_manager.h'], [('lookup and combination', HI + 'internal/interface_manager.h: get, registerInterface, registerInterfaceManager')],
 [('combined interfaces', 'cache of combinations', HI + 'internal/interface_manager.h')], ['interface pointers', 'names', 'resources'])
prop('H04', 'A resource conflict is reported exactly when one resource is claimed twice',
 '''The default conflict check reports a conflict exactly if some resource name is claimed more than once among the given
 controllers, be it by two controllers or by one through two interfaces, whatever the hardware interfaces involved; it does not depend on the order of controllers, interfaces or resources.''',
 ['inputs'], 'all lists of up to three controllers with up to two interface claims each over three resources, in every order',
 'About ten hand-picked lists are tested.', [HI + 'robot_hw.h'], [('claim counting', HI + 'robot_hw.h: checkForConflict')], [], ['result'])
prop('H05', 'Handles pass states and commands through unaltered and refuse null data',
 '''Every state handle reads exactly the value its source holds now, every command handle writes exactly the command given and reads back the
 last one, and neither touches any other datum. Creating a state, command or mode handle from any null datum is refused with an error (sensor handles only carry what they are given), and a copied handle refers to the same data.''',
 ['inputs', 'configurations'], 'every handle type, every subset of null pointers, and all set/get sequences over distinct values up to the bound',
 'The tests set one value per handle and try single null arguments only for some.', [HI + 'joint_state_interface.h', HI + 'joint_command_interface.h', HI + 'actuator_state_interface.h', HI + 'actuator_command_interface.h', HI + 'posvel_command_interface.h', HI + 'posvelacc_command_interface.h', HI + 'position_velocity_torque_gains_command_interface.h', HI + 'imu_sensor_interface.h', HI + 'force_torque_sensor_interface.h', HI + 'joint_mode_interface.h'],
 [('null checks and accessors', HI)], [], ['values', 'exceptions'])
prop('H06', 'A combined robot acts as the sum of its parts',
 '''Initialising a combined robot succeeds exactly if all its configured parts exist and initialise. Each control cycle reads and writes every part exactly
 once in configuration order with the given time and period. In a switch every part is asked and told about exactly the controllers, interfaces and resources it owns, and the combination is prepared exactly if every part agrees. A switch is reported failed if any part concerned reports failure, else ongoing if any does, else done, for the whole switch as well as for single controllers.''',
 ['configurations', 'histories', 'fault_sequences'], 'all assignments of interfaces and resources to up to three parts, all switch lists over them, every part failing or refusing',
 'Upstream tests need ROS and use four fixed parts.', [CRH], [('part loading and list filtering', CRH)], [], ['calls received by the parts', 'results'])
prop('J01', 'Limited position commands respect position and velocity limits',
 '''For a joint inside its position limits, every number commanded that leaves a position-limiting handle lies inside the position limits and differs from the
 previous command (the measured position on the first cycle or after a reset) by at most the velocity limit times the period; a command that
 satisfies all active limits is passed unchanged, any other is replaced by the closest one that does. A joint outside its limits is only moved towards them. With soft limits (overlapping the
 position limits, gain times period at most one) the commanded velocity also stays inside the soft velocity bounds, which decrease linearly to zero at the soft limit, so that outside the soft
 range only motion back towards it is allowed. Handles whose mandatory limits are missing are refused.''',
 ['histories', 'inputs'], 'all command and position sequences up to the bound over value grids that straddle every limit, all limit configurations of the grid',
 'Upstream tests (which need ROS) try a dozen single commands; none runs sequences over a grid.', [JL + 'joint_limits_interface.h'], [('position saturation and soft limits', JL + 'joint_limits_interface.h')], [('previous command', 'per handle', JL + 'joint_limits_interface.h')], ['command after enforcement'])
prop('J02', 'Limited velocity commands respect velocity, acceleration and soft limits',
 '''Every command leaving a velocity-limiting handle has a magnitude of at most the velocity limit; with soft limits it also stays inside the soft velocity bounds around the measured position; with an acceleration limit it also
 differs from the previous command (with soft limits: from the measured velocity), as far as those bounds permit, by at most that limit times the period. A command that already satisfies
 all active limits is passed unchanged, and otherwise the result is the closest admissible value. Handles whose mandatory limits are missing are refused.''',
 ['histories', 'inputs'], 'all command, position and period sequences up to the bound over grids straddling every limit',
 'Upstream tests (which need ROS) try a dozen single commands.', [JL + 'joint_limits_interface.h'], [('velocity saturation and soft limits', JL + 'joint_limits_interface.h')], [], ['command after enforcement'])
prop('J03', 'Limited effort commands respect effort, position and velocity limits',
 '''Every command leaving an effort-limiting handle has a magnitude of at most the effort limit; beyond a position limit it never pushes further out, and beyond
 the velocity limit it never accelerates further; with soft limits it stays inside the effort bounds that the soft velocity bounds induce. A
 command that already satisfies all active limits is passed unchanged, and otherwise the result is the closest admissible value. Handles whose mandatory limits are missing are refused.''',
 ['inputs'], 'all commands, positions and velocities over grids straddling every limit, all configurations of the grid',
 'Upstream tests (which need ROS) try a dozen single commands.', [JL + 'joint_limits_interface.h'], [('effort saturation and soft limits', JL + 'joint_limits_interface.h')], [], ['command after enforcement'])
prop('J04', 'Joint limits read from parameters are exactly those specified',
 '''Loading limits from parameters sets exactly the limits whose specification is complete and enabled, clears those explicitly disabled, leaves all
 others as they were, and reports whether a joint specification exists; angle wrap-around is taken over only along with explicitly disabled position limits. Soft limits are taken over all together or not at all.''',
 ['inputs', 'configurations'], 'all combinations of present, absent, enabled, disabled and ill-typed parameters, onto every initial value',
 'Upstream tests (which need ROS) check six fixed joints.', [JL + 'joint_limits_rosparam.h'], [('parameter loading', JL + 'joint_limits_rosparam.h')], [], ['limit structs and results'])
prop('J05', 'Joint limits read from a robot description are exactly those specified',
 '''Loading limits from a joint description sets position limits exactly for bounded joint types with limits given, velocity and effort limits for every joint with limits
 given, clears position limits of other joint types and acceleration limits, sets angle wrap-around for continuous joints, and gives soft limits exactly if a safety section is given; without the section it reports absence and changes nothing.''',
 ['inputs', 'configurations'], 'all joint types, presence of each section and initial values', 'Seven fixed joints are tested upstream, with ROS.', [JL + 'joint_limits_urdf.h'], [('description loading', JL + 'joint_limits_urdf.h')], [], ['limit structs and results'])

prop('T01', 'Transmission maps are mutually inverse and consistent with each other',
 '''For every valid transmission with finite ratios, mapping actuator values to joint space and back (and the reverse) returns the original values for
 effort, velocity and position; positions change exactly as the integral of mapped velocities, with the joint offset applied once; simple and differential transmissions
 preserve power, the four-bar linkage follows its documented formulas. Absolute-position and torque-sensor readings map to the joint values that the position and effort maps give for the same
 readings on simple transmissions, and by the documented reductions on the coupled ones; a differential told to ignore its reduction for absolute encoders
 passes their readings on unconverted, joint one from actuator two and joint two from actuator one. No map touches data other than its target.''',
 ['inputs', 'configurations'], 'all reductions, offsets and values of exact grids with positive, negative, small and large ratios, for three transmission types',
 'The tests sample random values and one fixed configuration each; absolute position and torque sensor maps are not tested at all.',
 [TI + 'simple_transmission.h', TI + 'differential_transmission.h', TI + 'four_bar_linkage_transmission.h'], [('maps', TI)], [], ['mapped values'])
prop('T02', 'Degenerate transmissions are refused, usable ones accepted',
 '''Constructing a transmission from finite values fails with an error exactly if one of its reductions is zero (of either sign) or the reduction or offset lists have a
 wrong length; when accepted, its accessors report exactly the values it was given.''',
 ['inputs', 'configurations'], 'all vectors of length zero to three over a grid including zero of both signs, tiny and huge values', 'The tests try eight vectors per type.',
 [TI + 'simple_transmission.h', TI + 'differential_transmission.h', TI + 'four_bar_linkage_transmission.h'], [('constructor checks', TI)], [], ['exceptions', 'accessors'])
prop('T03', 'Transmission handles refuse bad data and propagate only what they name',
 '''Creating a handle fails with an error exactly if there is no transmission, no position, velocity or effort data at all, or some datum, of either space and of any kind, that is
 given has a wrong size or a null pointer. Propagating, with the data the handle is for given, writes exactly the datum kinds the handle is for, on the target side only, with the values the transmission
 defines; a state handle towards the joints also maps absolute positions and torques where both sides give them and the transmission can. Propagating a registry propagates each registered handle exactly once;
 registering under a used name replaces the handle. No access leaves the given data.''',
 ['inputs', 'configurations', 'histories'], 'all presence, null and size patterns of the five datum kinds on both sides for all handle types and transmissions; all registration and propagation histories up to the bound',
 'The upstream tests do not compile here; they try a few patterns with one transmission.', [TI + 'transmission_interface.h'], [('validation in the handle constructor', TI + 'transmission_interface.h: TransmissionHandle')], [], ['exceptions', 'data before and after', 'memory errors'])
prop('T04', 'Transmission descriptions parse to exactly what they say, or are skipped',
 '''Parsing a robot description appends, in document order, exactly the transmissions directly below its root that have a name, a type, at least one complete joint and one complete actuator
 (named, a joint with at least one hardware interface), with the names, joint roles, interfaces, reductions and offsets as written. A joint or actuator with an empty name and a joint without interface is left out; a
 transmission with a joint or actuator that has no name attribute, and any other incomplete one, is skipped without affecting the rest. Text that is no XML document with a root element is refused; no text whatever makes the parser crash.''',
 ['inputs'], 'all documents of a grammar that omits, empties or duplicates each element and attribute up to the bound, plus malformed documents',
 'Four fixed files are parsed, and not by the tests that run here.', [TS + 'transmission_parser.cpp'], [('parser', TS + 'transmission_parser.cpp')], [], ['parsed transmissions', 'crashes'])
prop('T05', 'Transmission loaders build the described transmission or nothing',
 '''Each transmission loader returns a transmission with exactly the actuator reductions (mandatory), joint reductions (default one), offsets (default zero) and role order described, or nothing if the description
 has the wrong number of joints or actuators, a mandatory value missing, a value that is not a number, a missing, unknown or duplicate role (coupled transmissions), or values the transmission refuses; a differential ignores its reduction for
 absolute encoders exactly if both joints say so. Loaders never throw or crash.''',
 ['inputs', 'configurations'], 'all descriptions of a grammar over joint and actuator counts, roles, reduction and offset texts (missing, valid, zero, garbage)',
 'About fifteen fixed files are loaded, and not by the tests that run here.', [TS + 'transmission_loader.cpp', TS + 'simple_transmission_loader.cpp', TS + 'differential_transmission_loader.cpp', TS + 'four_bar_linkage_transmission_loader.cpp'], [('loaders', TS)], [], ['transmission maps built'])
prop('T06', 'Loaded transmissions connect exactly the described joints and actuators',
 '''A transmission loads exactly if its type is known, it builds, its joints list the same interfaces in any order, and at least one of those is known and available: the robot offers the
 states, and for command interfaces the commands, of all its actuators and does not provide a joint of that name itself. Each joint is then exposed through every such interface: its state is the mapped state of its actuators, by roles, after
 propagation, and its command reaches the actuators mapped (and back, for bidirectional interfaces). Several transmissions load in order until one fails; one of a used name replaces the former. What the robot provides itself
 is untouched, and a failed load reports failure without throwing.''',
 ['configurations', 'histories', 'fault_sequences'], 'all single transmissions and pairs over types, interfaces, role orders, shared and missing actuators and pre-existing joints, loaded together or one after another',
 'Eleven fixed files upstream, not run here.', [TS + 'transmission_interface_loader.cpp', TS + 'joint_state_interface_provider.cpp', TS + 'position_joint_interface_provider.cpp', TS + 'velocity_joint_interface_provider.cpp', TS + 'effort_joint_interface_provider.cpp'], [('providers', TS)], [], ['handles on the robot', 'propagated values'])

prop('P01', 'Controller-list filters select exactly the matching controllers, in order',
 '''Each filter over a controller list returns exactly the controllers that match its documented condition (by name, type, state, hardware interface or resources; exact or
 substring; all or any; restricted to one interface or not), each once, in list order, without changing its inputs, for empty lists too.''',
 ['inputs'], 'all lists of up to three controllers over small name, claim and resource domains and all filter arguments', 'Needs ROS; a fixed list of six controllers.', [UT], [('filters', UT)], [], ['filtered lists'])
prop('P02', 'Controller managers and their configurations are discovered exactly',
 '''Discovery returns, sorted and without duplicates, exactly the namespaces that offer the full controller-manager interface with the right types; with an earlier answer as a guess it drops those gone and adds
 those new; a registered but dead service neither counts nor disturbs. Potential controllers in a namespace are exactly the direct children with a type parameter, sorted. A controller lister answers with the present list, or an empty one if the manager cannot be reached, and recovers after a reconnection.''',
 ['configurations', 'histories', 'fault_sequences'], 'all service tables over three namespaces with complete, partial and ill-typed interfaces and changes between calls; all call-failure patterns', 'Needs ROS; one dummy manager.', [UT], [('discovery', UT)], [], ['answers'])
prop('P03', 'The spawner loads, starts, stops and unloads exactly its controllers',
 '''A spawner loads the controllers it was given in order, starts exactly those that loaded unless told not to, and when killed (with no request in flight) stops and unloads all of them that remain, in reverse order, whatever their
 state then is; with a start condition it does nothing until the condition is true. The unspawner stops exactly the named controllers that run, whenever they run, and on exit restarts exactly those it stopped.''',
 ['histories', 'fault_sequences'], 'all outcomes of each service call, all states changed meanwhile by others, all argument forms up to the bound, against a model of the manager',
 'Needs ROS; one happy-path run per script.', ['controller_manager/scripts/spawner', 'controller_manager/scripts/unspawner'], [('scripts', 'controller_manager/scripts')], [], ['service calls', 'final manager state'])
prop('P04', 'Command-line tools request exactly what the user asked and report the outcome',
 '''The command-line tool and its library functions issue exactly the service requests the command means, in order, and report success exactly if the manager did. Group switching stops
 exactly the running controllers of other groups, loads and starts exactly the controllers of the chosen group not yet loaded or running, and starts and stops nothing if a load fails, and does nothing if the group is unknown. Reloading with restore brings back every controller and every running state.''',
 ['histories', 'fault_sequences', 'configurations'], 'all commands, argument lists, group tables, manager states and call outcomes up to the bound', 'Needs ROS; a few commands.',
 ['controller_manager/scripts/controller_manager', 'controller_manager/scripts/controller_group', 'controller_manager/src/controller_manager/controller_manager_interface.py'], [('tools', 'controller_manager/scripts')], [], ['service requests', 'return values'])
prop('P05', 'The graphical tool shows the merged controller list and acts on the right row',
 '''The graphical tool shows every loaded controller once with its state plus every configured but unloaded one as uninitialised; a menu action on a row sends exactly the requests it names for that row's controller.
 Refreshing the manager selection keeps the selected manager selected if it is still offered, unsets it otherwise, and always ends with exactly the offered entries.''',
 ['histories', 'configurations'], 'all list changes, states and actions up to the bound with a stand-in toolkit', 'There are no tests for it.',
 ['rqt_controller_manager/src/rqt_controller_manager/controller_manager.py', 'rqt_controller_manager/src/rqt_controller_manager/update_combo.py'], [('list merge and menu', 'rqt_controller_manager')], [], ['shown rows', 'service requests'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
