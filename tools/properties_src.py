#!/usr/bin/env python3
# Source of properties.jsonl: `python3 tools/properties_src.py > properties.jsonl`
import json
CM='controller_manager/src/controller_manager.cpp'
CMH='controller_manager/include/controller_manager/controller_manager.hpp'
NODE='controller_manager/src/ros2_control_node.cpp'
SLP='controller_manager/src/sleeping_policies.cpp'
RM='hardware_interface/src/resource_manager.cpp'
HC='hardware_interface/src/hardware_component.cpp'
HCI='hardware_interface/src/hardware_component_interface.cpp'
HCIH='hardware_interface/include/hardware_interface/hardware_component_interface.hpp'
CI='controller_interface/src/controller_interface_base.cpp'
CHI='controller_interface/src/chainable_controller_interface.cpp'
H='hardware_interface/include/hardware_interface/handle.hpp'
LC='hardware_interface/include/hardware_interface/loaned_command_interface.hpp'
LS='hardware_interface/include/hardware_interface/loaned_state_interface.hpp'
GS='hardware_interface/src/mock_components/generic_system.cpp'
JS='joint_limits/src/joint_saturation_limiter.cpp'
JR='joint_limits/src/joint_range_limiter.cpp'
JSO='joint_limits/src/joint_soft_limiter.cpp'
JH='joint_limits/src/joint_limits_helpers.cpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','Exclusive ownership of command interfaces, with no leak',
 'At every instant each command interface is held by at most one controller, and a switch request that would give an interface to a second running controller is refused (strict) or executed without that controller (best effort). When a controller stops being active for any reason - requested stop, its own failure, a hardware failure, a failed or half-failed activation, a deactivation callback that fails or throws, shutdown - every interface it held can be claimed by another controller again once that operation has finished.',
 ['schedules','histories','fault_sequences'],
 'all interleavings of switch/load/unload/hardware-state service calls with the control loop, all sequences of controller and hardware failures',
 'Tests run one hand-written switch at a time in a single thread; ownership leaks and double claims appear after particular failures or interleavings of service threads with the loop.',
 [CM,RM,LC],[('claiming and releasing of loaned command interfaces',RM),('resource check during switch preparation and activation',CM)])

p('C02','Strict switches: all or nothing, truthful answer',
 'A strict switch request that cannot be satisfied as a whole (unknown controller, wrong state, conflicting or unavailable interface, chain requirement, hardware refusing the mode change) is answered with failure and changes the state of no controller. If a strict switch is accepted but some activation then fails, no controller of its start list stays active and no controller outside the request is touched. The answer is success exactly when, on completion, all requested controllers were brought into the requested states.',
 ['schedules','histories','fault_sequences'],
 'every controller graph, every start/stop list, every reachable controller and hardware state, every callback and hardware failure during the switch, with asap and non-asap requests and every timeout',
 'Tests sample a few lists with fixed controllers; the request space times failure points times schedules is not sampled.',
 [CM],[('switch request validation',CM),('switch execution in the control loop and result evaluation',CM)])

p('C03','Best-effort switches execute what is feasible and stay valid',
 'A best-effort switch request leaves out the controllers that are unknown, in a state from which they cannot be switched, or lacking the other controllers of their chain, and still starts and stops the remaining ones; controllers already in the requested state are no error, and a list that names controllers of which none is known is refused. Remaining controllers that lack interfaces or contend for them are refused as a whole. It never makes the manager reach a configuration that a strict request would have been refused, never touches a controller that the request neither names nor needs, and its answer is failure if something it did attempt did not end in the requested state.',
 ['schedules','histories','fault_sequences'],
 'every start/stop list with any mix of feasible and infeasible controllers, in every reachable state and under activation and hardware failures',
 'The tests check a handful of lists; interactions of dropped controllers with chains and shared interfaces are combinatorial.',
 [CM],[('best-effort pruning of the activate and deactivate requests',CM)])

p('C04','Reported controller and hardware state is the real state',
 'Whenever no request is being processed, the controller list, the hardware component and interface lists and the last published activity message agree with the real lifecycle state of every loaded controller and hardware component, with which controllers are chained, and with which interfaces are available and which are claimed by which controller; an unavailable interface is never reported as claimed. This also holds after state changes that nobody requested, such as a controller stopped by the control loop because it or its hardware failed.',
 ['schedules','histories','fault_sequences'],
 'every history of service calls, control cycles and faults; observed at every quiescent point',
 'Tests compare lists after scripted successful calls; staleness shows only after failures handled in the control loop or under concurrency.',
 [CM,RM],[('list services',CM),('activity publishing',CM),('component status reporting',RM)])

p('C05','The control loop never blocks and every request is answered',
 'For every interleaving of service requests, controller failures and hardware failures the control loop keeps executing its cycles: apart from time spent inside user plugins, no cycle waits for a service request to finish. Every service request that is sent while the loop runs is answered within a bounded time (its own timeout plus a bounded number of cycles), and a request whose timeout has expired leaves the manager able to execute later requests.',
 ['schedules','fault_sequences','histories'],
 'every interleaving of up to several concurrent clients with the control loop, any controller or hardware failing in any cycle, any switch timeout',
 'Deadlocks and lost wake-ups need particular thread interleavings between the loop and service threads that unit tests, mostly single threaded, do not produce.',
 [CM,CMH],[('double-buffered controller list and its waiting protocol',CM),('switch request hand-over between service thread and loop',CM)])

p('C06','A hardware failure stops exactly its dependants and is contained',
 'When the periodic read or write of a hardware component reports an error or throws, then by the end of that cycle the component is no longer active and every active controller that uses any command or state interface of that component has been deactivated; if the component instead asks for deactivation, the component becomes inactive and every controller commanding it has been deactivated. Controllers and components that do not depend on it (neither through interfaces nor through a controller chain nor through a hardware group) stay active and keep being updated every cycle. The failed component is not written again until it has been activated again successfully, and this recovery is possible unless its error handling failed. Only while a switch that is performed outside of the control loop is under way is the stopping of controllers postponed until it has finished, and failures of asynchronous hardware are noticed within a bounded number of cycles.',
 ['fault_sequences','schedules','histories'],
 'every set of components failing in any cycle, in read or write, by error, deactivate request or exception, while controllers in any state and chain use them and switches are in progress',
 'Tests inject one scripted failure at one place; combinations of failures with chains, switches and recoveries are not sampled.',
 [CM,RM,HC],[('read/write return handling',RM),('deactivation of dependent controllers after hardware failure',CM)])

p('C07','A controller failure stops its chain, starts fallbacks, spares others',
 'When the update of an active controller reports an error or throws, then by the end of that same cycle this controller and all controllers chained with it are deactivated and the fallback controllers configured for the failed controllers are activated, all of them or none, whenever all of them are configured and their resources are free (failures of asynchronous controllers are noticed within a bounded number of cycles). A stopped controller is not updated again until it is activated again. Every other active controller is still updated in that and the following cycles, at its rate.',
 ['fault_sequences','schedules','histories'],
 'every controller of any chain failing in any cycle, with any fallback list, concurrent with switch requests',
 'Tests cover single failures in simple set-ups; failures concurrent with switches or of several controllers in a cycle are not covered.',
 [CM],[('handling of failed updates and fallback activation',CM)])

p('C08','Chained controllers are consistent: mode, activity and order',
 'A controller is in chained mode exactly while an active controller claims its reference interfaces, unless it refused to change its mode, and an active controller whose interfaces come from another controller always has that controller active too. Reference interfaces of a controller can be claimed only while it is able to accept them, and are never claimed by two controllers. In every cycle each active controller is updated after all active controllers whose outputs feed its references, for every order of loading and configuring them.',
 ['histories','configurations','schedules','fault_sequences'],
 'every acyclic chain topology, load/configure order, strict and best-effort switch sequence and failure',
 'Tests use two or three fixed topologies; ordering and propagation logic must work for every graph and switch history.',
 [CM,CHI],[('chain propagation of (de)activation',CM),('controller ordering',CM),('switching of chained mode',CM)])

p('C09','Hardware lifecycle is legal; I/O only in the right states',
 'Every hardware component only goes through the documented lifecycle transitions, its callbacks are invoked only for those transitions, and a requested state change ends either in the requested state with a success answer or in the state the documented failure rules give with a failure answer. A component is read only while inactive or active, is written only while active, and sensors are never written. Its command and state interfaces are available to controllers exactly while its state allows it, whatever sequence of requests and failures led there.',
 ['histories','fault_sequences','schedules'],
 'every sequence of component state requests, callback failures, read/write failures and group failures, concurrent with the control loop',
 'Tests walk single successful paths; failing callbacks at each transition combined with a running loop are not enumerated.',
 [RM,HC,CM],[('component state machine',HC),('component state transitions and interface availability',RM),('component state service',CM)])

p('C10','Hardware groups fail together',
 'When a member of a hardware group fails in read or write (error or exception, or a deactivation asked for by read), every other member of the group that is active at that moment is stopped in its next read, that is in the following cycle at the latest, and is not written after it until it is activated again, while components of other groups or without a group are unaffected. Initial activation brings the members of a group up together: if one fails to be configured or activated, none of those that were to become active stays active (unless it refuses to be deactivated).',
 ['configurations','fault_sequences'],
 'every assignment of components to groups, every member failing by any means in any cycle or during initial activation',
 'Tests use one two-member group and one failure mode.',
 [RM],[('group state bookkeeping and error propagation',RM)])

p('C11','Update and I/O rates and the period passed are right',
 'Over any stretch of cycles a controller or hardware component with its own rate is executed at that rate (never more often than the manager cycle, exactly if the rate divides that of the manager and otherwise at most about one cycle early or late without drift), including after activation, deactivation, missed cycles and failures. The period handed to each update, read or write equals the time elapsed since its previous execution (the nominal period for the first one after activation; a state change of the component and a request to restart the controller start a new reference), and is never negative or zero.',
 ['schedules','configurations','histories'],
 'all combinations of manager, controller and component rates, jittered and late cycles, activation at any cycle',
 'Tests step a few exact cycles; drift, jitter and reactivation effects depend on timing.',
 [CM,RM,CI],[('update rate gating',CM),('read/write rate gating',RM)])

p('C12','Asynchronous controllers and hardware run safely',
 'The update of an asynchronous controller and the read/write of asynchronous hardware never run concurrently with themselves or with their own lifecycle callbacks, and never run after the controller or component has been deactivated until it is activated again. A slow asynchronous plugin never delays the control loop or the other controllers. An error or exception in it is handled like that of a synchronous one, and after recovery it works again without replaying old errors. An active one keeps being executed, and stopping it waits for the callback in progress.',
 ['schedules','fault_sequences','histories'],
 'every interleaving of the worker threads with the control loop and service threads, any execution time including stalls, any error',
 'Races between worker threads, triggering and lifecycle transitions need interleavings the tests do not control.',
 [CI,HCIH,HCI,RM,CM],[('asynchronous update triggering',CI),('asynchronous read/write triggering',HCIH)])

p('C13','Joint limits hold for every command that reaches hardware',
 'While command limiting is enabled, every joint command present at a hardware component when it is written lies inside the limits declared for the joint (position, velocity, effort, acceleration and soft limits as applicable), whichever controller set it in whatever mode, and a command that already satisfies the limits is passed through unchanged; NaN counts as no command, and where limits contradict each other (for example because the joint is far outside its position limits) at least the absolute limits of velocity, acceleration and effort hold or the command is refused. Mode switches start limiting afresh. Non-joint and unlimited interfaces are never altered. With limiting disabled no command is altered.',
 ['inputs','histories','schedules'],
 'every sequence of commanded values including infinities and NaN, every declared limit combination, every mode switch, joint state and cycle timing',
 'Limiting is history dependent (previous command, actual state, period, mode switches); tests check isolated vectors of the limiter, not the values that reach hardware.',
 [RM,CM,JS,JR,JSO,JH],[('enforcement before write',RM),('limiters','joint_limits/src')])

p('C14','Hardware mode switches follow prepare-then-perform',
 'For every switch request that changes which command interfaces are claimed, each affected active or inactive hardware component is asked to prepare with exactly the interfaces to start and stop, and is asked to perform only after every component accepted the preparation, with the same lists, before any controller of that request is activated. If a component rejects the preparation or the performance, no controller of the request is switched. Components are never asked about interfaces the switch does not start or stop, and the interfaces used by an active controller are those its component was last told to start.',
 ['histories','fault_sequences','schedules'],
 'every switch request on every controller graph, any component rejecting or throwing in either phase',
 'Tests check the call on one or two hand written examples without failures in the second phase.',
 [RM,CM],[('prepare and perform command mode switch',RM),('construction of start and stop interface lists',CM)])

p('C15','Interfaces behave as atomic registers under concurrency',
 'Concurrent reads and writes of one interface by the loop, asynchronous controllers, asynchronous hardware and other threads are linearizable: a successful read returns exactly the value of the latest successful write in one total order consistent with real time, never a torn or invented value. Reads and writes in non-waiting mode never block and report failure instead, leaving the value unchanged; they fail only under contention. While the lock of an interface is held its value does not change, accesses with the wrong type are rejected without effect, and copying or moving a handle keeps its value.',
 ['schedules'],
 'every interleaving of several readers and writers on interfaces of every supported data type and both access styles',
 'Tests use the handles from one thread or with real threads whose interleaving is not controlled.',
 [H,LC,LS],[('locking of handle values',H),('bounded retries of loaned interfaces',LC)])

p('C16','Shutdown at any moment ends cleanly',
 'Whenever shutdown is requested - during any cycle, service call, switch, asynchronous update or start-up - the process terminates in bounded time with every loaded controller deactivated and finalized exactly once and every hardware component shut down exactly once, active controllers being deactivated before their hardware (a controller or component that refuses to be deactivated, or whose error handling failed, excepted); requests in progress are finished first. After a controller or component has been finalized none of its periodic callbacks is invoked again, and no request is served afterwards as if the system were alive.',
 ['crash_points','schedules','fault_sequences'],
 'shutdown requested at every point of every execution, combined with failures of the shutdown callbacks themselves',
 'Tests shut down from a quiescent state; races of shutdown with the loop, async threads and service calls are not exercised.',
 [CM,RM,NODE,CI],[('pre-shutdown callback, controller and component shutdown',CM),('main loop exit',NODE)])

p('C17','Loading, configuring and unloading leave no residue',
 'Load, configure, cleanup and unload requests succeed only from the documented controller states, report truthfully, and a failed one (unknown type, duplicate name, failing or throwing callback, bad exported interfaces) leaves the manager as if the controller had never been loaded, respectively in the documented state. After unloading, every interface the controller exported is gone, its name can be reused, and nothing of it is referenced or called any more - by the loop, by the introspection registry or by other controllers.',
 ['histories','fault_sequences','schedules'],
 'every sequence of load/configure/cleanup/unload with failures in every callback, concurrent with the running loop',
 'Tests load and unload a few controllers successfully; dangling references after failures are invisible to assertions on return codes.',
 [CM,CI,CHI,RM],[('load, configure, cleanup and unload',CM),('import and removal of controller-exported interfaces',RM)])

p('C18','The main loop keeps its rate through overruns and clock jumps',
 'The main loop runs one read-update-write sequence per period: without overruns the cycle starts are exactly one period apart, and after an overrun it either skips whole missed periods keeping the original phase or catches up, as configured, without ever spinning without sleep for longer than the backlog or sleeping longer than one period beyond the next cycle. The period passed on is the measured time between cycle starts. With simulated time the loop follows the simulated clock, pausing when it is paused.',
 ['schedules','fault_sequences','configurations'],
 'any sequence of cycle durations, stalls, clock jumps and pauses, any rate, overrun management on and off, simulated time on and off',
 'The executable main loop has no unit test, and timing behaviour depends on clock values tests do not control.',
 [NODE,SLP],[('main loop',NODE),('sleeping policies',SLP)])

p('C19','Start-up: late, repeated or broken robot descriptions are safe',
 'Until a valid robot description has been received the manager serves requests without hardware and refuses what needs hardware; a malformed or unloadable description never crashes it and a later valid one is accepted. After a valid one every component is brought exactly to its configured initial state, a component that fails to get there is left where its failed transition leaves it (never active) and the rest stays usable, or the manager shuts down when configured so. Later descriptions do not disturb running hardware.',
 ['inputs','histories','fault_sequences','configurations'],
 'every order and time of description arrival relative to requests and cycles, every mix of valid and invalid descriptions, every initial-state configuration and callback failure',
 'Tests use a few fixed descriptions delivered before start; timing and failure combinations are not explored.',
 [CM,RM],[('robot description callback and resource initialisation',CM),('component import and initial activation',RM)])

p('C20','Each cycle updates every due active controller once, read-update-write',
 'In every control cycle all readable hardware is read before any controller is updated and written only after all of them were updated, and every active controller that is due is updated exactly once. A controller that is not active is never updated, whatever loads, unloads and switches happen meanwhile, and no controller object is called or accessed after it was unloaded.',
 ['schedules','histories'],
 'every interleaving of service threads that add, remove and switch controllers with the control loop',
 'List swapping between the service threads and the loop is only safe if it is for every interleaving; tests are mostly single threaded.',
 [CM,CMH,RM],[('controller lists used by the loop',CM),('update loop',CM)])

p('C21','Mock hardware mirrors commands faithfully',
 'The generic mock system reports for each joint, in the read after a write, the last commanded finite value on the matching state interface (for positions plus the configured offset, or on the custom interface configured for it), integrates velocity or acceleration commands over the elapsed time when dynamics are enabled, lets mimic joints follow their joint with the declared multiplier and offset, and keeps all other states at their initial values; booleans of GPIOs are mirrored as well. Commands that are not a number leave the state as it is and an infinite command mirrored to a state is a read error. It never reports a value nobody commanded, across activations, mode switches and rate changes, and rejects exactly the impossible mode combinations (none or several of position, velocity and acceleration of one joint); every configuration starts in position mode.',
 ['histories','configurations'],
 'all command sequences, mode switches, activation/deactivation histories and periods on all supported option combinations',
 'Tests check scripted sequences of a few cycles per option.',
 [GS],[('read with mirroring, dynamics and mimic',GS)])

p('C22','The spawner reaches the requested state or says that it failed',
 'The spawner exits with success only if every requested controller has been brought to the requested state (loaded, inactive or active) with its parameters set, and the unspawner only if every controller is unloaded, even when requests or answers are lost, delayed or repeated, when requests are refused, when the manager restarts, when several spawners run at once, and when controllers were already loaded; being interrupted without having to unload anything is not a failure. From its first to its last request while spawning a spawner holds the lock shared by all of them, and it does not hold it while it waits for its termination. When told to unload on termination (SIGINT or SIGTERM, whenever it arrives), it deactivates and unloads exactly the controllers it was told to activate, as far as they are there, and reports success only if they are unloaded. It touches no other controllers and always ends within its configured timeouts.',
 ['fault_sequences','schedules','histories'],
 'every loss, delay and failure of the service answers, any number of concurrent spawners, termination signals at any moment',
 'Tests run a real spawner process against a healthy manager; lost answers, signals at every point and races among spawners are not reproducible there.',
 ['controller_manager/controller_manager/spawner.py','controller_manager/controller_manager/unspawner.py','controller_manager/controller_manager/controller_manager_services.py'],
 [('spawner main',"controller_manager/controller_manager/spawner.py"),('service caller with retries','controller_manager/controller_manager/controller_manager_services.py')])

p('C23','Transmissions convert back and forth without loss',
 'For every valid configuration, propagating joint commands to actuators and the resulting actuator values back to joints gives the original values.',
 ['inputs'],'all valid reductions and offsets and all values',
 'Tests check a few parameter sets.',
 ['transmission_interface/include/transmission_interface/simple_transmission.hpp','transmission_interface/include/transmission_interface/differential_transmission.hpp','transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp'],
 [('transmission arithmetic','transmission_interface/include/transmission_interface')])

p('C24','Robot descriptions are parsed completely and strictly',
 'Every valid description yields exactly the hardware components, joints, interfaces, parameters and limits it declares, and an invalid one is rejected with an error rather than misread.',
 ['inputs'],'all XML documents','Tests parse a fixed set of documents.',
 ['hardware_interface/src/component_parser.cpp','hardware_interface/src/lexical_casts.cpp'],
 [('description parsing','hardware_interface/src/component_parser.cpp')])

p('C25','The hardware spawner and the verbs reach the state asked for or say they failed',
 'The hardware spawner ends with success only if every hardware component named on its command line was brought to the requested state (inactive or active), and the verbs of the command line tool that change something (load_controller, set_controller_state, switch_controllers, unload_controller, cleanup_controller, set_hardware_component_state) only if the manager granted the request and the controllers and components named are in the requested state, with the parameters given for them set. Their requests carry exactly what was asked for (names, target state, strictness, activation as soon as possible, timeout of the switch) and concern nothing else. They do not report a failure when nothing went wrong, do not end with unexpected exceptions, and end within their timeouts, even when requests or answers are lost, delayed or repeated, when requests are refused, when the manager is not there yet or restarts, and when others change the same controllers and components. Being interrupted is not covered.',
 ['fault_sequences','schedules','histories'],
 'every loss, delay, refusal and repetition of requests and answers, any concurrent activity of other tools, all combinations of arguments',
 'The tests of the hardware spawner run it against a healthy manager and the verbs have no tests with failing or lost answers.',
 ['controller_manager/controller_manager/hardware_spawner.py','controller_manager/controller_manager/controller_manager_services.py','ros2controlcli/ros2controlcli/verb/switch_controllers.py','ros2controlcli/ros2controlcli/verb/set_controller_state.py','ros2controlcli/ros2controlcli/verb/load_controller.py','ros2controlcli/ros2controlcli/verb/set_hardware_component_state.py'],
 [('hardware spawner main','controller_manager/controller_manager/hardware_spawner.py'),('verbs','ros2controlcli/ros2controlcli/verb')])
p('C26','Diagnostics report controllers, hardware components and cycle times truthfully',
 'Every diagnostic status that the controller manager publishes while no request is executed and no failure is handled names exactly the loaded controllers and the hardware components with their current lifecycle states, and its summary agrees with them (all or not all are active, and a raised level when no hardware component is active or nothing is loaded). Every active controller and component is reported with its execution statistics. Published statistics are consistent in themselves (the average lies between minimum and maximum, the deviation is not negative and not larger than their distance), start again with each activation, and agree with what happened: the period of a controller slower than the manager is the one at which it was really updated since its activation, execution times are not shorter than the shortest update and not longer than the controller is active, the periodicity of the manager lies within the real rates of its cycles, and the desired rates are those in force. The level of a status is what the published values demand by the thresholds in force, and a controller is mentioned as too slow exactly when its published values demand it.',
 ['fault_sequences','schedules','histories'],
 'every interleaving of the diagnostics timer with requests and the control loop, slow or failing callbacks, clock jumps, thresholds and rates',
 'The tests read the diagnostics of a few quiet situations; they do not compare the statistics with what was executed, and not while the control loop, requests and failures go on.',
 ['controller_manager/src/controller_manager.cpp','hardware_interface/include/hardware_interface/types/statistics_types.hpp','hardware_interface/src/hardware_component.cpp','controller_interface/src/controller_interface_base.cpp'],
 [('controller_activity_diagnostic_callback','controller_manager/src/controller_manager.cpp'),('hardware_components_diagnostic_callback','controller_manager/src/controller_manager.cpp'),('controller_manager_diagnostic_callback','controller_manager/src/controller_manager.cpp'),('MovingAverageStatistics','hardware_interface/include/hardware_interface/types/statistics_types.hpp')])

if __name__=='__main__':
    for x in P: print(json.dumps(x))
