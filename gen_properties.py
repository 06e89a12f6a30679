#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the long lines stay editable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Results are independent of worker threads and scheduling",
  "For any system of slaves, functions, connections, initial values and step-size ratios, the values every slave receives and every observer sees are the same for every worker-thread count and every thread interleaving. They are those of a plain sequential execution of the data exchange: initial values and connections are propagated before the first step, and at each communication point shared by a connection's source and target (and by no other rule) the source's value at that point becomes the target's input from its next step on. Breaking a connection or changing a slave's step-size ratio between steps takes effect from the next step, whatever the order in which the system was put together.",
  ["schedules", "configurations", "histories"],
  "all systems (1-7 slaves, 0-3 functions, four variable types, acyclic and cyclic connection graphs, step-size ratios), all worker counts, all interleavings of the worker threads, concurrent independent executions",
  "The existing tests run a handful of fixed systems with the default worker count on whatever schedule the machine happens to produce; an exchange that overlaps a still-running slave, or a wrong rule for one variable type or step ratio, passes them.",
  ["src/cosim/algorithm/fixed_step_algorithm.cpp", "src/cosim/execution.cpp", "src/cosim/slave_simulator.cpp", "src/cosim/utility/thread_pool.hpp"],
  [("barrier between stepping and transferring", "fixed_step_algorithm::impl::do_step / initialize"), ("lcm rule for decimated slaves and functions", "fixed_step_algorithm::impl::transfer_variables"), ("set/get caches", "slave_simulator::impl")],
  ["slave::set_*_variables / do_step arguments", "observable::get_*() in observer callbacks"])

p("C02", "Slaves are driven by the documented call sequence, one call at a time",
  "Every slave is set up exactly once, then initialised, started exactly once, and then stepped over contiguous, non-overlapping intervals of its own step size beginning at the start time; inputs are set before and outputs read after each step; a slave that is added too late for that is refused and changes nothing. When the execution is destroyed, every slave that was started and has not failed is told exactly once, after its last call, that the simulation has ended. No slave ever executes two calls at the same time, and all slaves due at a communication point have finished before any value is exchanged, any observer is notified or the step returns.",
  ["schedules", "configurations", "histories"],
  "all worker counts and interleavings, all step-size ratios, repeated simulate/stop/step histories",
  "Mock slaves in the tests do not check the order or overlap of calls, and an overlap needs a specific interleaving of worker threads.",
  ["src/cosim/algorithm/fixed_step_algorithm.cpp", "src/cosim/slave_simulator.cpp", "src/cosim/utility/thread_pool.hpp", "include/cosim/slave.hpp"],
  [("slave state machine", "slave_simulator::setup/start_simulation/do_step"), ("wait for the worker pool", "thread_pool::wait_for_tasks_to_finish")],
  ["slave interface"])

p("C03", "A slave failure surfaces as one exception and nothing else breaks",
  "Whatever a slave does wrong at any point (throws any exception, or reports an incomplete step, in setup, initialisation, start, stepping, reading or writing variables), the call that drives the simulation ends with an exception that names every slave that failed in that phase, whether it was called directly or through a future. The process is never terminated and never hangs, the other slaves due in that phase still complete it before the exception is seen, a slave that has failed is not called again once the exception is seen (nor at all if it threw), not even by an attempt to go on, which is refused with an exception again, the simulation is no longer reported as running, and everything can be inspected and destroyed normally, also if slaves fail to end the simulation then.",
  ["fault_sequences", "schedules", "configurations"],
  "every slave, call and call number at which the failure is injected, one or several failing slaves, 0..n workers, synchronous and asynchronous runs, failure to create worker threads",
  "No existing test lets a slave fail on a worker thread; the fault has to be combined with the schedule of the other workers.",
  ["src/cosim/algorithm/fixed_step_algorithm.cpp", "src/cosim/execution.cpp", "src/cosim/slave_simulator.cpp", "src/cosim/utility/thread_pool.hpp"],
  [("try/catch in worker tasks", "fixed_step_algorithm::impl::do_step"), ("state_guard", "slave_simulator.cpp"), ("pool construction rollback", "thread_pool::thread_pool")],
  ["exception from execution::step / simulate_until / future::get", "slave interface", "execution::is_running"])

p("C04", "Stopping, pausing and resuming a run never loses a request",
  "A stop request made while a run is in progress, including right after an asynchronous run has been requested, ends that run: at most the step in progress (or the run's first step) is completed, and the run then returns. A run returns true exactly if logical time reached the requested target and false only if it was stopped before that; a stop request made while no run is in progress has no effect on later runs. The simulation is reported as running from the moment a run has been requested until it has returned, and never after that.",
  ["schedules", "histories"],
  "all interleavings of the stepping thread with threads that stop, poll and resume; synchronous and asynchronous runs; with and without target time; with and without real-time pacing",
  "Tests stop a run after a real sleep; the windows (before the background thread has started, in the final step) are a few instructions wide.",
  ["src/cosim/execution.cpp", "include/cosim/execution.hpp"],
  [("stop flag", "execution::impl::stopped_"), ("run loop", "execution::impl::simulate_until")],
  ["return value / future", "execution::is_running", "observer::step_complete", "execution::current_time"])

p("C05", "Every step is accounted for exactly once and in order",
  "Each completed step advances logical time by exactly the base step size; a run to a target time ends at the first communication point that is not earlier than the target (within 1 % of a step), and stepping can be continued from there by any mix of single steps and runs. Manipulators are called exactly once before each step with the time at its start; every observer is told exactly once of the initialisation and of each completed step, with consecutive step numbers and the matching time, after all slave notifications of that step, and of each slave exactly at the communication points where that slave has completed a step of its own.",
  ["histories", "schedules", "configurations"],
  "all histories of step / run / asynchronous run / stop with arbitrary targets and base step sizes, observers added before and after initialisation, all worker counts and interleavings",
  "Tests use one base step and one target; combinations of pause points, targets that are not multiples of the step, decimated slaves and late observers are not reached.",
  ["src/cosim/execution.cpp", "src/cosim/algorithm/fixed_step_algorithm.cpp"],
  [("step()", "execution::impl::step"), ("timed_out tolerance", "execution::impl::timed_out"), ("finished set", "fixed_step_algorithm::impl::do_step")],
  ["observer and manipulator callbacks", "execution::current_time"])

p("C06", "The worker pool runs every task once and waits for all of them",
  "Every task submitted to the worker pool is executed exactly once, on the caller if the pool has no workers. Waiting for the pool returns only when every task submitted before has finished, with its effects visible to the waiter, and it always returns; destroying the pool runs what was submitted and joins all workers. If a worker thread cannot be created, constructing the pool fails with an exception and leaves nothing running.",
  ["schedules", "fault_sequences"],
  "0-6 workers, arbitrary submit/wait/destroy histories, tasks that block or take arbitrarily long, spurious wake-ups, thread-creation failure at any worker",
  "There is no test of the pool itself; lost wake-ups and early returns need a specific interleaving.",
  ["src/cosim/utility/thread_pool.hpp"],
  [("work queue, pending count and condition variables", "thread_pool"), ("rollback on failed construction", "thread_pool::thread_pool")],
  ["thread_pool interface"])

p("C07", "Real-time pacing neither runs ahead nor lags on purpose",
  "When real-time execution with a positive target factor is enabled, no step starts before the real time at which it is due: simulated time since the start of pacing (start, resume or the latest change of the real-time settings) never exceeds elapsed real time multiplied by the factor by more than 0.1 ms of real time. Pacing never waits longer than that requires, so a late simulation catches up without any pause; with real-time execution disabled or a non-positive factor it never waits at all. This holds whatever the duration of the steps, however late or early sleeps return, whatever happens to the wall clock, and for settings changed at any moment by another thread.",
  ["schedules", "fault_sequences", "histories"],
  "all step durations, stalls, interrupted and late sleeps, wall-clock jumps, pauses of any length, setting changes at any instant, all factors",
  "The tests check average pace with real sleeps and wide tolerances on an idle machine; overload, pauses and concurrent setting changes are not reached.",
  ["src/cosim/timer.cpp", "src/cosim/execution.cpp", "include/cosim/timer.hpp"],
  [("pacing baseline reset", "real_time_timer::impl::start"), ("sleep until due", "real_time_timer::impl::sleep")],
  ["simulated monotonic clock at manipulator::step_commencing", "sleep calls"])

p("C08", "Real-time-factor metrics report what really happened",
  "The published total average real-time factor equals simulated time divided by elapsed real time since the start of measurement (start, resume or the latest change of the real-time settings), and the rolling average equals the same ratio over the latest completed monitoring window (the configured number of steps, or the configured sampling period). Both are readable from any thread at any time and a reader sees only values that were valid at some completed step.",
  ["schedules", "fault_sequences", "histories"],
  "all step durations, stalls, pauses, pacing factors, window settings and setting changes, readers on other threads",
  "Tests only check that an average lies in a wide band after a real run.",
  ["src/cosim/timer.cpp", "include/cosim/timer.hpp"],
  [("metrics update", "real_time_timer::impl::update_real_time_factor")],
  ["real_time_metrics at step boundaries against the simulated clock"])

p("C09", "Last-value reads are consistent snapshots of completed steps",
  "A read of the last values of a slave, made from any thread at any time after the simulation was initialised, returns values that all stem from one and the same completed step of that slave. The step is never older than the latest one fully announced before the read began, never one that has not been completed, and never goes back for a reader; the reads do not disturb the simulation.",
  ["schedules"],
  "all interleavings of 1-4 reader threads with the stepping thread and its workers, all four variable types, decimated slaves",
  "The tests read between runs or at a moment decided by the machine; a torn read needs a switch inside the copy loop.",
  ["src/cosim/observer/last_value_observer.cpp", "src/cosim/observer/slave_value_provider.cpp"],
  [("per-slave lock around copy", "slave_value_provider")],
  ["last_value_observer::get_real/integer/boolean/string"])

p("C10", "Time series are the exact recent history of the observed variables",
  "For every observed variable, the samples returned for a range are the values, step numbers and times of exactly the steps the slave completed in that range since observation began, in order and without gaps or duplicates, limited to the latest N steps where N is the buffer size. This also holds for reads made from other threads while the simulation runs, each of which sees the history up to one moment; synchronised series pair values of the same step, and step-number queries return the steps that bound the requested time range.",
  ["schedules", "histories", "configurations"],
  "all buffer sizes, ranges, step-size ratios, histories of start/stop observing and stepping, and interleavings of readers with the stepping thread",
  "Tests read a few fixed ranges after the run; wrap-around of the buffer while other threads read is not reached.",
  ["src/cosim/observer/time_series_observer.cpp"],
  [("bounded sample maps under a lock", "time_series_observer::single_slave_observer")],
  ["time_series_observer::get_*"])

p("C11", "Log files contain exactly the recorded steps",
  "For every logged slave the log file holds a header naming the configured variables and then exactly one row for each step the slave completed while recording was on (thinned by the configured decimation), in order, with that step's time, number and values; a metadata file describes the same variables. Rows are complete in the file when recording is stopped or the observer is destroyed; if the process dies at an arbitrary moment, what is in the file is an unaltered prefix of this. A configuration that makes no sense (an unknown variable, a decimation by zero, a file that cannot be parsed) is refused with an exception, and the simulation goes on as if it had not been tried.",
  ["crash_points", "schedules", "histories", "configurations"],
  "all logging configurations, step-size ratios, start/stop-recording histories on any thread, crash at any point",
  "Tests check that files exist or contain some lines after an orderly run; crash points and interleavings with recording control are not reached.",
  ["src/cosim/observer/file_observer.cpp", "include/cosim/observer/file_observer.hpp"],
  [("per-slave writer", "file_observer::slave_value_writer")],
  ["files in the log directory"])

p("C12", "Recording can be controlled from any thread, and I/O errors stay contained",
  "Starting, stopping and querying recording from any threads behaves as if the calls took effect one at a time: a start succeeds only if not recording, a stop only if recording, every other call is refused, and the reported state is the one the calls that succeeded have led to, with rows recorded accordingly. A failure to create a log file is reported as an exception by the step that needed it; errors while writing lose at most log data, never alter rows already written and never change simulation results.",
  ["schedules", "fault_sequences"],
  "all interleavings of start/stop/query calls of 1-3 threads with the stepping thread; open, write, short-write and close errors at any point",
  "The dynamic-logging test toggles recording from one thread with real sleeps; racing toggles and I/O errors are not reached.",
  ["src/cosim/observer/file_observer.cpp"],
  [("recording flags", "file_observer::start_recording / stop_recording"), ("writer lock", "slave_value_writer::mutex_")],
  ["file_observer::is_recording/start_recording/stop_recording", "files in the log directory", "slave interface"])

p("C13", "Overrides from any thread apply exactly once, in order, and can be undone",
  "An override or reset of a variable requested by any thread takes effect from the next step that begins after the request returned at the latest, and requests for the same variable take effect in the order they were made; none is lost, applied twice or applied to another variable. While overridden, the slave (for inputs) or its consumers (for outputs) see the override value in every step; after a reset they see the value they would have seen without any override, from the next step on. The reported set of modified variables is exactly the overridden ones.",
  ["schedules", "histories"],
  "all histories of override/reset by 1-3 threads on all variable types and causalities, all interleavings with the stepping thread",
  "Tests override between runs from the test thread; requests racing with the start of a step are not reached.",
  ["src/cosim/manipulator/override_manipulator.cpp", "src/cosim/slave_simulator.cpp", "src/cosim/execution.cpp"],
  [("action queue under a lock", "override_manipulator::add_action / step_commencing"), ("modifiers", "slave_simulator.cpp: get_variable_cache / set_variable_cache")],
  ["slave::set_*_variables", "observers", "execution::get_modified_variables"])

p("C14", "Scenario events fire once, on time and in order, and leave nothing behind",
  "Every event of a loaded scenario is applied exactly once, at the first step that begins at or after its time relative to the loading of the scenario; events due at the same step are applied in the order of the scenario. The scenario ends at the first step after all events have fired and its end time has passed, and when it ends, is aborted or is replaced by another scenario, every variable it touched behaves from the next step on as if the scenario had never been loaded. A scenario file that is invalid or cannot be read completely is refused with an exception and changes nothing.",
  ["histories", "configurations", "schedules"],
  "all scenarios (event times, ties, end times, variable types, causalities), loading, aborting and reloading at any step, step-size ratios, worker counts and interleavings",
  "Tests run two or three fixed scenarios; ties, replacement and abort at arbitrary steps are not reached.",
  ["src/cosim/manipulator/scenario_manager.cpp", "src/cosim/slave_simulator.cpp"],
  [("remaining/executed events", "scenario_manager::impl")],
  ["slave::set_*_variables", "observers", "scenario_manager::is_scenario_running"])

p("C15", "File locks exclude across threads and processes",
  "At any moment a lock file is held either by one exclusive holder or by any number of shared holders, counting all threads of all processes and all spellings of the file's path. A holder never loses its lock before releasing it whatever other locks on the same file are created, tried or destroyed; a released or crashed holder's lock becomes available, waiting requests are then granted, and a non-blocking attempt never waits and succeeds if nobody holds or takes a conflicting lock meanwhile.",
  ["schedules", "crash_points", "fault_sequences"],
  "1-3 processes with 1-3 threads each, all histories of blocking and non-blocking shared/exclusive locking, unlocking and destruction, process crash at any point, all interleavings",
  "The existing test uses two threads with real sleeps and no second process; it cannot reach the interleavings in which the OS drops a process's locks.",
  ["src/cosim/utility/concurrency.cpp", "src/cosim/utility/concurrency.hpp"],
  [("per-file process-wide mutex", "file_lock::get_file_mutex"), ("shared count over the OS lock", "file_lock::boost_wrapper")],
  ["file_lock interface"])

p("C16", "The persistent file cache is safe under concurrency and crashes",
  "While a read-write handle to a cache directory exists no other handle to it exists anywhere, while read-only handles exist nobody gets write access, and a directory is never removed or replaced while a handle to it exists, counting all threads of all processes. Contents written under a handle that was released are seen unchanged by later handles until a cleanup or a later writer; cleanup removes every directory that is not in use. A process that dies at any point leaves a cache that works for the others, and as long as holders eventually release, every request is eventually answered.",
  ["schedules", "crash_points", "histories"],
  "1-3 processes with 1-3 threads each issuing arbitrary get-rw/get-ro/release/cleanup histories on 1-3 keys, crash of a process at any point, all interleavings",
  "The cache has no test at all in this configuration, and the failures need several processes.",
  ["src/cosim/file_cache.cpp", "src/cosim/utility/concurrency.cpp"],
  [("root lock and per-directory locks", "persistent_file_cache::impl")],
  ["persistent_file_cache interface", "directory contents"])

p("C17", "Temporary caches and directories own exactly what they create",
  "A temporary directory is created empty under a name no other live one has, even when many are created at once, exists while its owner lives, and is removed with all its contents when the last owner goes away; nothing outside it is ever removed. A temporary cache hands out at most one read-write or any number of read-only handles per key, refuses conflicting and unknown requests with an exception, keeps the directories of live handles even after the cache itself is gone, and removes everything afterwards; a file-system error leaves neither a handle nor a broken key behind.",
  ["histories", "fault_sequences"],
  "all histories of create/move/destroy and get/release on several keys, mkdir failures and undeletable entries at any point",
  "The tests cover one orderly history; handle lifetimes that outlive the cache, several handles and file-system errors are not reached.",
  ["src/cosim/file_cache.cpp", "src/cosim/utility/filesystem.cpp", "src/cosim/utility/uuid.cpp"],
  [("ownership tracking", "temporary_file_cache::impl"), ("RAII directory", "utility::temp_dir")],
  ["temporary_file_cache and temp_dir interfaces", "file-system calls"])

p("C18", "Extraction from an archive is complete and correct, or fails",
  "Extracting one entry or a whole archive either returns normally with every extracted file byte-for-byte equal to the archived content and nothing written outside the target directory, or ends with an exception. This holds under read errors, truncated or corrupted archives, and failures or short writes anywhere in creating, writing or closing the output files; archives with entries at absolute paths are refused. When all archive objects are gone, whatever they were moved or assigned to, no files are left open.",
  ["fault_sequences", "inputs"],
  "all archives (nested directories, empty and large files, stored and deflated), I/O errors, bit flips and truncation at any point",
  "The test extracts one good archive on a healthy disk.",
  ["src/cosim/utility/zip.cpp"],
  [("error checks around read and write", "zip.cpp: copy_to_stream / extract_file_as / extract_all")],
  ["target directory contents", "exceptions"])

p("C19", "An imported FMU is complete and current, whatever happened before",
  "A successful FMU import gives an object of the right FMI version whose directory holds all the files, byte for byte, of one version of that FMU, no older than the file had when the import began. This holds whatever earlier imports, by any thread or process with the same cache, were interrupted by process death or failed with I/O errors, and whatever others import or clean up at the same time. As long as an importer's FMU object lives, its files do not change, and importing it again with the same importer gives the same object. When everything has been destroyed, no files are left open. An import that cannot succeed, such as while the disk is full, reports an error rather than trying for ever, and one that nothing prevents neither fails nor waits for ever: several importers, threads and processes use the same unpacked FMU at the same time.",
  ["histories", "crash_points", "fault_sequences", "schedules"],
  "1-3 processes with 1-2 threads and importers each, importing, releasing (also from other threads) and cleaning up 1-3 FMUs in several versions, copies and layouts; process crashes and I/O errors at any point",
  "The import tests need network-dependent FMU libraries that are not built here, and only import one FMU in one healthy process.",
  ["src/cosim/fmi/importer.cpp", "src/cosim/file_cache.cpp", "src/cosim/utility/zip.cpp"],
  [("unpacking into the file cache", "fmi::importer::import"), ("weak pointer caches", "fmi::importer")],
  ["importer interface", "contents of the FMU directory"])

p("C20", "FMUs are used as the FMI standard allows, whatever fails",
  "Every FMU instance is driven through exactly the call sequence of the FMI standard for its version (load, instantiate, set up, initialise, get/set/step, terminate, free, unload), by one thread at a time, with contiguous step times, and is released exactly once, whichever of its or other instances' calls fail and in whatever order the user drops importer, FMU, slaves and execution: after an error nothing but freeing is called, after a fatal error nothing at all, and its directory exists until it is unloaded. Values of all types, initial values and model descriptions pass unchanged between FMUs, connections and observers. Every failed call ends the operation with an exception that carries the message the failed instance logged, and never that of another instance, of the same or another simulation in the process.",
  ["histories", "fault_sequences", "schedules"],
  "1-3 FMUs of both FMI versions with 1-8 variables, 1-3 successive or simultaneous simulations with 1-4 instances in up to 3 worker threads, any status from any FMI call, any order of dropping references",
  "The FMI tests need the FMI Library, which is not available here, and use well-behaved FMUs only.",
  ["src/cosim/fmi/v1/fmu.cpp", "src/cosim/fmi/v2/fmu.cpp", "src/cosim/fmi/importer.cpp", "src/cosim/fmi/glue.cpp"],
  [("wrappers of FMI functions", "fmi::v1::slave_instance, fmi::v2::slave_instance")],
  ["calls into the FMI Library (simulated)", "exceptions", "observed values"])

p("C21", "A loaded system is exactly the one described, or loading fails",
  "Loading a system structure (an OSP configuration from a directory or file, or an SSP from a directory, .ssd file or .ssp archive, with any parameter set and component stepping settings) and building an execution from it gives exactly the described system: its simulators with their models, step sizes and initial values of all types, its functions, its connections one by one and by variable groups at any level of nesting, its start time, stop time, step size and algorithm. If the configuration is invalid, refers to something that does not exist, or cannot be read completely, loading or building ends with an exception instead; it never gives a different system, crashes, hangs or terminates the process. This holds however many threads load configurations at the same time, whichever file operations fail or return less than requested, and a failed load leaves nothing behind.",
  ["inputs", "fault_sequences", "schedules"],
  "all systems of 1-4 simulators, connection kinds, nested variable groups, functions, parameter sets, forms of packaging, names that need escaping; 22 kinds of invalid configuration; failing and short reads and other failing file operations; 1-3 threads",
  "Tests load a few good configurations, one at a time, from a healthy disk, and compare only a few of the resulting values.",
  ["src/cosim/osp_config_parser.cpp", "src/cosim/ssp/ssp_loader.cpp", "src/cosim/ssp/ssp_parser.cpp", "src/cosim/system_structure.cpp", "src/cosim/orchestration.cpp", "src/cosim/execution.cpp", "src/cosim/utility/zip.cpp"],
  [("XML parsing and validation", "osp_config_parser.cpp, ssp_parser.cpp"), ("translation to a system structure", "load_osp_config, ssp_loader::load"), ("building the execution", "inject_system_structure")],
  ["load_osp_config, ssp_loader, inject_system_structure", "slave interface of the simulated models"])

p("C22", "Remote FMUs behave like local ones, and losing them is an ordinary failure",
  "Slaves of FMUs on this or another computer (the proxyfmu URI scheme) behave exactly as local ones do: a reference to a file, relative, absolute or percent-encoded, is resolved to that file on the computer and port it names, or refused if it is invalid or the file does not exist; the model description is translated without change; every call arrives in the documented order, one at a time, with contiguous times and the values that were set, and all values come back unchanged. A bad status, an exception, a refused connection, or a process, computer or connection that dies at any moment, before or after it has handled a request, ends the simulation with an exception that names the slaves that failed; it never ends or hangs the process, a slave that failed is only freed, and every remote slave is freed exactly once, after it has been terminated if it was running.",
  ["fault_sequences", "schedules", "inputs"],
  "all sets of 1-3 remote FMUs and 1-4 slaves, all kinds of references, delays, and failures at every call, before or after it is handled",
  "The tests of remote FMUs need a running server and are not built here; no test loses one.",
  ["src/cosim/proxy/proxy_uri_sub_resolver.cpp", "src/cosim/proxy/remote_fmu.cpp", "src/cosim/proxy/remote_slave.cpp", "src/cosim/orchestration.cpp"],
  [("reference resolution", "proxy_uri_sub_resolver::lookup_model"), ("errors and destruction", "remote_slave::call, ~remote_slave"), ("description translation", "parse_model_description")],
  ["model_uri_resolver::lookup_model", "slave interface of remote slaves", "exceptions from execution::step / simulate_until"])

p("C23", "Executions in one process neither affect nor depend on one another",
  "Whatever a user does with one execution, with all observers and manipulators in use (single steps, runs, asynchronous runs, overrides, scenarios, real-time settings, recording to files, time series, breaking connections, failing slaves), gives the same results, notifications, log files, reports and exceptions as when it is done alone in a new process: what other executions with slaves of the same or other names did before or do at the same time in other threads makes no difference, and neither does the number of worker threads. All the observers of one execution see the same values. Executions share no memory that they access without synchronisation.",
  ["schedules", "histories", "configurations"],
  "all pairs and triples of executions, all operation sequences of a user, all worker counts and interleavings",
  "Every test process runs one execution, and no test uses all features together; state that leaks from one execution to another shows only with a second one.",
  ["src/cosim/execution.cpp", "src/cosim/slave_simulator.cpp", "src/cosim/algorithm/fixed_step_algorithm.cpp", "src/cosim/observer", "src/cosim/manipulator"],
  [("per-execution state", "pimpl classes"), ("process-wide state", "log::logger, thread pool, locale and stream settings")],
  ["execution interface", "slave interface", "log files"])

p("C24", "Connections are made or refused, and take effect from then on",
  "Whenever a connection is requested, before the simulation or between its steps, it is either made or refused with an exception. It is refused if a variable, function variable (instance) or entity does not exist, if the variables have different types, the wrong causality or an unsupported type, or if the input already has a source, be it a slave or a function. From then on the input gets the values of its source, at the steps the documented data exchange prescribes; when it is disconnected, it keeps its value, and it can be connected again. A slave that is removed takes its connections with it. Refused requests, including initial values that are given too late or for unknown variables, change nothing: the simulation goes on as if they had not been made. No request ends the process or makes a later step fail.",
  ["histories", "inputs", "schedules"],
  "all systems, all histories of connections, disconnections and mistaken requests before and between steps",
  "Tests make a few valid connections before the simulation; what comes of connections made or removed between steps depends on step sizes, decimation of functions and the moment.",
  ["src/cosim/execution.cpp", "src/cosim/algorithm/fixed_step_algorithm.cpp", "src/cosim/slave_simulator.cpp"],
  [("validation of connections", "execution::impl::connect_variables_impl"), ("bookkeeping of connections", "fixed_step_algorithm::impl")],
  ["execution interface", "slave interface"])

p("C25", "Modifiers run once per step on the current value, and what they return is used",
  "A modifier that a manipulator has set for an input or output variable is called exactly once in each step of the variable's slave, with the variable's current unmodified value and the size of that step, and after the initialisation at no other time: not in steps in which the slave does not take part, not before it is set, and not after it has been replaced or removed. The slave (for an input) or everybody else, that is connections and observers (for an output), get what it returned. A modifier with a state keeps it from call to call; modifiers of different slaves may run at the same time, but never while their slave executes a call. The modifier set last counts, whichever manipulator set it; when it is removed the unmodified values are back in the slave's next step. The variables reported as modified are exactly those with a modifier. A request for a variable that has not been exposed is refused and changes nothing.",
  ["histories", "inputs", "schedules"],
  "all systems, manipulators, modifiers, and moments at which they are set, replaced or removed, under any schedule",
  "Tests use a few constant modifiers on slaves that step every time; how often a modifier runs, with which values and for which step size depends on step size ratios, on whether the input was set in that step and on when it was set or removed.",
  ["src/cosim/slave_simulator.cpp", "src/cosim/execution.cpp", "include/cosim/manipulator/manipulator.hpp"],
  [("caches and modifiers", "slave_simulator::impl (get_variable_cache, set_variable_cache)"), ("modified variables", "execution::get_modified_variables")],
  ["manipulator interface", "slave interface", "thread seam"])

p("C26", "An execution works with any co-simulation algorithm, whatever step lengths it chooses",
  "For an algorithm whose steps have varying lengths, and in whose steps only some slaves complete a step of their own, execution, observers, manipulators, scenarios and real-time pacing behave as they do for a fixed step length. The algorithm is set up and initialised once, and is told about slaves (with their step size hints) and connections before that; each of its steps begins where the previous one ended. Simulating to a target makes the smallest number of steps, but at least one, after which the remaining time is less than a hundredth of the last step. Each step is reported once, with its number, its end and its own length, and exactly those slaves are reported which have completed a step; time series, last values and logs hold the values, numbers and times of those steps, and a query for the step numbers of a period answers for the times as they were. Scenario events happen at the first step that begins at or after their time. With pacing, no step begins before its time, and the reported real-time factor lies within what was measured. When the algorithm fails, the caller gets its exception, and no step is made or reported afterwards.",
  ["histories", "inputs", "schedules"],
  "all algorithms (step lengths, sets of finished slaves, failures), systems, targets and schedules",
  "Tests use the one fixed-step algorithm of the library, so nothing that depends on the length of each single step can be seen to differ.",
  ["include/cosim/algorithm/algorithm.hpp", "src/cosim/execution.cpp", "src/cosim/timer.cpp", "src/cosim/observer/slave_value_provider.cpp", "src/cosim/observer/time_series_observer.cpp", "src/cosim/manipulator/scenario_manager.cpp"],
  [("stepping and targets", "execution::impl::step, simulate_until, timed_out"), ("pacing", "timer.cpp"), ("step numbers", "time_series_observer::get_step_numbers")],
  ["algorithm interface", "slave interface", "observer and manipulator interfaces", "clock and thread seams"])

p("C27", "User code is driven as documented, and what it throws reaches the caller",
  "Functions are used as their interface documents: they are called one call at a time, only in steps, never while a slave executes a call; an output is read only after the function has been calculated and before an input is set again, a returned string is not used after a further call, every call names a variable that exists, and a function is calculated exactly once in each step in which all its targets are due (in every step if it has none), and only then. What a function, observer or manipulator throws in a step, whatever its type, reaches the caller of the step or run, directly or through the future, unchanged; what a modifier throws is reported like a failure of its slave, which is still told when the simulation has ended. In either case the call makes no further calls to user code, the simulation is no longer reported as running, and the process goes on. After a failed function or modifier the simulation is refused to go on. After a failed observer or manipulator it can go on: the step that an observer was being told about counts as made, the one that a manipulator was told about has not begun, the initialisation is not repeated, and slaves, functions and the observers added before see the same as if nothing had failed.",
  ["fault_sequences", "histories", "schedules"],
  "all functions, observers, manipulators and modifiers, every call at which they fail, all systems and ways to run them",
  "The functions and observers in the tests never fail and do not check how they are used.",
  ["include/cosim/function/function.hpp", "include/cosim/observer/observer.hpp", "src/cosim/execution.cpp", "src/cosim/algorithm/fixed_step_algorithm.cpp", "src/cosim/slave_simulator.cpp"],
  [("function calls", "fixed_step_algorithm::impl::calculate_and_transfer"), ("failures", "execution::impl::step, run"), ("modifier failures", "slave_simulator::impl::set_variables, get_variables, end_simulation")],
  ["function interface", "observer and manipulator interfaces", "slave interface", "thread seam"])

p("C28", "Running out of memory is an ordinary failure of the operation that needed it",
  "When memory cannot be allocated in any operation on an execution, its observers or manipulators, or in any thread of a running simulation, that operation throws, and nothing else happens: the process is not terminated, nothing waits for ever, no lock stays held, no slave is still executing when the call has returned, and no memory is used that has been released. A slave, function, observer, manipulator, connection, initial value, observation or override that could not be added or made for that reason leaves no trace (a refused slave, for instance, is released and never called, later ones get the indexes they would have had, and other values are unaffected), and can be tried again. A run or step that fails for lack of memory is no longer reported as running; the simulation can then either be continued, with the results it would have had, or refuses every further step without calling a slave.",
  ["fault_sequences", "histories", "schedules"],
  "every allocation of every operation, in every thread, all systems, observers and manipulators, all interleavings",
  "No test makes an allocation fail; the consequence depends on which of an operation's allocations fails and on what the other threads do meanwhile.",
  ["src/cosim/execution.cpp", "src/cosim/algorithm/fixed_step_algorithm.cpp", "src/cosim/slave_simulator.cpp", "src/cosim/manipulator/override_manipulator.cpp", "src/cosim/observer/time_series_observer.cpp", "src/cosim/observer/slave_value_provider.cpp", "src/cosim/utility/thread_pool.hpp"],
  [("rollback of additions", "execution::impl::add_slave, add_function, connect_variables_impl"), ("waiting for tasks", "fixed_step_algorithm::impl::do_step, for_each_simulator"), ("variable caches", "slave_simulator.cpp: get_variable_cache, set_variable_cache")],
  ["execution, observer and manipulator interfaces", "slave interface", "operator new", "thread seam"])

p("C30", "URI parsing, resolution and comparison follow RFC 3986",
  "Parsing, normalising, resolving and comparing URIs, percent-encoding and conversion between file paths and file URIs give the results RFC 3986 defines for every input.",
  ["inputs"], "all strings", "Tests sample a few URIs.",
  ["src/cosim/uri.cpp"], [("parser", "uri.cpp")], ["cosim::uri interface"])
p("C32", "Function blocks and time conversions compute what they document",
  "Linear transformation and vector sum compute their documented formula for every parameter set, and conversions between floating-point and integer time preserve sums as documented.",
  ["inputs"], "all inputs", "Tests sample a few inputs.",
  ["src/cosim/function/linear_transformation.cpp", "src/cosim/function/vector_sum.cpp", "include/cosim/time.hpp"],
  [("formulas", "see files")], ["function interface, time.hpp"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
