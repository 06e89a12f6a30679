"""Per-property build and exploration settings."""
KNOWN_CLASSES = {}
CORE = ["execution.cpp", "algorithm/fixed_step_algorithm.cpp", "slave_simulator.cpp", "timer.cpp", "log/logger.cpp", "exception.cpp", "error.cpp", "model_description.cpp", "system_structure.cpp", "function/utility.cpp", "uri.cpp"]
REAL_CORE = ["execution.cpp", "algorithm/fixed_step_algorithm.cpp", "slave_simulator.cpp", "timer.cpp", "utility/thread_pool.hpp"]
MOCKS = ["slaves (protocol monitors with generated dynamics)", "functions", "probe observers"]
LIBS_Z = ["-lboost_log", "-lboost_thread", "-lboost_filesystem", "-lboost_date_time", "-lzip", "-lyaml-cpp", "-lxerces-c", "-ldl", "-lpthread", "-lz"]

PROPS = {
    "C01": dict(
        sources=CORE, harness=["c01.cpp"],
        runs=(24000, 1500000),
        rule="Each run draws a system (1-4 slaves with all variable types, step-size ratios 1-4, feed-through, 0-2 functions, connections, initial values, 0-4 or default worker threads on 1-5 processors), 1-10 steps and, in half of the runs, disconnections, step-size changes and removals between steps, and compares every input and observed output with a sequential reference model.",
        real=REAL_CORE, stub=MOCKS,
    ),
    "C02": dict(
        sources=CORE, harness=["c02.cpp"],
        runs=(24000, 1500000),
        rule="Each run draws a system of 1-5 slaves with step-size ratios, functions and connections, and 1-4 batches of single steps, runs and asynchronous runs; protocol monitors in every slave, function, observer and manipulator check the call sequence and that nothing is in progress when it must not be.",
        real=REAL_CORE, stub=MOCKS,
    ),
    "C03": dict(
        sources=CORE, harness=["c03.cpp"],
        runs=(30000, 2000000),
        rule="Each run draws a system of 1-5 slaves and one or two planned failures (exceptions of six kinds or an incomplete step, in setup, initialisation, start, stepping, reading or writing variables, at a drawn occurrence), drives it by single steps, a run, or an asynchronous run, and checks the exception, the other slaves, the reported state, attempts to go on, and destruction.",
        real=REAL_CORE, stub=MOCKS,
    ),
    "C04": dict(
        sources=CORE, harness=["c04.cpp"],
        runs=(40000, 2500000),
        rule="Each run draws 1-4 rounds (runs, asynchronous runs with and without a target, single steps), stop requests at once after the request, after a drawn delay, or from 0-2 other threads, and polls of the running state; the recorded history of requests, steps and results is checked afterwards.",
        real=REAL_CORE, stub=MOCKS,
    ),
    "C05": dict(
        sources=CORE, harness=["c05.cpp"],
        runs=(30000, 2000000),
        rule="Each run draws a system of 1-4 slaves with step-size ratios, observers and manipulators added before, between and after the slaves and between steps, and 1-6 batches of single steps, runs and asynchronous runs to targets on and off the step grid; every notification is checked against a counting model.",
        real=REAL_CORE, stub=MOCKS,
    ),
    "C06": dict(
        sources=[], harness=["c06.cpp"], libs=["-ldl", "-lpthread"],
        runs=(40000, 2000000),
        rule="Each run draws a pool of 0-4 workers and 1-4 rounds of up to 6 tasks (plain, long, yielding, submitting another task), with or without waiting, then destroys the pool.",
        real=["utility/thread_pool.hpp"], stub=["tasks"],
    ),
    "C07": dict(
        sources=CORE, harness=["c07.cpp"],
        runs=(30000, 2000000),
        rule="Each run draws a step size, the real cost of a step, settings before and during 1-3 paced runs (factors 0.01-1000, zero and negative, on and off), pauses and stops; a nondeterministic model of pacing on the virtual clock bounds when each step may begin and how long the timer may wait.",
        real=REAL_CORE, stub=["slaves", "clock and sleep (virtual)"],
    ),
    "C08": dict(
        sources=CORE, harness=["c08.cpp"],
        runs=(30000, 2000000),
        rule="As C07, with step-count and sampling-period windows and 0-2 threads reading the metrics; published values are compared with intervals from a nondeterministic model, and values read with the published ones.",
        real=REAL_CORE, stub=["slaves", "clock and sleep (virtual)"],
    ),
    "C09": dict(
        sources=CORE + ["observer/last_value_observer.cpp", "observer/slave_value_provider.cpp"], harness=["c09.cpp"],
        runs=(30000, 2000000),
        rule="Each run draws a system of 1-3 slaves with all variable types, step-size ratios and worker threads, 1-4 reader threads with up to 13 reads each of drawn variables, and 1-3 batches of steps; every read must match one completed step of that slave within the bounds set by the announcements.",
        real=REAL_CORE + ["observer/last_value_observer.cpp", "observer/slave_value_provider.cpp"], stub=MOCKS,
    ),
    "C10": dict(
        sources=CORE + ["observer/time_series_observer.cpp"], harness=["c10.cpp"],
        runs=(30000, 2000000),
        rule="Each run draws a system of 1-3 slaves, a buffer size, 1-4 batches of up to 8 steps with observation of drawn variables started and stopped in between (the observer may join late), and 0-3 threads querying series, step numbers and synchronised series meanwhile; every answer must be the one at some moment within the query.",
        real=REAL_CORE + ["observer/time_series_observer.cpp"], stub=MOCKS,
    ),
    "C11": dict(
        sources=CORE + ["observer/file_observer.cpp"], harness=["c11.cpp"],
        runs=(12000, 600000),
        rule="Each run draws a system of 1-4 slaves, a logging configuration (default, object or XML file: slaves, variables, decimation 1-5, time stamps, precision), 1-4 batches of steps with recording stopped and started in between (the observer may join late), short writes and, in 40 % of the runs, the death of the process at any scheduling point; the files are compared with a reference model.",
        real=REAL_CORE + ["observer/file_observer.cpp", "file system (real files below a scratch directory)"], stub=MOCKS,
    ),
    "C12": dict(
        sources=CORE + ["observer/file_observer.cpp"], harness=["c12.cpp"],
        runs=(16000, 800000),
        rule="Each run either has 1-3 threads that start, stop and query recording while the simulation is stepped, and checks that answers and recorded rows agree with one order of the calls; or injects failures of creating, writing and closing log files, and checks exceptions, that files only grow, rows, and simulation results.",
        real=REAL_CORE + ["observer/file_observer.cpp", "file system (real files below a scratch directory)"], stub=MOCKS,
    ),
    "C13": dict(
        sources=CORE + ["manipulator/override_manipulator.cpp"], harness=["c13.cpp"],
        runs=(24000, 1500000),
        rule="Each run draws a system of 1-3 slaves with inputs, outputs and parameters of all types, step-size ratios, a function and connections, and up to three threads and the main thread that override and reset a few variables of it (also with invalid requests, and while slaves are still being added) during 1-4 batches of steps; a nondeterministic automaton per variable must explain every value that slaves and consumers saw and every reported set of modified variables.",
        real=REAL_CORE + ["manipulator/override_manipulator.cpp"], stub=MOCKS,
    ),
    "C14": dict(
        sources=CORE + ["manipulator/scenario_manager.cpp", "scenario_parser.cpp"], harness=["c14.cpp"],
        runs=(24000, 1500000),
        rule="Each run draws a system of 1-3 slaves with inputs, outputs and parameters of all types, step-size ratios, a function and connections, and 1-5 batches of steps between which scenarios (up to 7 events on few variables, on and between the steps, with and without an end, built in memory or read from JSON or YAML files, some invalid, with failing reads) are loaded, replaced and aborted; all inputs and outputs, the running state and the modified variables are compared with a reference model.",
        real=REAL_CORE + ["manipulator/scenario_manager.cpp", "scenario_parser.cpp", "file system (real files below a scratch directory)"], stub=MOCKS,
    ),
    "C15": dict(
        sources=[], harness=["c15.cpp"], libs=["-ldl", "-lpthread"],
        so_sources=["utility/concurrency.cpp"], so_harness=["c15_so.cpp"], so_libs=[], vprocs=4,
        runs=(90000, 1500000),
        rule="Each run draws 1-3 processes with 1-3 threads each and up to 5 operations per thread (exclusive, shared, blocking, non-blocking and constructor locks, two files at once, objects moved, assigned, reused, created and destroyed idle) on 1-3 lock files under several names, process deaths and restarts, and failing system calls; a model of the holders judges every acquisition and every refusal.",
        real=["utility/concurrency.cpp (one copy per simulated process)", "Boost.Interprocess file locks"], stub=["record locks of the operating system (simulated with POSIX semantics)"],
    ),
    "C16": dict(
        sources=[], harness=["c16.cpp"], libs=["-ldl", "-lpthread"],
        so_sources=["file_cache.cpp", "utility/concurrency.cpp", "utility/filesystem.cpp", "utility/uuid.cpp", "uri.cpp", "error.cpp", "exception.cpp", "log/logger.cpp"], so_harness=["c16_so.cpp"], vprocs=4,
        runs=(40000, 2000000),
        rule="Each run draws 1-3 processes with 1-2 threads each and up to 4 operations per thread (write, read, import as the FMU importer does, clean up, handles held meanwhile) on 1-4 cache entries with awkward names, process deaths at any scheduling point and restarts, and failing system calls; a model of holders and contents judges every handle, refusal and path, and a new process inspects and cleans up the cache at the end.",
        real=["file_cache.cpp: persistent_file_cache (one copy per simulated process)", "utility/concurrency.cpp", "uri.cpp: percent_encode", "file system (real files below a scratch directory)"], stub=["record locks of the operating system (simulated with POSIX semantics)"],
    ),
    "C17": dict(
        sources=["file_cache.cpp", "utility/concurrency.cpp", "utility/filesystem.cpp", "utility/uuid.cpp", "uri.cpp", "error.cpp", "exception.cpp", "log/logger.cpp"], harness=["c17.cpp"],
        runs=(30000, 1500000),
        rule="Each run draws 1-3 threads with up to 16 operations each on temporary directories (created in three kinds of places, filled also with links, moved, destroyed) and temporary caches (created, moved, destroyed before or after their handles; read-write and read-only handles to 1-4 entries with awkward names, released by their own or another thread), and failing system calls; a model of owners, handles and contents judges every request, path and directory.",
        real=["utility/filesystem.cpp", "utility/uuid.cpp", "file_cache.cpp: temporary_file_cache", "file system (real files below a scratch directory)"], stub=["random numbers of the operating system (seeded)"],
    ),
    "C18": dict(
        sources=["utility/zip.cpp", "error.cpp", "exception.cpp"], harness=["c18.cpp"], libs=["-lzip", "-lz", "-lboost_filesystem", "-ldl", "-lpthread"],
        runs=(30000, 1500000),
        rule="Each run draws 1-2 archives (up to 6 entries: nested directories, empty, small, page-sized and large files of several kinds of contents, stored and deflated, data descriptors, comments, entries outside the target, unsupported methods, conflicts; intact, or with a burst of flipped bits in data, sizes or other headers or cut off, before or during extraction) and 1-2 threads with up to 5 operations (open, extract everything or one file, to new, missing or filled directories, query, move), and failing or short system calls; every normal return is compared with the contents that were archived, and every exception must have a cause.",
        real=["utility/zip.cpp", "libzip, zlib (installed libraries)", "file system (real files below a scratch directory)"], stub=[],
    ),
    "C19": dict(
        sources=[], harness=["c19.cpp"], libs=["-ldl", "-lpthread", "-lz"],
        so_sources=["fmi/importer.cpp", "fmi/glue.cpp", "fmi/v1/fmu.cpp", "fmi/v2/fmu.cpp", "file_cache.cpp", "utility/concurrency.cpp", "utility/filesystem.cpp", "utility/uuid.cpp", "utility/zip.cpp", "uri.cpp", "error.cpp", "exception.cpp", "log/logger.cpp"], so_harness=["c19_so.cpp", "../stub/fake_fmilib.cpp"], vprocs=4,
        runs=(30000, 1500000),
        rule="Each run draws 1-3 FMUs (FMI 1 or 2, files in several orders, one or two copies with the same GUID, some invalid) and 1-3 processes with 1-2 threads each that import them into a common persistent cache (or one thread with a temporary cache), keep, release (also by other threads) and clean up, while FMU files are replaced by newer versions, processes die at any scheduling point and are restarted, and system calls fail; every import is compared with the versions that exist, and a new process imports everything at the end.",
        real=["fmi/importer.cpp", "fmi/v1/fmu.cpp, fmi/v2/fmu.cpp (class fmu)", "file_cache.cpp", "utility/zip.cpp", "utility/concurrency.cpp", "libzip", "file system (real files below a scratch directory)"], stub=["FMI Library", "record locks of the operating system (simulated with POSIX semantics)", "file times (virtual)"],
    ),
    "C20": dict(
        sources=CORE + ["observer/last_value_observer.cpp", "observer/slave_value_provider.cpp", "fmi/importer.cpp", "fmi/glue.cpp", "fmi/v1/fmu.cpp", "fmi/v2/fmu.cpp", "file_cache.cpp", "utility/concurrency.cpp", "utility/filesystem.cpp", "utility/uuid.cpp", "utility/zip.cpp"], harness=["c20.cpp", "../stub/fake_fmilib.cpp"], libs=LIBS_Z,
        runs=(60000, 4000000),
        rule="Each run draws 1-3 FMUs (FMI 1 or 2, up to 8 variables of all types, packed or unpacked) and 1-3 simulations, one after another or at the same time in several threads, of 1-4 instances with connections, initial values, 0-5 steps, 0-3 worker threads and references to the importer, FMUs and slaves dropped in a drawn order, also by another thread; calls to the FMUs fail with drawn statuses and messages. A state machine of the FMI standard checks every call.",
        real=REAL_CORE + ["fmi/importer.cpp", "fmi/v1/fmu.cpp", "fmi/v2/fmu.cpp", "fmi/glue.cpp", "file_cache.cpp (temporary_file_cache)", "utility/zip.cpp", "libzip", "observer/last_value_observer.cpp"], stub=["FMI Library and FMUs"],
    ),
    "C21": dict(
        sources=CORE + ["osp_config_parser.cpp", "ssp/ssp_loader.cpp", "ssp/ssp_parser.cpp", "orchestration.cpp", "function/linear_transformation.cpp", "function/vector_sum.cpp", "fmi/importer.cpp", "fmi/glue.cpp", "fmi/v1/fmu.cpp", "fmi/v2/fmu.cpp", "file_cache.cpp", "utility/concurrency.cpp", "utility/filesystem.cpp", "utility/uuid.cpp", "utility/zip.cpp"], harness=["c21.cpp", "../stub/fake_fmilib.cpp"], libs=LIBS_Z,
        runs=(12000, 600000),
        rule="Each run draws 1-2 systems (1-4 simulators of shared or different models, variables of all types, step sizes, initial values or parameter sets, connections one by one and by nested variable groups, linear transformations, sums and vector sums, names that need escaping), writes each as an OSP directory or file or an SSP directory, file or archive, a quarter of them invalid in one of 22 ways, and loads and runs them in 1-3 threads with failing and short reads and other failing file operations; what the simulators receive is compared with a reference model.",
        real=REAL_CORE + ["osp_config_parser.cpp", "ssp/ssp_loader.cpp", "ssp/ssp_parser.cpp", "orchestration.cpp", "system_structure.cpp", "function/linear_transformation.cpp", "function/vector_sum.cpp", "uri.cpp", "utility/zip.cpp", "utility/filesystem.cpp", "Xerces-C, Boost.PropertyTree, libzip", "file system (real files below a scratch directory)"], stub=["models and slaves (protocol monitors with generated dynamics)"],
    ),
    "C22": dict(
        sources=CORE + ["observer/last_value_observer.cpp", "observer/slave_value_provider.cpp", "orchestration.cpp", "proxy/proxy_uri_sub_resolver.cpp", "proxy/remote_fmu.cpp", "proxy/remote_slave.cpp", "fmi/importer.cpp", "fmi/glue.cpp", "fmi/v1/fmu.cpp", "fmi/v2/fmu.cpp", "file_cache.cpp", "utility/concurrency.cpp", "utility/filesystem.cpp", "utility/uuid.cpp", "utility/zip.cpp"], harness=["c22.cpp", "../stub/fake_fmilib.cpp"], libs=LIBS_Z,
        runs=(40000, 2000000),
        rule="Each run draws 1-3 remote FMUs (on this or other computers, found by relative, absolute and percent-encoded references, up to 8 variables of all types) and 1-3 simulations of 1-4 slaves with connections, initial values, 0-5 steps and 0-3 worker threads; calls are delayed, answered with bad statuses or exceptions, processes and computers die at drawn moments, before or after a request is handled, and connections are refused. A state machine at the remote end checks every call, and a reference model every value.",
        real=REAL_CORE + ["proxy/proxy_uri_sub_resolver.cpp", "proxy/remote_fmu.cpp", "proxy/remote_slave.cpp", "orchestration.cpp", "observer/last_value_observer.cpp"], stub=["proxyfmu library, network and remote processes", "FMI Library"],
    ),
    "C23": dict(
        sources=CORE + ["observer/last_value_observer.cpp", "observer/slave_value_provider.cpp", "observer/time_series_observer.cpp", "observer/file_observer.cpp", "manipulator/override_manipulator.cpp", "manipulator/scenario_manager.cpp", "scenario_parser.cpp"], harness=["c23.cpp"],
        runs=(12000, 600000),
        rule="Each run draws 1-3 jobs: a system of 1-3 slaves with a function and connections, at times with a failing slave, all observers and manipulators at once, and 2-11 operations (steps, runs, asynchronous runs, overrides, scenarios, real-time settings, recording, observing, disconnecting). Each job is performed alone and then all at the same time with other numbers of worker threads; everything the users, slaves and log files have seen must be equal, and all the observers of an execution must agree. Unsynchronised access to shared memory is reported too.",
        real=REAL_CORE + ["observer/*.cpp", "manipulator/*.cpp", "file system (real files below a scratch directory)"], stub=MOCKS,
    ),
    "C24": dict(
        sources=CORE, harness=["c24.cpp"],
        runs=(45000, 1500000),
        rule="Each run draws a system of 1-4 slaves and up to 2 functions, and a history of 1-4 batches of steps between which connections are made, removed and made again, a slave may be removed, and requests are made that must be refused (10 kinds); what every slave receives is compared with a reference model of the connections in effect.",
        real=REAL_CORE, stub=MOCKS,
    ),
    "C25": dict(
        sources=CORE, harness=["c25.cpp"],
        runs=(30000, 1500000),
        rule="Each run draws a system of 1-4 slaves and a function, 1-3 manipulators that are added before or after the slaves or between steps, and up to 14 requests to set, replace or remove modifiers (stateless, stateful, counting, passing on) on up to 5 inputs and outputs at drawn moments, some for variables that have not been exposed; the calls of each modifier, what the slaves receive and what observers see are compared with a reference model.",
        real=REAL_CORE, stub=MOCKS,
    ),
    "C26": dict(
        sources=CORE + ["observer/time_series_observer.cpp", "observer/last_value_observer.cpp", "observer/file_observer.cpp", "observer/slave_value_provider.cpp", "manipulator/scenario_manager.cpp", "scenario_parser.cpp"], harness=["c26.cpp"],
        runs=(20000, 1000000),
        rule="Each run draws 1-4 slaves, an algorithm with a sequence of step lengths (1 ns to 0.4 s) and of slaves that finish in each step, possibly a step in which the algorithm fails, and 1-5 batches of steps (single, runs to targets at, near and between communication points, asynchronous runs that are stopped; with and without real-time pacing), watched by the library's observers and with a scenario; everything observed is compared with a reference model.",
        real=REAL_CORE + ["the library's observers and scenario manager"], stub=MOCKS + ["the co-simulation algorithm"],
    ),
    "C27": dict(
        sources=CORE + ["observer/time_series_observer.cpp", "observer/last_value_observer.cpp", "observer/slave_value_provider.cpp"], harness=["c27.cpp"],
        runs=(15000, 1000000),
        rule="Each run draws a system of 1-4 slaves and up to 3 functions that check how they are used (several groups and instances), 0-2 observers or manipulators and possibly a function or modifier that throw (exceptions or other objects) at drawn calls, and 1-6 batches of steps (single, to a target, asynchronous, stopped); exceptions, notifications, calculations, values and the continuation are compared with a reference model.",
        real=REAL_CORE + ["last-value and time-series observers"], stub=MOCKS,
    ),
    "C28": dict(
        sources=CORE + ["manipulator/override_manipulator.cpp", "observer/time_series_observer.cpp", "observer/last_value_observer.cpp", "observer/slave_value_provider.cpp"], harness=["c28.cpp"],
        runs=(15000, 1000000),
        rule="Each run draws a system of 1-4 slaves, functions and connections, observers and manipulators of the library and of a user added at any time, and rates at which allocations fail while the system is built (operations that fail are repeated), while it runs (in all threads), and while it is looked at and modified afterwards; results, notifications, refusals and what is left are compared with a reference model.",
        real=REAL_CORE + ["override manipulator, last-value and time-series observers"], stub=MOCKS,
    ),
}
