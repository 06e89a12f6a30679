// Deterministic simulation runtime: interface for workloads and oracles.
//
// One run = one process = one set of decision streams (W workload, S schedule, F faults).
#ifndef DSIM_HPP
#define DSIM_HPP
#include <cstdarg>
#include <cstddef>
#include <cstdint>

namespace dsim
{

// ---- fault kinds -----------------------------------------------------------
enum fault_kind : int
{
    F_STALL, // a thread is not scheduled for some virtual time
    F_SPURIOUS, // spurious condition variable wake-up
    F_NOTIFY_PICK, // notify_one wakes another waiter than the first
    F_EINTR, // a sleep is interrupted by a signal
    F_LATE_SLEEP, // a sleep or timed wait ends late
    F_WALL_JUMP, // the wall clock jumps
    F_THREAD_FAIL, // pthread_create fails
    F_CRASH, // the (virtual) process dies here
    F_OPEN_FAIL,
    F_WRITE_FAIL,
    F_WRITE_SHORT,
    F_CLOSE_FAIL,
    F_READ_FAIL,
    F_READ_SHORT,
    F_MKDIR_FAIL,
    F_REMOVE_FAIL,
    F_RENAME_FAIL,
    F_SEEK_FAIL,
    F_LOCK_FAIL, // fcntl lock call fails (ENOLCK)
    F_TRYLOCK_FAIL, // spurious failure of a try_lock (allowed by the standard)
    F_SLAVE, // a mock slave misbehaves
    F_SLOW, // a mock slave's step takes long
    F_ALLOC_FAIL, // operator new throws bad_alloc
    F_USER, // harness-specific
    F_KINDS
};
const char* fault_name(int k);

// ---- workload draws (to be made by the main thread, before/between phases) --
uint64_t draw(uint64_t n); // uniform in [0, n); 0 is the simplest choice
inline bool draw_bool(unsigned percent) { return draw(100) >= 100 - percent; }
inline int64_t draw_range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo + 1))); }

// ---- fault draws -------------------------------------------------------------
// Enables a fault kind for this run, with a probability per opportunity.
void enable_fault(int kind, unsigned per_million);
// At most `n` faults of this kind in this run (default: unlimited)
void limit_fault(int kind, unsigned n);
void disable_fault(int kind);
// One opportunity: 0 = no fault, otherwise 1 + uniform value in [0, range)
uint64_t fault(int kind, uint64_t range = 1);
uint64_t faults_fired(int kind);

// ---- scheduling ----------------------------------------------------------------
struct sched_config
{
    int policy = -1; // -1: drawn; 0 random walk, 1 PCT, 2 sticky, 3 victim
    int64_t mem_gap = -1; // mean number of memory accesses between preemption points; 0 = off, -1: drawn
    uint64_t max_events = 2'000'000; // bound on scheduling events
    uint64_t max_mem = 60'000'000; // bound on memory events
    unsigned cost_ns = 0; // virtual time per event; 0: drawn
    int races = -1; // race detector: 0 off, 1 on, -1 drawn
    unsigned ncpu = 4; // what hardware_concurrency() reports
};
// Must be called by the run function before anything else that matters; starts the simulation.
void start(const sched_config&);
bool active();

void point(const char* what); // a scheduling point in harness code
void advance(uint64_t ns); // virtual work: the calling thread is busy for `ns`
uint64_t now(); // virtual steady clock (ns)
uint64_t wall(); // virtual wall clock (ns since epoch)
void set_wall(uint64_t ns);
uint64_t idle_time(); // virtual time that passed because no thread could run
uint64_t injected_until(); // when the last of them ends
uint64_t injected_delay(); // sum of the stalls and late wake-ups injected so far
uint64_t seq(); // strictly increasing event stamp (each call gives a new one)
int tid();
int live_threads(); // simulated threads not yet finished (including the caller)
int threads_created();
void name_thread(const char* name);
const char* thread_state(int tid); // for diagnosis

// Wait (in virtual time, other threads run) until no other thread can make progress without time
// passing or `ns` of virtual time have passed.
void settle(uint64_t ns);

// ---- virtual processes --------------------------------------------------------
void set_vproc(int p); // for the calling thread and the threads it creates
int vproc();
bool vproc_alive(int p);
void kill_vproc(int p); // from another vproc
int vproc_locks_held(int p);
void spare_main_process(bool on); // F_CRASH does not hit vproc 0

// Called when F_CRASH fires in vproc 0. The run ends afterwards. No-sim context.
void on_crash(void (*handler)(void*), void* arg);

// ---- oracle sections ----------------------------------------------------------
// No preemption, no race detection, no faults while one of these is alive.
struct NoSim
{
    NoSim();
    ~NoSim();
    NoSim(const NoSim&) = delete;
};

// Allocations (operator new) of the calling thread may fail while one of these is alive (F_ALLOC_FAIL).
struct AllocFaults
{
    AllocFaults();
    ~AllocFaults();
    AllocFaults(const AllocFaults&) = delete;
    int saved;
};
void alloc_faults_in_threads(bool on); // ... in all threads
// Not while one of these is alive (for callbacks into harness code).
struct NoAllocFaults
{
    NoAllocFaults();
    ~NoAllocFaults();
    NoAllocFaults(const NoAllocFaults&) = delete;
    int saved;
};

// ---- reporting -----------------------------------------------------------------
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // part of the run's hash
void count(const char* name, uint64_t n = 1); // named statistics ("probe")
void note_max(const char* name, uint64_t v);
void nontrivial(); // harness marks the run as non-trivial
void fold(uint64_t v); // fold a value into the state fingerprint of the run
const char* scratch(); // per-run scratch directory
bool replaying();

// Files: faults apply below this directory only (default: scratch directory)
void fs_fault_root(const char* path);
void fs_allow_root(const char* path); // destructive calls below it are allowed (scratch by default)
void fs_virtual_mtime(bool on); // give changed files virtual times
void fs_disk_full(bool on); // from now on, no data can be written and no directories made below the fault root
uint64_t fs_disk_full_hits(); // how many calls of this thread failed for this reason
int fs_open_count(bool locks = true); // tracked open descriptors below scratch

// ---- registration ------------------------------------------------------------
extern const char* property_id; // defined by the harness
} // namespace dsim

void dsim_setup(); // harness: once per process, before any run (single-threaded)
void dsim_run(); // harness: one run

#endif
