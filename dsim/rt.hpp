// Internal declarations of the simulation runtime. The runtime uses no instrumented templates in hot
// paths and is itself compiled without instrumentation.
#ifndef DSIM_RT_HPP
#define DSIM_RT_HPP
#include "dsim.hpp"

#include <pthread.h>
#include <stdint.h>
#include <string.h>

namespace dsim
{

constexpr int MAXT = 64; // threads per run
constexpr int MAXVP = 8;

struct SEnt
{
    uint32_t tid;
    uint32_t to;
    uint64_t lev;
};
struct FEnt
{
    uint16_t kind;
    uint16_t tid;
    uint32_t n;
    uint64_t val;
};
constexpr size_t MAXW = 1 << 16, MAXS = 1 << 18, MAXF = 1 << 15, MAXLOG = 1 << 20, MAXC = 192;

struct Counter
{
    char name[48];
    uint64_t v;
    int is_max;
};

struct Result // lives in shared memory
{
    int status; // 0 unfinished, 1 ok, 2 violation, 3 error of the machinery
    int is_nontrivial;
    char cls[96];
    char msg[8192];
    uint64_t hash, ilv; // full hash (with log); interleaving hash (schedule only)
    uint64_t fold;
    uint64_t events, mems, switches, preempts, mempreempts, simtime, threads;
    uint64_t fired[F_KINDS];
    uint64_t nC;
    Counter C[MAXC];
    uint64_t nW, nS, nF, nlog;
    uint64_t W[MAXW];
    uint64_t Wn[MAXW]; // the ranges
    SEnt S[MAXS];
    FEnt F[MAXF];
    char log[MAXLOG];
};

struct Input // what a replay follows
{
    bool replay = false;
    uint64_t seed = 0;
    uint64_t nW = 0, nS = 0, nF = 0;
    uint64_t* W = nullptr;
    SEnt* S = nullptr; // sorted by (tid, lev)
    FEnt* F = nullptr; // sorted by (kind, tid, n)
};

struct Rng
{
    uint64_t s;
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : static_cast<uint64_t>((static_cast<unsigned __int128>(next()) * n) >> 64); }
    bool chance(uint64_t pm) { return below(1000000) < pm; }
};

enum tstate : int
{
    T_UNUSED,
    T_RUNNABLE,
    T_BLOCKED,
    T_DONE,
    T_DEAD
};

struct VC
{
    uint32_t c[MAXT];
};

constexpr int CSMAX = 64;

struct Thread
{
    int id;
    tstate state;
    const char* wait_kind;
    const void* wait_obj;
    uint64_t wait_seq;
    bool timed;
    uint64_t deadline;
    bool timed_out;
    bool woken;
    uint64_t lev; // local event counter
    uint64_t next_mem; // next lev at which a memory event stops
    uint64_t since_switch;
    int nosim;
    int alloc_on; // 1: allocations may fail, -1: they may not, 0: G.alloc_all
    int vproc;
    uint32_t baton;
    uint64_t prio;
    uint32_t fcount[F_KINDS];
    bool torn; // has just written a part of something
    uint64_t full_hits; // calls that failed because the disk was full
    size_t spos; // replay position in S
    size_t send;
    pthread_t real;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    bool detached, joined;
    char name[24];
    uint64_t mem_seen;
    int tsd_round;
    // race detector
    VC vc;
    VC acq_pending; // relaxed loads, joined by an acquire fence
    VC rel_fence; // clock at the last release fence
    bool has_rel_fence;
    void* cs[CSMAX];
    int csn;
    void* stack_lo;
    size_t stack_sz;
};

struct Global
{
    bool active; // simulation started
    bool alloc_all; // allocations may fail in all threads
    bool replay;
    Input in;
    Result* res;
    sched_config cfg;
    Thread* th[MAXT];
    int nth;
    uint64_t now; // steady, ns
    int64_t wall_off; // wall = now + wall_off
    uint64_t cost;
    uint64_t idle; // time that passed while no thread could run
    uint64_t injected_until; // when the last of them ends
    uint64_t injected; // sum of stalls and late wake-ups
    uint64_t seqno;
    Rng rw, rs, rf, rent;
    uint32_t frate[F_KINDS];
    uint32_t flimit[F_KINDS];
    uint64_t min_deadline; // lower bound over timed waiters
    int policy;
    uint64_t mem_gap;
    uint64_t sw_pm; // switch probability per million (policies 0, 2)
    int victim;
    uint64_t pct_next; // event number of the next priority change point
    uint64_t pct_low;
    bool races;
    bool vp_dead[MAXVP];
    bool spare_main; // F_CRASH does not hit vproc 0
    void (*crash_fn)(void*);
    void* crash_arg;
    bool ending;
    char scratch[256];
    char fault_root[256];
    char allow_root[256];
};
extern Global G;
extern __thread Thread* me;

// scheduler
void event(const char* kind, const void* obj, bool allow_fault = true);
void torn_write();
void mem_event(Thread* t);
bool block(const char* kind, const void* obj, uint64_t deadline /*0: none*/); // false: timed out
int wake_all(const void* obj);
bool wake_one(const void* obj, const char* kind);
void switch_away(bool dead); // current thread cannot run now
void set_next_mem(Thread* t);
void fold_event(uint64_t a, uint64_t b);
[[noreturn]] void end_run(int status);
[[noreturn]] void machinery_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t deadline_from(clockid_t clk, const struct timespec* ts);

// happens-before (no-ops when the race detector is off)
void hb_acquire(const void* a);
void hb_release(const void* a); // join into
void hb_release_store(const void* a); // replace
void hb_fork(Thread* child);
void hb_join(Thread* child);
void hb_clear_range(const void* p, size_t n);
void race_init();

// raw system calls
void heap_init(); // mem.cpp
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);

// fs
void fs_init();
void fs_vproc_died(int vp);

// driver
void child_main(const Input& in, Result* res, const char* scratch); // never returns

struct InRt // runtime section: nothing in here is an event
{
    InRt() { if (me) ++me->nosim; }
    ~InRt() { if (me) --me->nosim; }
};

template<typename T>
T real_fn(const char* name);

} // namespace dsim
#endif
