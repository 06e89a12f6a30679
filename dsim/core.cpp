// Scheduler, virtual time, decision streams, threads and synchronisation.
#include "rt.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <linux/futex.h>
#include <new>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

namespace dsim
{
Global G;
__thread Thread* me __attribute__((tls_model("initial-exec"))) = nullptr;

static const char* const fault_names[F_KINDS] = {
    "stall", "spurious-wakeup", "notify-pick", "eintr", "late-sleep", "wall-clock-jump", "thread-create-fail",
    "process-crash", "open-fail", "write-fail", "short-write", "close-fail", "read-fail", "short-read", "mkdir-fail",
    "remove-fail", "rename-fail", "seek-fail", "lock-call-fail", "trylock-fail", "slave-fault", "slow-step",
    "alloc-fail", "user"};
const char* fault_name(int k) { return k >= 0 && k < F_KINDS ? fault_names[k] : "?"; }

// ---- raw system calls --------------------------------------------------------
long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

template<typename T>
T real_fn(const char* name)
{
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) {
        fprintf(stderr, "dsim: no real %s\n", name);
        abort();
    }
    return reinterpret_cast<T>(p);
}

static void futex_wait(uint32_t* a, uint32_t v) { raw_syscall(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(uint32_t* a) { raw_syscall(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

// ---- hashing -------------------------------------------------------------------
static inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
static uint64_t strhash(const char* s)
{
    uint64_t h = 1469598103934665603ull;
    while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull;
    return h;
}
void fold_event(uint64_t a, uint64_t b)
{
    G.res->ilv = mix(mix(G.res->ilv, a), b);
}
void fold(uint64_t v)
{
    if (G.res) G.res->fold = mix(G.res->fold, v);
}

// ---- ending a run ----------------------------------------------------------------
void end_run(int status)
{
    Result* r = G.res;
    G.ending = true;
    if (me) ++me->nosim;
    G.now = dsim::now();
    if (me) me->mem_seen = me->lev;
    r->simtime = G.now;
    r->threads = G.nth;
    r->hash = mix(mix(r->hash, r->ilv), mix(G.now, r->events));
    r->hash = mix(r->hash, r->fold);
    r->status = status;
    raw_syscall(SYS_exit_group, 0);
    for (;;) {}
}

// The name of the scratch directory differs from run to run.
static int hide_scratch(char* s, int n)
{
    const size_t k = strlen(G.scratch);
    if (!k) return n;
    s[n] = 0;
    for (char* p = s; (p = strstr(p, G.scratch)); ++p) {
        memmove(p + 1, p + k, s + n - (p + k) + 1);
        *p = '~';
        n -= (int)k - 1;
    }
    return n;
}

void fail(const char* cls, const char* fmt, ...)
{
    if (me) ++me->nosim;
    Result* r = G.res;
    if (!r) {
        fprintf(stderr, "dsim: failure outside a run: %s\n", cls);
        abort();
    }
    snprintf(r->cls, sizeof r->cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(r->msg, sizeof r->msg, fmt, ap);
    va_end(ap);
    hide_scratch(r->msg, (int)strlen(r->msg));
    dsim::log("VIOLATION %s: %.1500s", r->cls, r->msg);
    end_run(2);
}

void machinery_error(const char* fmt, ...)
{
    Result* r = G.res;
    va_list ap;
    va_start(ap, fmt);
    if (r) {
        snprintf(r->cls, sizeof r->cls, "machinery");
        vsnprintf(r->msg, sizeof r->msg, fmt, ap);
    } else {
        vfprintf(stderr, fmt, ap);
        fputc('\n', stderr);
    }
    va_end(ap);
    if (!r) abort();
    end_run(3);
}

void log(const char* fmt, ...)
{
    Result* r = G.res;
    if (!r) return;
    InRt rt;
    char buf[2048];
    int n = 0;
    if (G.active) n = snprintf(buf, sizeof buf, "[%llu t%d %llu.%06llums] ", (unsigned long long)r->events, me ? me->id : -1, (unsigned long long)(dsim::now() / 1000000), (unsigned long long)(dsim::now() % 1000000));
    va_list ap;
    va_start(ap, fmt);
    int k = vsnprintf(buf + n, sizeof buf - n - 1, fmt, ap);
    va_end(ap);
    n = n + k > (int)sizeof buf - 2 ? (int)sizeof buf - 2 : n + k;
    n = hide_scratch(buf, n);
    buf[n++] = '\n';
    uint64_t h = r->hash;
    for (int i = 0; i < n; ++i) h = (h ^ (unsigned char)buf[i]) * 1099511628211ull;
    r->hash = h;
    if (r->nlog + n < MAXLOG) {
        memcpy(r->log + r->nlog, buf, n);
        r->nlog += n;
    }
}

static Counter* counter(const char* name)
{
    Result* r = G.res;
    for (uint64_t i = 0; i < r->nC; ++i)
        if (!strcmp(r->C[i].name, name)) return &r->C[i];
    if (r->nC >= MAXC) return nullptr;
    Counter* c = &r->C[r->nC++];
    snprintf(c->name, sizeof c->name, "%s", name);
    return c;
}
void count(const char* name, uint64_t n)
{
    if (!G.res) return;
    InRt rt;
    if (auto c = counter(name)) c->v += n;
}
void note_max(const char* name, uint64_t v)
{
    if (!G.res) return;
    InRt rt;
    if (auto c = counter(name)) {
        c->is_max = 1;
        if (v > c->v) c->v = v;
    }
}
void nontrivial()
{
    if (G.res) G.res->is_nontrivial = 1;
}
const char* scratch() { return G.scratch; }
bool replaying() { return G.replay; }

// ---- W stream ------------------------------------------------------------------
uint64_t draw(uint64_t n)
{
    Result* r = G.res;
    if (!r) return 0;
    uint64_t v;
    if (n < 1) n = 1;
    if (G.replay) {
        v = r->nW < G.in.nW ? G.in.W[r->nW] : 0;
        if (v >= n) v = n - 1;
    } else {
        v = G.rw.below(n);
    }
    if (r->nW >= MAXW) machinery_error("too many workload draws");
    r->W[r->nW] = v;
    r->Wn[r->nW] = n;
    ++r->nW;
    return v;
}

// ---- F stream ------------------------------------------------------------------
void enable_fault(int k, unsigned pm)
{
    G.frate[k] = pm;
    if (!G.flimit[k]) G.flimit[k] = 0xffffffff;
}
void limit_fault(int k, unsigned n) { G.flimit[k] = n; }
void disable_fault(int k)
{
    G.frate[k] = 0;
    G.flimit[k] = 0;
}
uint64_t faults_fired(int k) { return G.res->fired[k]; }

static uint64_t fault_rt(Thread* t, int k, uint64_t range)
{
    Result* r = G.res;
    // Crashes are keyed by the thread's event counter (they can happen at any memory access), the other
    // kinds by the number of the opportunity.
    uint32_t n = k == F_CRASH ? (uint32_t)t->lev : ++t->fcount[k];
    uint64_t v = 0;
    if (G.replay) {
        if (!G.in.nF) return 0;
        size_t lo = 0, hi = G.in.nF;
        while (lo < hi) {
            size_t m = (lo + hi) / 2;
            const FEnt& e = G.in.F[m];
            bool less = e.kind != k ? e.kind < k : e.tid != t->id ? e.tid < t->id : e.n < n;
            if (less)
                lo = m + 1;
            else
                hi = m;
        }
        if (lo < G.in.nF) {
            const FEnt& e = G.in.F[lo];
            if (e.kind == k && e.tid == t->id && e.n == n) v = 1 + (e.val - 1) % (range ? range : 1);
        }
    } else {
        if (!G.frate[k] || !G.flimit[k]) return 0;
        if (!G.rf.chance(G.frate[k])) return 0;
        v = 1 + G.rf.below(range);
        if (G.flimit[k] != 0xffffffff) --G.flimit[k];
    }
    if (v) {
        if (r->nF >= MAXF) machinery_error("too many faults");
        r->F[r->nF++] = FEnt{(uint16_t)k, (uint16_t)t->id, n, v};
        ++r->fired[k];
        r->ilv = mix(r->ilv, 0xFA000000u + k * 64 + v);
    }
    return v;
}

uint64_t fault(int k, uint64_t range)
{
    Thread* t = me;
    if (!t || !G.active || t->nosim) return 0;
    InRt rt;
    uint64_t v = fault_rt(t, k, range);
    if (v) dsim::log("fault %s %llu", fault_names[k], (unsigned long long)v);
    return v;
}

// ---- scheduling -----------------------------------------------------------------
static void describe_threads(char* buf, size_t sz)
{
    size_t n = 0;
    for (int i = 0; i < G.nth && n + 100 < sz; ++i) {
        Thread* t = G.th[i];
        const char* st = t->state == T_RUNNABLE ? "runnable" : t->state == T_BLOCKED ? "blocked" : t->state == T_DONE ? "done" : "dead";
        n += snprintf(buf + n, sz - n, "t%d(%s,vp%d) %s%s%s; ", i, t->name, t->vproc, st, t->state == T_BLOCKED ? " on " : "", t->state == T_BLOCKED ? t->wait_kind : "");
    }
}

static void set_next_mem_lev(Thread* t)
{
    uint64_t cp = (t->lev | 0x3fff) + 1; // next multiple of 16384
    uint64_t nm = cp;
    if (G.replay) {
        while (t->spos < t->send && G.in.S[t->spos].lev <= t->lev) ++t->spos;
        if (t->spos < t->send && G.in.S[t->spos].lev < nm) nm = G.in.S[t->spos].lev;
        for (size_t i = 0; i < G.in.nF; ++i) {
            const FEnt& e = G.in.F[i];
            if (e.kind == F_CRASH && e.tid == t->id && e.n > t->lev && e.n < nm) nm = e.n;
        }
    } else if (G.mem_gap) {
        uint64_t d = t->lev + 1 + G.rs.below(2 * G.mem_gap);
        if (d < nm) nm = d;
    }
    t->next_mem = nm;
}
void set_next_mem(Thread* t) { set_next_mem_lev(t); }

static void expire_timers()
{
    if (G.now < G.min_deadline) return;
    uint64_t md = ~0ull;
    for (int i = 0; i < G.nth; ++i) {
        Thread* t = G.th[i];
        if (t->state == T_BLOCKED && t->timed) {
            if (t->deadline <= G.now) {
                t->state = T_RUNNABLE;
                t->timed_out = true;
                t->timed = false;
                t->wait_obj = nullptr;
            } else if (t->deadline < md)
                md = t->deadline;
        }
    }
    G.min_deadline = md;
}

static int runnables(int* out)
{
    int n = 0;
    for (int i = 0; i < G.nth; ++i)
        if (G.th[i]->state == T_RUNNABLE) out[n++] = i;
    return n;
}

// How the choice is made: `pre`: 0 sync event, 1 memory preemption point, 2 current cannot run,
// 3 yield; `forced`: the fairness rule demands another default.
static int choose(Thread* t, int pre, bool forced)
{
    int run[MAXT];
    int n = runnables(run);
    if (n == 0) return -1;
    bool cur = t->state == T_RUNNABLE;
    int def;
    {
        int nextid = run[0];
        for (int i = 0; i < n; ++i)
            if (run[i] > t->id) {
                nextid = run[i];
                break;
            }
        def = (cur && !forced && pre != 3) ? t->id : nextid;
    }
    if (n == 1) return run[0];
    int pick = def;
    if (G.replay) {
        while (t->spos < t->send && G.in.S[t->spos].lev < t->lev) ++t->spos;
        if (t->spos < t->send && G.in.S[t->spos].lev == t->lev) {
            int to = G.in.S[t->spos].to;
            if (to < G.nth && G.th[to]->state == T_RUNNABLE) pick = to;
        }
    } else {
        switch (G.policy) {
            case 1: { // PCT
                if (cur && (pre == 3 || forced)) t->prio = --G.pct_low;
                if (cur && G.res->events >= G.pct_next) {
                    t->prio = --G.pct_low;
                    G.pct_next = G.res->events + 1 + G.rs.below(G.rs.chance(500000) ? 60 : 600);
                } else if (cur && pre == 1 && G.rs.chance(60000))
                    t->prio = --G.pct_low;
                uint64_t best = 0;
                for (int i = 0; i < n; ++i)
                    if (G.th[run[i]]->prio > best) {
                        best = G.th[run[i]]->prio;
                        pick = run[i];
                    }
                break;
            }
            case 3: { // starve a victim, otherwise random
                int k = -1;
                if (!cur || pre == 3 || forced || G.rs.chance(pre == 1 ? 600000 : G.sw_pm)) {
                    for (int tries = 0; tries < 4; ++tries) {
                        k = run[G.rs.below(n)];
                        if (k != G.victim || G.rs.chance(20000)) break;
                    }
                } else
                    k = t->id;
                if (cur && t->id == G.victim && !forced && G.rs.chance(500000)) k = run[G.rs.below(n)];
                pick = k;
                if (G.rs.chance(3000)) G.victim = (int)G.rs.below(G.nth);
                break;
            }
            default: // random walk / sticky
                if (!cur || pre == 3 || forced)
                    pick = run[G.rs.below(n)];
                else if (G.rs.chance(pre == 1 ? 700000 : G.sw_pm)) {
                    pick = run[G.rs.below(n)];
                }
        }
    }
    if (pick != def) {
        Result* r = G.res;
        if (r->nS >= MAXS) machinery_error("too many schedule decisions");
        r->S[r->nS++] = SEnt{(uint32_t)t->id, (uint32_t)pick, t->lev};
        if (cur) {
            ++r->preempts;
            if (pre == 1) ++r->mempreempts;
        }
    }
    return pick;
}

static void hand_over(Thread* t, Thread* n, bool wait)
{
    ++G.res->switches;
    G.res->ilv = mix(G.res->ilv, 0x51000000u + n->id);
    __atomic_store_n(&n->baton, 1, __ATOMIC_SEQ_CST);
    futex_wake(&n->baton);
    if (!wait) return;
    while (__atomic_load_n(&t->baton, __ATOMIC_SEQ_CST) == 0) futex_wait(&t->baton, 0);
    __atomic_store_n(&t->baton, 0, __ATOMIC_SEQ_CST);
}

// The current thread cannot go on now (blocked, finished or dead): pick another, advancing the clock if
// needed.
void switch_away(bool gone)
{
    Thread* t = me;
    for (;;) {
        expire_timers();
        int k = choose(t, 2, false);
        if (k >= 0) {
            Thread* n = G.th[k];
            if (n == t) return; // became runnable again through time
            hand_over(t, n, !gone);
            return;
        }
        uint64_t md = ~0ull;
        for (int i = 0; i < G.nth; ++i)
            if (G.th[i]->state == T_BLOCKED && G.th[i]->timed && G.th[i]->deadline < md) md = G.th[i]->deadline;
        if (md == ~0ull) {
            char buf[3000];
            describe_threads(buf, sizeof buf);
            fail("deadlock", "no thread can make progress: %s", buf);
        }
        if (md > G.now) {
            G.idle += md - G.now;
            G.now = md;
        }
        G.min_deadline = 0;
    }
}

static bool trace_on = getenv("DSIM_TRACE") != nullptr;
static void trace(Thread* t, const char* kind)
{
    char b[160];
    int n = snprintf(b, sizeof b, "%llu t%d lev %llu now %llu %s\n", (unsigned long long)G.res->events, t->id, (unsigned long long)t->lev, (unsigned long long)G.now, kind);
    raw_syscall(SYS_write, 2, (long)b, n);
}
static inline void tick(Thread* t)
{
    uint64_t d = t->lev - t->mem_seen;
    t->mem_seen = t->lev;
    G.res->mems += d;
    G.now += d;
}

static void check_caps()
{
    if (G.res->events > G.cfg.max_events || G.res->mems > G.cfg.max_mem) {
        char buf[3000];
        describe_threads(buf, sizeof buf);
        fail("no-progress", "the run did not finish within its step bound (%llu events, %llu memory events): %s", (unsigned long long)G.res->events, (unsigned long long)G.res->mems, buf);
    }
}

static void do_crash(Thread* t);

static void stall(Thread* t, uint64_t v)
{
    static const uint64_t d[6] = {10'000, 100'000, 1'000'000, 10'000'000, 100'000'000, 1'000'000'000};
    t->state = T_BLOCKED;
    t->wait_kind = "stall";
    t->wait_obj = nullptr;
    t->timed = true;
    t->timed_out = false;
    t->deadline = G.now + d[(v - 1) % 6];
    G.injected += d[(v - 1) % 6];
    if (t->deadline > G.injected_until) G.injected_until = t->deadline;
    if (t->deadline < G.min_deadline) G.min_deadline = t->deadline;
    ++t->lev; // every decision has its own number
    tick(t);
    switch_away(false);
    ++t->lev;
    tick(t);
}

static void event_impl(Thread* t, const char* kind, int pre, bool allow_fault)
{
    ++t->nosim;
    ++t->lev;
    tick(t);
    Result* r = G.res;
    ++r->events;
    G.now += G.cost;
    r->ilv = mix(r->ilv, strhash(kind) + t->id);
    if (trace_on) trace(t, kind);
    if ((r->events & 0xff) == 0) check_caps();
    if (allow_fault) {
        uint64_t v;
        if ((G.frate[F_CRASH] || G.replay) && (t->vproc || !G.spare_main)) {
            const unsigned usual = G.frate[F_CRASH];
            if (usual && t->torn) G.frate[F_CRASH] = 250000;
            v = fault_rt(t, F_CRASH, 1);
            G.frate[F_CRASH] = usual;
            if (v) do_crash(t);
        }
        t->torn = false;
        if ((G.frate[F_STALL] || G.replay) && (v = fault_rt(t, F_STALL, 6))) stall(t, v);
    }
    expire_timers();
    bool forced = (t->lev & 0x3fff) == 0;
    int k = choose(t, pre, forced);
    if (k >= 0 && k != t->id) hand_over(t, G.th[k], true);
    if (t->lev >= t->next_mem) set_next_mem_lev(t);
    --t->nosim;
}

void torn_write()
{
    if (me) me->torn = true;
}

void event(const char* kind, const void*, bool allow_fault)
{
    Thread* t = me;
    if (!t || !G.active || t->nosim) return;
    event_impl(t, kind, 0, allow_fault);
}

void mem_event(Thread* t)
{
    ++t->nosim;
    Result* r = G.res;
    tick(t);
    bool forced = (t->lev & 0x3fff) == 0;
    if (forced) check_caps();
    expire_timers();
    if ((G.frate[F_CRASH] || G.replay) && (t->vproc || !G.spare_main) && fault_rt(t, F_CRASH, 1)) do_crash(t);
    int k = choose(t, 1, forced);
    if (k >= 0 && k != t->id) {
        r->ilv = mix(r->ilv, 0x3e000000u + t->id);
        hand_over(t, G.th[k], true);
    }
    set_next_mem_lev(t);
    --t->nosim;
}

bool block(const char* kind, const void* obj, uint64_t deadline)
{
    Thread* t = me;
    ++t->nosim;
    ++t->lev;
    tick(t);
    ++G.res->events;
    if ((G.res->events & 0xff) == 0) check_caps();
    G.res->ilv = mix(G.res->ilv, strhash(kind) + 1000 + t->id);
    if (trace_on) trace(t, kind);
    t->state = T_BLOCKED;
    t->wait_kind = kind;
    t->wait_obj = obj;
    t->wait_seq = ++G.seqno;
    t->timed = deadline != 0;
    t->timed_out = false;
    t->deadline = deadline;
    if (deadline && deadline < G.min_deadline) G.min_deadline = deadline;
    switch_away(false);
    bool ok = !t->timed_out;
    if (t->lev >= t->next_mem) set_next_mem_lev(t);
    --t->nosim;
    return ok;
}

static void make_runnable(Thread* t)
{
    t->state = T_RUNNABLE;
    t->wait_obj = nullptr;
    t->timed = false;
    t->timed_out = false;
}
int wake_all(const void* obj)
{
    int n = 0;
    for (int i = 0; i < G.nth; ++i)
        if (G.th[i]->state == T_BLOCKED && G.th[i]->wait_obj == obj) {
            make_runnable(G.th[i]);
            ++n;
        }
    return n;
}
bool wake_one(const void* obj, const char*)
{
    Thread* w[MAXT];
    int n = 0;
    for (int i = 0; i < G.nth; ++i)
        if (G.th[i]->state == T_BLOCKED && G.th[i]->wait_obj == obj) w[n++] = G.th[i];
    if (!n) return false;
    for (int i = 1; i < n; ++i) // by waiting order
        for (int j = i; j > 0 && w[j]->wait_seq < w[j - 1]->wait_seq; --j) {
            Thread* x = w[j];
            w[j] = w[j - 1];
            w[j - 1] = x;
        }
    int k = 0;
    if (n > 1 && me) {
        uint64_t v = fault_rt(me, F_NOTIFY_PICK, MAXT);
        if (v) k = (int)(v % n);
    }
    make_runnable(w[k]);
    return true;
}

static Thread* new_thread_record()
{
    if (G.nth >= MAXT) fail("too-many-threads", "more than %d threads were created in one run", MAXT);
    void* p = mmap(nullptr, sizeof(Thread), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) machinery_error("mmap failed");
    Thread* t = static_cast<Thread*>(p);
    t->id = G.nth;
    t->state = T_RUNNABLE;
    snprintf(t->name, sizeof t->name, "thread%d", t->id);
    if (!G.replay) t->prio = 1'000'000'000 + G.rs.below(1'000'000'000);
    if (G.replay) {
        size_t i = 0;
        while (i < G.in.nS && (int)G.in.S[i].tid < t->id) ++i;
        t->spos = i;
        while (i < G.in.nS && (int)G.in.S[i].tid == t->id) ++i;
        t->send = i;
    }
    G.th[G.nth++] = t;
    set_next_mem_lev(t);
    t->vc.c[t->id] = 1;
    return t;
}

static pthread_key_t end_key;
static void thread_gone(void* p)
{
    Thread* t = static_cast<Thread*>(p);
    if (++t->tsd_round < 4) { // run after everybody else's destructors
        pthread_setspecific(end_key, p);
        return;
    }
    ++t->nosim;
    ++t->lev;
    tick(t);
    if (trace_on) trace(t, "end");
    t->state = T_DONE;
    wake_all(t);
    me = t;
    switch_away(true);
    me = nullptr;
}

static bool key_made = false;

void start(const sched_config& c)
{
    if (G.active) machinery_error("simulation started twice");
    G.cfg = c;
    G.policy = c.policy >= 0 ? c.policy : (int)draw(4);
    static const uint64_t gaps[] = {0, 2000, 300, 60};
    G.mem_gap = c.mem_gap >= 0 ? (uint64_t)c.mem_gap : gaps[draw(4)];
    static const uint64_t sws[] = {300'000, 30'000, 100'000, 600'000};
    uint64_t s = draw(4);
    G.sw_pm = G.policy == 2 ? sws[s] / 20 : sws[s];
    static const unsigned costs[] = {50, 1000, 10'000, 300};
    G.cost = c.cost_ns ? c.cost_ns : costs[draw(4)];
    G.races = c.races >= 0 ? c.races : draw(2);
    G.pct_low = 900'000'000;
    if (!G.replay) {
        G.victim = (int)G.rs.below(4);
        G.pct_next = G.rs.below(200);
    }
    G.now = 1'000'000'000; // an arbitrary origin
    G.wall_off = 1'600'000'000'000'000'000ll;
    G.min_deadline = ~0ull;
    if (G.races) race_init();
    if (!key_made) {
        pthread_key_create(&end_key, thread_gone);
        key_made = true;
    }
    Thread* t = new_thread_record();
    snprintf(t->name, sizeof t->name, "main");
    t->real = pthread_self();
    me = t;
    G.active = true;
}
bool active() { return G.active; }
void point(const char* what)
{
    event(what, nullptr);
}
void advance(uint64_t ns)
{
    Thread* t = me;
    if (!t || !G.active || t->nosim) return;
    tick(t);
    block("work", nullptr, now() + (ns ? ns : 1));
}
void settle(uint64_t ns) { advance(ns); }
uint64_t idle_time() { return G.idle; }
uint64_t injected_delay() { return G.injected; }
uint64_t injected_until() { return G.injected_until; }
uint64_t now() { return G.now + (me ? me->lev - me->mem_seen : 0); }
uint64_t wall() { return dsim::now() + G.wall_off; }
void set_wall(uint64_t ns) { G.wall_off = (int64_t)ns - (int64_t)now(); }
uint64_t seq() { return ++G.seqno; }
int tid() { return me ? me->id : -1; }
int live_threads()
{
    int n = 0;
    for (int i = 0; i < G.nth; ++i)
        if (G.th[i]->state == T_RUNNABLE || G.th[i]->state == T_BLOCKED) ++n;
    return n;
}
int threads_created() { return G.nth; }
void name_thread(const char* s)
{
    if (me) snprintf(me->name, sizeof me->name, "%s", s);
}
const char* thread_state(int i)
{
    if (i < 0 || i >= G.nth) return "none";
    Thread* t = G.th[i];
    return t->state == T_BLOCKED ? t->wait_kind : t->state == T_RUNNABLE ? "runnable" : t->state == T_DONE ? "done" : "dead";
}
void set_vproc(int p)
{
    if (me) me->vproc = p;
}
int vproc() { return me ? me->vproc : 0; }
bool vproc_alive(int p) { return !G.vp_dead[p]; }
void spare_main_process(bool on) { G.spare_main = on; }
void on_crash(void (*h)(void*), void* a)
{
    G.crash_fn = h;
    G.crash_arg = a;
}
static void kill_threads_of(int p)
{
    G.vp_dead[p] = true;
    for (int i = 0; i < G.nth; ++i) {
        Thread* t = G.th[i];
        if (t->vproc == p && (t->state == T_RUNNABLE || t->state == T_BLOCKED)) {
            t->state = T_DEAD;
            t->timed = false;
            wake_all(t); // joiners are of the same process: irrelevant
        }
    }
    fs_vproc_died(p);
}
static void do_crash(Thread* t)
{
    dsim::log("process %d dies", t->vproc);
    if (t->vproc == 0) {
        ++t->nosim;
        if (G.crash_fn) G.crash_fn(G.crash_arg);
        end_run(1);
    }
    kill_threads_of(t->vproc);
    t->state = T_DEAD;
    switch_away(false); // never comes back
    machinery_error("a dead thread was scheduled");
}
void kill_vproc(int p)
{
    InRt rt;
    dsim::log("process %d is killed", p);
    kill_threads_of(p);
}

AllocFaults::AllocFaults()
    : saved(me ? me->alloc_on : 0)
{
    if (me) me->alloc_on = 1;
}
AllocFaults::~AllocFaults()
{
    if (me) me->alloc_on = saved;
}
void alloc_faults_in_threads(bool on) { G.alloc_all = on; }
NoAllocFaults::NoAllocFaults()
    : saved(me ? me->alloc_on : 0)
{
    if (me) me->alloc_on = -1;
}
NoAllocFaults::~NoAllocFaults()
{
    if (me) me->alloc_on = saved;
}
NoSim::NoSim()
{
    if (me) ++me->nosim;
}
NoSim::~NoSim()
{
    if (me) --me->nosim;
}

// ---- failures of the process under test --------------------------------------------
static void on_signal(int sig)
{
    if (G.ending) raw_syscall(SYS_exit_group, 4);
    const char* n = sig == SIGABRT ? "SIGABRT" : sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "SIGILL";
    char cls[64];
    snprintf(cls, sizeof cls, "crash-%s", n);
    fail(cls, "the process died with %s in thread t%d (%s)", n, me ? me->id : -1, me ? me->name : "?");
}

static void on_terminate()
{
    if (me) ++me->nosim;
    std::type_info* ti = abi::__cxa_current_exception_type();
    if (ti) {
        char what[512] = "";
        try {
            throw;
        } catch (const std::exception& e) {
            snprintf(what, sizeof what, "%s", e.what());
        } catch (...) {
        }
        fail("terminate", "std::terminate in thread t%d (%s); current exception: %s: %s", me ? me->id : -1, me ? me->name : "?", ti->name(), what);
    }
    fail("terminate", "std::terminate in thread t%d (%s), no current exception", me ? me->id : -1, me ? me->name : "?");
}

void child_main(const Input& in, Result* res, const char* scratch)
{
    G.res = res;
    G.in = in;
    G.replay = in.replay;
    snprintf(G.scratch, sizeof G.scratch, "%s", scratch);
    snprintf(G.fault_root, sizeof G.fault_root, "%s", scratch);
    snprintf(G.allow_root, sizeof G.allow_root, "%s", scratch);
    uint64_t s = in.seed;
    Rng x{s};
    G.rw.s = x.next();
    G.rs.s = x.next();
    G.rf.s = x.next();
    G.rent.s = x.next();
    std::set_terminate(on_terminate);
    static char altstack[65536];
    stack_t ss{};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    const int sigs[] = {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL};
    for (int g : sigs) sigaction(g, &sa, nullptr);
    fs_init();
    heap_init();
    try {
        dsim_run();
    } catch (const std::exception& e) {
        fail("unexpected-exception", "%s: %s", typeid(e).name(), e.what());
    } catch (...) {
        fail("unexpected-exception", "unknown type");
    }
    end_run(1);
}

void settle_threads() {}

} // namespace dsim

using namespace dsim;

EXPORT void __assert_fail(const char* expr, const char* file, unsigned line, const char* func)
{
    if (G.res) fail("assert", "%s:%u: %s: assertion `%s' failed", file, line, func ? func : "?", expr);
    fprintf(stderr, "%s:%u: %s: assertion `%s' failed\n", file, line, func ? func : "?", expr);
    abort();
}

// ---- threads -----------------------------------------------------------------------
namespace
{
constexpr size_t STACK = 512 * 1024;

void* trampoline(void* p)
{
    Thread* t = static_cast<Thread*>(p);
    while (__atomic_load_n(&t->baton, __ATOMIC_SEQ_CST) == 0) futex_wait(&t->baton, 0);
    __atomic_store_n(&t->baton, 0, __ATOMIC_SEQ_CST);
    me = t;
    pthread_setspecific(end_key, t);
    return t->ret = t->fn(t->arg);
}
Thread* by_pthread(pthread_t p)
{
    for (int i = G.nth - 1; i >= 0; --i)
        if (G.th[i]->real == p && !G.th[i]->joined) return G.th[i];
    return nullptr;
}
} // namespace

EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    static auto real = real_fn<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    Thread* t = me;
    if (!G.active || !t) return real(out, attr, fn, arg);
    event("create", nullptr);
    InRt rt;
    if (uint64_t v = fault_rt(t, F_THREAD_FAIL, 1)) {
        dsim::log("fault thread-create-fail %llu", (unsigned long long)v);
        return EAGAIN;
    }
    Thread* n = new_thread_record();
    n->fn = fn;
    n->arg = arg;
    n->vproc = t->vproc;
    void* st = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (st == MAP_FAILED) machinery_error("no stack");
    n->stack_lo = st;
    n->stack_sz = STACK;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, st, STACK);
    if (attr) {
        int ds = 0;
        pthread_attr_getdetachstate(attr, &ds);
        pthread_attr_setdetachstate(&a, ds);
        n->detached = ds == PTHREAD_CREATE_DETACHED;
    }
    hb_fork(n);
    int rc = real(out, &a, trampoline, n);
    pthread_attr_destroy(&a);
    if (rc) machinery_error("real pthread_create failed: %d", rc);
    n->real = *out;
    --t->nosim;
    event("created", nullptr);
    ++t->nosim;
    return 0;
}

EXPORT int pthread_join(pthread_t p, void** ret)
{
    static auto real = real_fn<int (*)(pthread_t, void**)>("pthread_join");
    Thread* t = me;
    if (!G.active || !t) return real(p, ret);
    event("join", nullptr);
    Thread* o = by_pthread(p);
    if (!o) return ESRCH;
    if (o == t) return EDEADLK;
    if (o->detached) return EINVAL;
    while (o->state != T_DONE && o->state != T_DEAD) block("join", o, 0);
    InRt rt;
    if (o->state == T_DEAD) { // its process died: the thread never comes back
        o->joined = true;
        return 0;
    }
    hb_join(o);
    o->joined = true;
    real(p, nullptr);
    if (ret) *ret = o->ret;
    return 0;
}

EXPORT int pthread_detach(pthread_t p)
{
    static auto real = real_fn<int (*)(pthread_t)>("pthread_detach");
    if (G.active && me) {
        if (Thread* o = by_pthread(p)) o->detached = true;
    }
    return real(p);
}

// ---- mutexes ---------------------------------------------------------------------------
namespace
{
struct Mx // glibc's layout
{
    int lock;
    unsigned count;
    int owner;
    unsigned nusers;
    int kind;
};
struct Rw
{
    unsigned readers;
    unsigned writer;
};
inline int self() { return me ? me->id + 1 : 0x7ffffff; }

int mx_lock(pthread_mutex_t* pm, uint64_t deadline, bool try_only)
{
    Mx* m = reinterpret_cast<Mx*>(pm);
    event(try_only ? "trylock" : "lock", m);
    InRt rt;
    for (;;) {
        if (m->lock == 0) {
            m->lock = 1;
            m->owner = self();
            m->count = 1;
            hb_acquire(m);
            return 0;
        }
        if (m->owner == self()) {
            int k = m->kind & 3;
            if (k == PTHREAD_MUTEX_RECURSIVE_NP) {
                ++m->count;
                return 0;
            }
            if (try_only) return EBUSY;
            if (k == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
        }
        if (try_only) return EBUSY;
        if (!G.active || !me) {
            fprintf(stderr, "dsim: mutex held outside a run\n");
            abort();
        }
        if (!block("mutex", m, deadline)) return ETIMEDOUT;
    }
}
void mx_release(Mx* m)
{
    m->lock = 0;
    m->owner = 0;
    m->count = 0;
    hb_release(m);
    if (G.active) wake_all(m);
}
} // namespace

namespace dsim
{
uint64_t deadline_from(clockid_t clk, const struct timespec* ts)
{
    int64_t v = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if (clk == CLOCK_REALTIME) v -= G.wall_off;
    if (v <= (int64_t)now()) return now() ? now() : 1;
    return (uint64_t)v;
}
static uint64_t late(uint64_t deadline)
{
    if (!me) return deadline;
    static const uint64_t d[6] = {1'000, 50'000, 1'000'000, 20'000'000, 300'000'000, 3'000'000'000ull};
    uint64_t v = fault_rt(me, F_LATE_SLEEP, 6);
    if (v) {
        dsim::log("fault late-sleep %llu", (unsigned long long)v);
        deadline += d[(v - 1) % 6];
        G.injected += d[(v - 1) % 6];
        if (deadline > G.injected_until) G.injected_until = deadline;
    }
    return deadline;
}
} // namespace dsim

EXPORT int pthread_mutex_lock(pthread_mutex_t* m) { return mx_lock(m, 0, false); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) { return mx_lock(m, 0, true); }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mx_lock(m, deadline_from(CLOCK_REALTIME, ts), false); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { return mx_lock(m, deadline_from(c, ts), false); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* pm)
{
    Mx* m = reinterpret_cast<Mx*>(pm);
    {
        InRt rt;
        if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP && m->count > 1) {
            --m->count;
            return 0;
        }
        mx_release(m);
    }
    event("unlock", m);
    return 0;
}

// ---- readers-writer locks ------------------------------------------------------------------
namespace
{
int rw_lock(pthread_rwlock_t* p, bool write, uint64_t deadline, bool try_only)
{
    Rw* m = reinterpret_cast<Rw*>(p);
    event(write ? "wrlock" : "rdlock", m);
    InRt rt;
    for (;;) {
        if (write ? (m->readers == 0 && m->writer == 0) : m->writer == 0) {
            if (write)
                m->writer = self();
            else
                ++m->readers;
            hb_acquire(m);
            if (write) hb_acquire(reinterpret_cast<char*>(m) + 1);
            return 0;
        }
        if (try_only) return EBUSY;
        if (m->writer == (unsigned)self()) return EDEADLK;
        if (!G.active || !me) abort();
        if (!block(write ? "wrlock" : "rdlock", m, deadline)) return ETIMEDOUT;
    }
}
} // namespace
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* p) { return rw_lock(p, false, 0, false); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* p) { return rw_lock(p, true, 0, false); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) { return rw_lock(p, false, 0, true); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* p) { return rw_lock(p, true, 0, true); }
EXPORT int pthread_rwlock_timedrdlock(pthread_rwlock_t* p, const struct timespec* ts) { return rw_lock(p, false, deadline_from(CLOCK_REALTIME, ts), false); }
EXPORT int pthread_rwlock_timedwrlock(pthread_rwlock_t* p, const struct timespec* ts) { return rw_lock(p, true, deadline_from(CLOCK_REALTIME, ts), false); }
EXPORT int pthread_rwlock_clockrdlock(pthread_rwlock_t* p, clockid_t c, const struct timespec* ts) { return rw_lock(p, false, deadline_from(c, ts), false); }
EXPORT int pthread_rwlock_clockwrlock(pthread_rwlock_t* p, clockid_t c, const struct timespec* ts) { return rw_lock(p, true, deadline_from(c, ts), false); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* p)
{
    Rw* m = reinterpret_cast<Rw*>(p);
    {
        InRt rt;
        if (m->writer) {
            m->writer = 0;
            hb_release(m);
        } else if (m->readers) {
            --m->readers;
            hb_release(reinterpret_cast<char*>(m) + 1); // readers do not synchronise with readers
        }
        if (G.active) wake_all(m);
    }
    event("rwunlock", m);
    return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }

// ---- condition variables ------------------------------------------------------------------------
namespace
{
int cv_wait(pthread_cond_t* c, pthread_mutex_t* pm, uint64_t deadline)
{
    Mx* m = reinterpret_cast<Mx*>(pm);
    event("cvwait", c);
    if (!G.active || !me) abort();
    InRt rt;
    int rc = 0;
    unsigned cnt = m->count;
    uint64_t sp = fault_rt(me, F_SPURIOUS, 1);
    mx_release(m);
    if (deadline) deadline = late(deadline);
    if (sp) {
        dsim::log("fault spurious-wakeup");
        --me->nosim;
        event("spurious", c);
        ++me->nosim;
    } else if (!block("condition", c, deadline))
        rc = ETIMEDOUT;
    while (m->lock != 0) block("mutex", m, 0);
    m->lock = 1;
    m->owner = self();
    m->count = cnt;
    hb_acquire(m);
    return rc;
}
} // namespace
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cv_wait(c, m, 0); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    unsigned wrefs = reinterpret_cast<unsigned*>(c)[9]; // __wrefs: bit 1 = CLOCK_MONOTONIC
    return cv_wait(c, m, deadline_from(wrefs & 2 ? CLOCK_MONOTONIC : CLOCK_REALTIME, ts));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) { return cv_wait(c, m, deadline_from(clk, ts)); }
EXPORT int pthread_cond_signal(pthread_cond_t* c)
{
    event("signal", c);
    {
        InRt rt;
        if (G.active) wake_one(c, "cond");
    }
    event("signalled", c);
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c)
{
    event("broadcast", c);
    {
        InRt rt;
        if (G.active) wake_all(c);
    }
    event("broadcasted", c);
    return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t*) { return 0; }

// ---- once and function-local statics ----------------------------------------------------------------
EXPORT int pthread_once(pthread_once_t* o, void (*fn)())
{
    int* p = reinterpret_cast<int*>(o);
    event("once", p);
    for (;;) {
        if (*p == 2) {
            hb_acquire(p);
            return 0;
        }
        if (*p == 0) {
            *p = 1;
            try {
                fn();
            } catch (...) {
                *p = 0;
                InRt rt;
                if (G.active) wake_all(p);
                throw;
            }
            *p = 2;
            InRt rt;
            hb_release(p);
            if (G.active) wake_all(p);
            return 0;
        }
        InRt rt;
        block("once", p, 0);
    }
}
EXPORT int dsim_guard_acquire(uint64_t* g) __asm__("__cxa_guard_acquire");
EXPORT int dsim_guard_acquire(uint64_t* g)
{
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    for (;;) {
        if (b[0]) {
            hb_acquire(g);
            return 0;
        }
        if (!b[1]) {
            b[1] = 1;
            return 1;
        }
        InRt rt;
        block("static", g, 0);
    }
}
EXPORT void dsim_guard_release(uint64_t* g) __asm__("__cxa_guard_release");
EXPORT void dsim_guard_release(uint64_t* g)
{
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    b[0] = 1;
    b[1] = 0;
    InRt rt;
    hb_release(g);
    if (G.active) wake_all(g);
}
EXPORT void dsim_guard_abort(uint64_t* g) __asm__("__cxa_guard_abort");
EXPORT void dsim_guard_abort(uint64_t* g)
{
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    b[1] = 0;
    InRt rt;
    if (G.active) wake_all(g);
}

// ---- futexes (libstdc++'s futures) ---------------------------------------------------------------------
EXPORT long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && G.active && me) {
        int* addr = reinterpret_cast<int*>(a);
        int op = (int)b & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            event("futexwait", addr);
            InRt rt;
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)c) {
                errno = EAGAIN;
                return -1;
            }
            uint64_t dl = 0;
            if (auto ts = reinterpret_cast<const struct timespec*>(d)) {
                if (op == FUTEX_WAIT)
                    dl = now() + ts->tv_sec * 1000000000ull + ts->tv_nsec;
                else
                    dl = deadline_from((int)b & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
                dl = late(dl);
            }
            if (fault_rt(me, F_SPURIOUS, 1)) {
                --me->nosim;
                event("spurious", addr);
                ++me->nosim;
                errno = EINTR;
                return -1;
            }
            if (!block("futex", addr, dl)) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int k = 0;
            {
                InRt rt;
                while (k < (int)c && wake_one(addr, "futex")) ++k;
            }
            event("futexwake", addr);
            return k;
        }
    }
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// ---- time ------------------------------------------------------------------------------------------------
namespace
{
void maybe_wall_jump()
{
    if (!me || me->nosim) return;
    InRt rt;
    static const int64_t d[6] = {1'000'000'000ll, -1'000'000'000ll, 3'600'000'000'000ll, -3'600'000'000'000ll, 50'000'000ll, -50'000'000ll};
    if (uint64_t v = fault_rt(me, F_WALL_JUMP, 6)) {
        G.wall_off += d[(v - 1) % 6];
        dsim::log("fault wall-clock-jump %llu", (unsigned long long)v);
    }
}
int do_sleep(uint64_t dl, uint64_t* rem)
{
    event("sleep", nullptr);
    maybe_wall_jump();
    InRt rt;
    if (dl <= G.now) return 0;
    uint64_t full = dl - G.now;
    if (uint64_t v = fault_rt(me, F_EINTR, 16)) {
        uint64_t part = full / 16 * (v - 1) + 1;
        if (part > full) part = full;
        dsim::log("fault eintr %llu", (unsigned long long)v);
        block("sleep", nullptr, now() + part);
        *rem = dl > G.now ? dl - G.now : 0;
        return EINTR;
    }
    block("sleep", nullptr, late(dl));
    *rem = 0;
    return 0;
}
} // namespace

EXPORT int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (!G.active || !me) return (int)raw_syscall(SYS_clock_gettime, c, (long)ts);
    event("clock", nullptr);
    maybe_wall_jump();
    ++G.now;
    uint64_t v = G.now;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) v += G.wall_off;
    ts->tv_sec = v / 1000000000ull;
    ts->tv_nsec = v % 1000000000ull;
    return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) {
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
    }
    return 0;
}
EXPORT time_t time(time_t* t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
EXPORT int nanosleep(const struct timespec* req, struct timespec* rem)
{
    if (!G.active || !me) return (int)raw_syscall(SYS_nanosleep, (long)req, (long)rem);
    uint64_t r = 0;
    int rc = do_sleep(now() + req->tv_sec * 1000000000ull + req->tv_nsec, &r);
    if (rc) {
        if (rem) {
            rem->tv_sec = r / 1000000000ull;
            rem->tv_nsec = r % 1000000000ull;
        }
        errno = rc;
        return -1;
    }
    return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec* req, struct timespec* rem)
{
    if (!G.active || !me) return (int)-raw_syscall(SYS_clock_nanosleep, c, flags, (long)req, (long)rem);
    uint64_t r = 0;
    uint64_t dl = flags & TIMER_ABSTIME ? deadline_from(c, req) : now() + req->tv_sec * 1000000000ull + req->tv_nsec;
    int rc = do_sleep(dl, &r);
    if (rc && rem && !(flags & TIMER_ABSTIME)) {
        rem->tv_sec = r / 1000000000ull;
        rem->tv_nsec = r % 1000000000ull;
    }
    return rc;
}
EXPORT int usleep(useconds_t us)
{
    struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
EXPORT unsigned sleep(unsigned s)
{
    struct timespec ts = {(time_t)s, 0}, rem = {0, 0};
    if (nanosleep(&ts, &rem) == 0) return 0;
    return (unsigned)rem.tv_sec;
}
EXPORT int sched_yield()
{
    Thread* t = me;
    if (!t || !G.active || t->nosim) return 0;
    event_impl(t, "yield", 3, true);
    return 0;
}
EXPORT int get_nprocs() { return G.active ? (int)G.cfg.ncpu : 4; }
EXPORT long sysconf(int name)
{
    static auto real = real_fn<long (*)(int)>("sysconf");
    if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return G.active ? (long)G.cfg.ncpu : 4;
    return real(name);
}

// ---- entropy ---------------------------------------------------------------------------------------------
EXPORT int getentropy(void* p, size_t n)
{
    unsigned char* b = static_cast<unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) b[i] = (unsigned char)G.rent.next();
    return 0;
}
EXPORT ssize_t getrandom(void* p, size_t n, unsigned)
{
    (void)!getentropy(p, n);
    return (ssize_t)n;
}
// std::random_device (which would use an instruction of the processor)
EXPORT unsigned int _ZNSt13random_device9_M_getvalEv(void*) { return (unsigned int)G.rent.next(); }
EXPORT uint32_t arc4random() { return (uint32_t)G.rent.next(); }
EXPORT void arc4random_buf(void* p, size_t n) { (void)!getentropy(p, n); }
