// Hooks called by code compiled with -fsanitize=thread: preemption points at memory accesses, simulated
// atomics, and a happens-before race and use-after-free detector.
#include "rt.hpp"

#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
using namespace dsim;

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace
{
// ---- arena -------------------------------------------------------------------
char* arena = nullptr;
size_t arena_used = 0;
constexpr size_t ARENA = 3ull << 30;
void* arena_alloc(size_t n)
{
    if (arena_used + n > ARENA) return nullptr;
    void* p = arena + arena_used;
    arena_used += (n + 63) & ~size_t(63);
    return p;
}

// ---- shadow --------------------------------------------------------------------
struct Cell
{
    uint64_t meta; // 0: empty; clock:32 | tid:8 << 32 | mask:8 << 40 | flags << 48
    void* pc;
};
constexpr uint64_t FL_W = 1ull << 48, FL_AT = 1ull << 49, FL_FREED = 1ull << 50;
struct Gran
{
    Cell c[4];
};
struct Page
{
    Gran g[512];
};
constexpr size_t NPT = 1 << 16;
struct PT
{
    uint64_t key;
    Page* p;
};
PT* pages = nullptr;
size_t npages = 0;
uint64_t last_key = 0;
Page* last_page = nullptr;

Page* find_page(uint64_t key, bool make)
{
    if (key == last_key && last_page) return last_page;
    size_t i = (key * 0x9E3779B97F4A7C15ull) >> 48;
    for (;;) {
        if (pages[i].key == key) break;
        if (pages[i].key == 0) {
            if (!make) return nullptr;
            if (npages > NPT / 2) {
                G.races = false;
                return nullptr;
            }
            Page* p = static_cast<Page*>(arena_alloc(sizeof(Page)));
            if (!p) {
                G.races = false;
                return nullptr;
            }
            pages[i].key = key;
            pages[i].p = p;
            ++npages;
            break;
        }
        i = (i + 1) & (NPT - 1);
    }
    last_key = key;
    last_page = pages[i].p;
    return last_page;
}

// ---- sync variables --------------------------------------------------------------
constexpr size_t NSV = 1 << 16;
struct SV
{
    uint64_t key;
    VC* vc;
};
SV* svs = nullptr;
size_t nsvs = 0;
VC* find_sv(const void* a, bool make)
{
    uint64_t key = reinterpret_cast<uint64_t>(a);
    size_t i = (key * 0x9E3779B97F4A7C15ull) >> 48;
    for (;;) {
        if (svs[i].key == key) return svs[i].vc;
        if (svs[i].key == 0) {
            if (!make) return nullptr;
            VC* v = nsvs > NSV / 2 ? nullptr : static_cast<VC*>(arena_alloc(sizeof(VC)));
            if (!v) {
                G.races = false;
                return nullptr;
            }
            svs[i].key = key;
            svs[i].vc = v;
            ++nsvs;
            return v;
        }
        i = (i + 1) & (NSV - 1);
    }
}
void join(VC& a, const VC& b)
{
    for (int i = 0; i < G.nth; ++i)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
bool on() { return G.races && G.active && me; }

void sym(char* buf, size_t n, void* pc)
{
    Dl_info di;
    if (pc && dladdr(pc, &di) && di.dli_sname)
        snprintf(buf, n, "%s+0x%lx", di.dli_sname, (unsigned long)((char*)pc - (char*)di.dli_saddr));
    else if (pc && dladdr(pc, &di) && di.dli_fbase)
        snprintf(buf, n, "%s@0x%lx", di.dli_fname ? strrchr(di.dli_fname, '/') ? strrchr(di.dli_fname, '/') + 1 : di.dli_fname : "?", (unsigned long)((char*)pc - (char*)di.dli_fbase));
    else
        snprintf(buf, n, "%p", pc);
}

[[noreturn]] void report(const char* cls, Thread* t, void* addr, unsigned sz, bool w, void* pc, const Cell& o)
{
    ++t->nosim;
    char a[300], b[300], st[1800];
    sym(a, sizeof a, pc);
    sym(b, sizeof b, o.pc);
    size_t n = 0;
    st[0] = 0;
    for (int i = t->csn - 1; i >= 0 && i >= t->csn - 8 && n + 320 < sizeof st; --i) {
        if (i >= CSMAX) continue;
        char c[300];
        sym(c, sizeof c, t->cs[i]);
        n += snprintf(st + n, sizeof st - n, " < %s", c);
    }
    fail(cls, "%s of %u bytes by t%d (%s) at %s conflicts with %s by t%d at %s; stack:%s", w ? "write" : "read", sz, t->id, t->name, a, o.meta & FL_FREED ? "free" : o.meta & FL_W ? "write" : "read", (int)((o.meta >> 32) & 0xff), b, st);
}

void access_granule(Thread* t, uint64_t a, unsigned off, unsigned n, bool w, bool at, void* pc)
{
    Page* pg = find_page(a >> 12, true);
    if (!pg) return;
    Gran& g = pg->g[(a >> 3) & 511];
    uint64_t mask = ((1ull << n) - 1) << off;
    uint64_t meta = (uint64_t)t->vc.c[t->id] | (uint64_t)t->id << 32 | mask << 40 | (w ? FL_W : 0) | (at ? FL_AT : 0);
    int store = -1;
    for (int i = 0; i < 4; ++i) {
        uint64_t m = g.c[i].meta;
        if (!m) {
            if (store < 0) store = i;
            continue;
        }
        if (m & FL_FREED) report("use-after-free", t, (void*)(a + off), n, w, pc, g.c[i]);
        unsigned otid = (m >> 32) & 0xff;
        uint64_t omask = (m >> 40) & 0xff;
        uint32_t oclk = (uint32_t)m;
        if ((int)otid == t->id) {
            // replace own entries that are subsumed
            if ((omask & ~mask) == 0 && (w || !(m & FL_W)) && ((m & FL_AT) || !at || w)) store = store < 0 || g.c[store].meta == 0 ? i : store;
            continue;
        }
        if (!(omask & mask)) continue;
        if (!w && !(m & FL_W)) {
            continue;
        }
        if (at && (m & FL_AT)) continue;
        if (oclk > t->vc.c[otid]) report("data-race", t, (void*)(a + off), n, w, pc, g.c[i]);
        if (w && (omask & ~mask) == 0) store = store < 0 || g.c[store].meta == 0 ? i : store; // ordered before us: subsumed by this write
    }
    if (store < 0) {
        // evict one that is ordered before us if possible
        for (int i = 0; i < 4; ++i) {
            uint64_t m = g.c[i].meta;
            if ((uint32_t)m <= t->vc.c[(m >> 32) & 0xff]) {
                store = i;
                break;
            }
        }
        if (store < 0) store = (int)(t->lev & 3);
    }
    g.c[store].meta = meta;
    g.c[store].pc = pc;
}

inline void race_access(Thread* t, void* p, size_t n, bool w, bool at, void* pc)
{
    uint64_t a = reinterpret_cast<uint64_t>(p);
    while (n) {
        unsigned off = a & 7;
        unsigned k = 8 - off < n ? 8 - off : (unsigned)n;
        access_granule(t, a - off, off, k, w, at, pc);
        a += k;
        n -= k;
    }
}

inline __attribute__((always_inline)) void mem(void* p, size_t n, bool w, void* pc)
{
    Thread* t = me;
    if (!t || t->nosim) return;
    if (++t->lev >= t->next_mem) mem_event(t);
    if (G.races) race_access(t, p, n, w, false, pc);
}

void mark_freed(void* p, size_t n)
{
    if (n > 8192) n = 8192;
    uint64_t a = reinterpret_cast<uint64_t>(p), e = a + n;
    uint64_t meta = FL_FREED | FL_W | (uint64_t)me->id << 32 | 0xffull << 40 | 1;
    void* pc = me->csn > 0 && me->csn <= CSMAX ? me->cs[me->csn - 1] : nullptr;
    for (; a + 8 <= e; a += 8) {
        Page* pg = find_page(a >> 12, true);
        if (!pg) return;
        Gran& g = pg->g[(a >> 3) & 511];
        g.c[0].meta = meta;
        g.c[0].pc = pc;
        g.c[1].meta = g.c[2].meta = g.c[3].meta = 0;
    }
}
void check_free(void* p, size_t n) // freeing is a write: races with other threads' accesses are reported
{
    Thread* t = me;
    if (n > 8192) n = 8192;
    uint64_t a = reinterpret_cast<uint64_t>(p), e = a + n;
    for (; a + 8 <= e; a += 8) {
        Page* pg = find_page(a >> 12, false);
        if (!pg) {
            a |= 0xff8;
            continue;
        }
        Gran& g = pg->g[(a >> 3) & 511];
        for (int i = 0; i < 4; ++i) {
            uint64_t m = g.c[i].meta;
            if (!m || (m & FL_FREED)) continue;
            unsigned otid = (m >> 32) & 0xff;
            // atomics are left out: reference counts may be released inside uninstrumented libraries
            if ((int)otid != t->id && !(m & FL_AT) && (m & FL_W) && (uint32_t)m > t->vc.c[otid]) {
                void* pc = t->csn > 0 && t->csn <= CSMAX ? t->cs[t->csn - 1] : nullptr;
                report("data-race", t, (void*)a, 8, true, pc, g.c[i]);
            }
        }
    }
}
} // namespace

namespace dsim
{
void race_init()
{
    arena = static_cast<char*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (arena == MAP_FAILED) machinery_error("no arena");
    arena_used = 0;
    pages = static_cast<PT*>(arena_alloc(NPT * sizeof(PT)));
    svs = static_cast<SV*>(arena_alloc(NSV * sizeof(SV)));
}
void hb_acquire(const void* a)
{
    if (!on()) return;
    if (VC* v = find_sv(a, false)) join(me->vc, *v);
}
void hb_release(const void* a)
{
    if (!on()) return;
    if (VC* v = find_sv(a, true)) join(*v, me->vc);
    ++me->vc.c[me->id];
}
void hb_release_store(const void* a)
{
    if (!on()) return;
    if (VC* v = find_sv(a, true)) *v = me->vc;
    ++me->vc.c[me->id];
}
void hb_fork(Thread* c)
{
    if (!on()) return;
    join(c->vc, me->vc);
    ++me->vc.c[me->id];
}
void hb_join(Thread* c)
{
    if (!on()) return;
    join(me->vc, c->vc);
}
void hb_clear_range(const void* p, size_t n)
{
    if (!on() || !p || !n) return;
    uint64_t a = reinterpret_cast<uint64_t>(p) & ~7ull, e = reinterpret_cast<uint64_t>(p) + n;
    while (a < e) {
        Page* pg = find_page(a >> 12, false);
        uint64_t pe = (a | 0xfff) + 1;
        uint64_t ee = pe < e ? pe : e;
        if (pg) memset(&pg->g[(a >> 3) & 511], 0, ((ee - a + 7) / 8) * sizeof(Gran));
        a = pe;
    }
}
} // namespace dsim

// ---- plain accesses ---------------------------------------------------------------
#define PC __builtin_return_address(0)
EXPORT void __tsan_init() {}
#define RW(N) \
    EXPORT void __tsan_read##N(void* p) { mem(p, N, false, PC); } \
    EXPORT void __tsan_write##N(void* p) { mem(p, N, true, PC); } \
    EXPORT void __tsan_unaligned_read##N(void* p) { mem(p, N, false, PC); } \
    EXPORT void __tsan_unaligned_write##N(void* p) { mem(p, N, true, PC); } \
    EXPORT void __tsan_volatile_read##N(void* p) { mem(p, N, false, PC); } \
    EXPORT void __tsan_volatile_write##N(void* p) { mem(p, N, true, PC); } \
    EXPORT void __tsan_unaligned_volatile_read##N(void* p) { mem(p, N, false, PC); } \
    EXPORT void __tsan_unaligned_volatile_write##N(void* p) { mem(p, N, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
EXPORT void __tsan_read_range(void* p, size_t n) { mem(p, n, false, PC); }
EXPORT void __tsan_write_range(void* p, size_t n) { mem(p, n, true, PC); }
EXPORT void __tsan_vptr_read(void**) {}
EXPORT void __tsan_vptr_update(void**, void*) {}
EXPORT void __tsan_func_entry(void* pc)
{
    Thread* t = me;
    if (!t) return;
    if (t->csn < CSMAX) t->cs[t->csn] = pc;
    ++t->csn;
}
EXPORT void __tsan_func_exit()
{
    Thread* t = me;
    if (t && t->csn > 0) --t->csn;
}

// ---- atomics --------------------------------------------------------------------------
namespace
{
inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

inline void at_before(void* p, size_t n, bool w, void* pc)
{
    Thread* t = me;
    if (!t || t->nosim) return;
    if (++t->lev >= t->next_mem) mem_event(t);
    // every fourth atomic access is a full scheduling point, the others are memory events
    if ((t->lev & 3) == 0) event("atomic", p);
    if (G.races) race_access(t, p, n, w, true, pc);
}
inline void at_load(void* p, int mo)
{
    if (!on() || me->nosim) return;
    VC* v = find_sv(p, false);
    if (!v) return;
    if (is_acq(mo))
        join(me->vc, *v);
    else
        join(me->acq_pending, *v);
}
inline void at_store(void* p, int mo)
{
    if (!on() || me->nosim) return;
    if (is_rel(mo))
        hb_release_store(p);
    else if (VC* v = find_sv(p, true)) {
        if (me->has_rel_fence)
            *v = me->rel_fence;
        else
            memset(v, 0, sizeof *v);
    }
}
inline void at_rmw(void* p, int mo)
{
    if (!on() || me->nosim) return;
    VC* v = find_sv(p, true);
    if (!v) return;
    if (is_acq(mo))
        join(me->vc, *v);
    else
        join(me->acq_pending, *v);
    if (is_rel(mo)) {
        join(*v, me->vc);
        ++me->vc.c[me->id];
    } else if (me->has_rel_fence)
        join(*v, me->rel_fence);
}
} // namespace

#define ATOMICS(BITS, T) \
    EXPORT T __tsan_atomic##BITS##_load(const volatile T* p, int mo) \
    { \
        at_before((void*)p, BITS / 8, false, PC); \
        T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); \
        at_load((void*)p, mo); \
        return v; \
    } \
    EXPORT void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo) \
    { \
        at_before((void*)p, BITS / 8, true, PC); \
        at_store((void*)p, mo); \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo) \
    { \
        at_before((void*)p, BITS / 8, true, PC); \
        at_rmw((void*)p, mo); \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int mo) \
    { \
        at_before((void*)p, BITS / 8, true, PC); \
        at_rmw((void*)p, mo); \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int mo) \
    { \
        at_before((void*)p, BITS / 8, true, PC); \
        at_rmw((void*)p, mo); \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int mo) \
    { \
        at_before((void*)p, BITS / 8, true, PC); \
        at_rmw((void*)p, mo); \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int mo) \
    { \
        at_before((void*)p, BITS / 8, true, PC); \
        at_rmw((void*)p, mo); \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int mo) \
    { \
        at_before((void*)p, BITS / 8, true, PC); \
        at_rmw((void*)p, mo); \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int mo) \
    { \
        at_before((void*)p, BITS / 8, true, PC); \
        at_rmw((void*)p, mo); \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); \
    } \
    EXPORT int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) \
    { \
        at_before((void*)p, BITS / 8, true, PC); \
        bool ok = __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (ok) \
            at_rmw((void*)p, mo); \
        else \
            at_load((void*)p, fmo); \
        return ok; \
    } \
    EXPORT int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) \
    { \
        at_before((void*)p, BITS / 8, true, PC); \
        bool ok = __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (ok) \
            at_rmw((void*)p, mo); \
        else \
            at_load((void*)p, fmo); \
        return ok; \
    } \
    EXPORT T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) \
    { \
        at_before((void*)p, BITS / 8, true, PC); \
        bool ok = __atomic_compare_exchange_n(p, &e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (ok) \
            at_rmw((void*)p, mo); \
        else \
            at_load((void*)p, fmo); \
        return e; \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

EXPORT void __tsan_atomic_thread_fence(int mo)
{
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
    if (!on() || me->nosim) return;
    if (is_acq(mo)) join(me->vc, me->acq_pending);
    if (is_rel(mo)) {
        me->rel_fence = me->vc;
        me->has_rel_fence = true;
        ++me->vc.c[me->id];
    }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---- allocation ---------------------------------------------------------------------------
namespace
{
size_t usable(void* p);
inline void* fresh(void* p)
{
    if (p && on()) {
        size_t n = usable(p);
        hb_clear_range(p, n);
    }
    return p;
}
inline void gone(void* p)
{
    if (p && on() && !G.ending) {
        size_t n = usable(p);
        if (!me->nosim) {
            check_free(p, n);
            mark_freed(p, n);
        } else
            hb_clear_range(p, n);
    }
}
} // namespace

// The heap of a run. Its addresses depend on the run alone, not on what the parent process or threads outside the
// simulation have allocated, since some code orders things by address. Only the thread that holds the token (or the
// main thread before the simulation starts) uses it. Freed blocks are reused as late as possible, so that uses after
// the end of their lifetime are seen, and new ones are filled with a pattern, so that uses of uninitialised memory
// have an effect.
namespace
{
constexpr size_t HEAP = 16ull << 30;
char *heap_lo = nullptr, *heap_hi = nullptr, *heap_next = nullptr, *heap_mapped = nullptr;
pthread_t heap_main;
struct Hdr
{
    uint32_t cls, off; // off: distance of the user's address from that of the block
    uint64_t size;
};
struct FreeBlock
{
    FreeBlock* next;
};
struct Class
{
    FreeBlock *head, *tail;
    size_t n;
};
constexpr int NCLASS = 64 + 4 * 24;
Class classes[NCLASS];
size_t (*real_usable)(void*) = nullptr;
uintmax_t (*real_remove_all_ec)(const void*, void*) = nullptr;
uintmax_t (*real_remove_all)(const void*) = nullptr;

inline size_t class_size(int c)
{
    if (c < 64) return 16 * (size_t)(c + 1);
    const int k = (c - 64) / 4, j = (c - 64) % 4;
    return (1024ull << k) / 4 * (size_t)(5 + j);
}
inline int class_of(size_t n)
{
    if (n <= 1024) return n ? (int)((n - 1) / 16) : 0;
    const int k = 63 - __builtin_clzll((n - 1) >> 10); // 1024<<k < n <= 2048<<k
    const size_t q = (1024ull << k) / 4;
    return 64 + 4 * k + (int)((n - 1 - (1024ull << k)) / q);
}
inline bool heap_here() { return heap_lo && (G.active ? me != nullptr : pthread_self() == heap_main); }
inline bool in_heap(const void* p) { return p >= heap_lo && p < heap_hi; }
inline Hdr* hdr(void* p) { return reinterpret_cast<Hdr*>(static_cast<char*>(p) - sizeof(Hdr)); }

void* heap_alloc(size_t n, bool zero)
{
    const int c = class_of(n);
    if (c >= NCLASS) return nullptr;
    const size_t sz = class_size(c);
    Class& k = classes[c];
    if (k.n > (c < 64 ? 64u : c < 96 ? 8u : 0u)) {
        FreeBlock* b = k.head;
        k.head = b->next;
        --k.n;
        *hdr(b) = {(uint32_t)c, 0, n};
        if (zero)
            memset(b, 0, n);
        else
            memset(b, 0xA5, n < 4096 ? n : 4096);
        return b;
    }
    if (heap_next + sz + sizeof(Hdr) > heap_hi) return nullptr;
    if (heap_next + sz + sizeof(Hdr) > heap_mapped && sz < 65536) { // one system call instead of many page faults
        const size_t chunk = 256 << 10;
        if (heap_mapped < heap_next) heap_mapped = heap_lo + (heap_next - heap_lo) / 4096 * 4096;
        raw_syscall(SYS_madvise, (long)heap_mapped, (long)chunk, 23 /* MADV_POPULATE_WRITE */);
        heap_mapped += chunk;
    }
    char* p = heap_next + sizeof(Hdr);
    heap_next += sz + sizeof(Hdr);
    *hdr(p) = {(uint32_t)c, 0, n};
    if (!zero) memset(p, 0xA5, n < 4096 ? n : 4096);
    return p;
}
void heap_free(void* p)
{
    Hdr* h = hdr(p);
    const uint32_t c = h->cls;
    if (c >= (uint32_t)NCLASS) { // freed twice or never allocated
        if (G.res && G.active && !G.ending) fail("invalid-free", "free() of an address that is not allocated");
        return;
    }
    char* b = static_cast<char*>(p) - h->off;
    h->cls = ~0u;
    if (!heap_here()) return; // not deterministic: never used again
    FreeBlock* f = reinterpret_cast<FreeBlock*>(b);
    hdr(f)->cls = ~0u;
    f->next = nullptr;
    Class& k = classes[c];
    if (k.n++)
        k.tail->next = f;
    else
        k.head = f;
    k.tail = f;
}
size_t usable(void* p)
{
    if (in_heap(p)) return hdr(p)->size;
    if (!real_usable) return 0;
    return real_usable(p);
}
void* heap_memalign(size_t a, size_t n)
{
    if (a <= 16) return heap_alloc(n, false);
    char* p = static_cast<char*>(heap_alloc(n + a, false));
    if (!p) return nullptr;
    char* q = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(p) + a - 1) & ~(uintptr_t)(a - 1));
    if (q != p) {
        const Hdr h = *hdr(p);
        *hdr(q) = {h.cls, (uint32_t)(q - p), n};
    }
    return q;
}
} // namespace
// Allocations by code which is no part of what is tested and which cannot cope when one fails: Xerces ends the
// process, or throws what it cannot catch, and std::filesystem::path destroys what it has not made yet.
namespace
{
struct Caller
{
    const void* at;
    bool exempt;
} callers[4096];
bool exempt(const void* caller)
{
    Caller& c = callers[(reinterpret_cast<uintptr_t>(caller) >> 1) % 4096];
    if (c.at != caller) {
        Dl_info i{};
        c.exempt = dladdr(caller, &i) && i.dli_fname && (strstr(i.dli_fname, "libxerces") || (strstr(i.dli_fname, "libstdc++") && (!i.dli_sname || strstr(i.dli_sname, "10filesystem")))); // no name: internal
        c.at = caller;
    }
    return c.exempt;
}
} // namespace
void dsim::heap_init()
{
    real_usable = reinterpret_cast<size_t (*)(void*)>(dlsym(RTLD_NEXT, "malloc_usable_size"));
    real_remove_all_ec = reinterpret_cast<uintmax_t (*)(const void*, void*)>(dlsym(RTLD_NEXT, "_ZNSt10filesystem10remove_allERKNS_7__cxx114pathERSt10error_code"));
    real_remove_all = reinterpret_cast<uintmax_t (*)(const void*)>(dlsym(RTLD_NEXT, "_ZNSt10filesystem10remove_allERKNS_7__cxx114pathE"));
    heap_main = pthread_self();
    void* p = mmap(reinterpret_cast<void*>(0x200000000000), HEAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) machinery_error("no heap");
    heap_mapped = heap_next = heap_lo = static_cast<char*>(p);
    heap_hi = heap_lo + HEAP;
}
EXPORT void* malloc(size_t n) { return fresh(heap_here() ? heap_alloc(n, false) : __libc_malloc(n)); }
EXPORT void* calloc(size_t a, size_t b)
{
    size_t n;
    if (!heap_here()) return fresh(__libc_calloc(a, b));
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    return fresh(heap_alloc(n, true));
}
EXPORT void free(void* p)
{
    gone(p);
    if (in_heap(p))
        heap_free(p);
    else
        __libc_free(p);
}
EXPORT void* realloc(void* p, size_t n)
{
    if (!p) return malloc(n);
    if (on()) hb_clear_range(p, usable(p));
    if (!in_heap(p)) {
        if (!heap_here()) return fresh(__libc_realloc(p, n));
    } else if (!hdr(p)->off && n && n <= class_size((int)hdr(p)->cls)) {
        hdr(p)->size = n;
        return fresh(p);
    }
    void* q = heap_here() ? heap_alloc(n, false) : __libc_malloc(n);
    if (!q) return nullptr;
    const size_t o = usable(p);
    memcpy(q, p, o < n ? o : n);
    if (in_heap(p))
        heap_free(p);
    else
        __libc_free(p);
    return fresh(q);
}
__attribute__((visibility("default"), noinline)) void* operator new(size_t n)
{
    if (me && (me->alloc_on > 0 || (G.alloc_all && !me->alloc_on)) && !me->nosim && G.active && !exempt(__builtin_return_address(0)) && fault(F_ALLOC_FAIL, 1)) throw std::bad_alloc();
    if (void* p = malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
__attribute__((visibility("default"))) void* operator new[](size_t n) { return operator new(n); }
// libstdc++'s remove_all() terminates the process when an allocation fails, which is no fault of the code under test.
EXPORT uintmax_t _ZNSt10filesystem10remove_allERKNS_7__cxx114pathERSt10error_code(const void* path, void* code)
{
    NoAllocFaults na;
    return real_remove_all_ec(path, code);
}
EXPORT uintmax_t _ZNSt10filesystem10remove_allERKNS_7__cxx114pathE(const void* path)
{
    NoAllocFaults na;
    return real_remove_all(path);
}
EXPORT size_t malloc_usable_size(void* p) { return p ? usable(p) : 0; }
EXPORT void* memalign(size_t a, size_t n) { return fresh(heap_here() ? heap_memalign(a, n) : __libc_memalign(a, n)); }
EXPORT void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
EXPORT int posix_memalign(void** out, size_t a, size_t n)
{
    void* p = memalign(a, n);
    if (!p) return 12;
    *out = p;
    return 0;
}
