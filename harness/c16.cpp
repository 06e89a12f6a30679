// C16: the persistent file cache, shared by threads and processes that may die.
#include "c16_iface.hpp"
#include "dsim.hpp"

#include <dirent.h>
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace dsim
{
const char* property_id = "C16";
}
using namespace dsim;

namespace
{
constexpr int PROCS = 4;
CacheFactory* factories[PROCS + 1];

#define LONG "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
const char* const ALL_KEYS[] = {"a", "A", "a/b", "..", "%41", LONG "x", LONG "y", "{8c4e810f}", "lock", "b.data", "a b", "\xc3\xa6", ".", ""};
constexpr int N_KEYS = sizeof ALL_KEYS / sizeof *ALL_KEYS;
const char* KEYS[4]; // those of this run
constexpr int FILES = 4;
const char* const FILE_NAMES[FILES] = {"modelDescription.xml", "sub", "sub/lib.so", "z"};

struct Op
{
    enum Kind
    {
        WRITE, // rw, write, release
        READ, // ro, verify, release
        IMPORT, // as WRITE, then hold ro for the rest of the thread's life
        CLEANUP
    } kind;
    int key;
    bool rewrite; // write although the contents are there
    bool twice; // READ: a second handle at the same time
    bool cleanup_inside;
    bool own_object; // use an own cache object
    uint64_t hold, pause;
};
struct Plan
{
    int vp;
    int root;
    uint64_t delay;
    std::vector<Op> ops;
};
enum Tri
{
    NO,
    YES,
    MAYBE
};
struct Interest
{
    int vp, thread;
    bool excl, held;
    uint64_t since; // when it was requested
};
struct Key
{
    Tri present = NO;
    uint64_t since = 0; // present
    bool any = false; // contents are arbitrary (left by a writer that died)
    int version = 0; // 0: empty
    std::vector<Interest> interest;
    std::string path;
};
struct Cleanup
{
    int vp, thread;
    bool touched[4];
    uint64_t faults;
};
struct World
{
    std::vector<Plan> plan;
    std::vector<std::string> roots;
    std::vector<Key> keys;
    std::vector<Cleanup> cleanups;
    std::map<int, ICache*> shared; // per process
    int next_version = 1;
    int done = 0;
    uint64_t work = 0;
};
World* w;

uint64_t io_faults()
{
    uint64_t n = 0;
    for (int k : {F_LOCK_FAIL, F_OPEN_FAIL, F_MKDIR_FAIL, F_REMOVE_FAIL, F_RENAME_FAIL, F_ALLOC_FAIL}) n += faults_fired(k);
    return n;
}

// ---- contents -----------------------------------------------------------------------------
// Version of the contents below `dir`: 0 empty or absent, >0 complete, -1 incomplete or mixed.
int contents(const std::string& dir)
{
    NoSim n;
    int v = -2, found = 0;
    for (int i = 0; i < FILES; ++i) {
        struct stat st;
        const auto p = dir + "/" + FILE_NAMES[i];
        if (i == 1) {
            if (::stat(p.c_str(), &st) == 0) ++found;
            continue;
        }
        FILE* f = fopen(p.c_str(), "r");
        if (!f) continue;
        ++found;
        int x = -1;
        if (fscanf(f, "%d", &x) != 1) x = -1;
        fclose(f);
        if (v == -2) v = x;
        if (v != x) v = -1;
    }
    if (found == 0) return 0;
    return found == FILES ? v : -1;
}
void write_file(const std::string& dir, int i, int version)
{
    {
        NoSim n;
        const auto p = dir + "/" + FILE_NAMES[i];
        if (i == 1) {
            ::mkdir(p.c_str(), 0777);
        } else {
            FILE* f = fopen(p.c_str(), "w");
            if (!f) fail("directory-vanished", "the directory of an entry held for writing has vanished (%s)", p.c_str());
            fprintf(f, "%d\n", version);
            fclose(f);
        }
    }
    point("write");
}

// ---- oracle ----------------------------------------------------------------------------------
bool cleanup_active() { return !w->cleanups.empty(); }
void bury() // accounts for the processes that have died
{
    for (auto& k : w->keys) {
        bool lost = false, held = false;
        for (size_t i = 0; i < k.interest.size();) {
            auto& x = k.interest[i];
            if (vproc_alive(x.vp)) {
                held = held || x.held;
                ++i;
                continue;
            }
            if (x.held) lost = true;
            if (x.excl && x.held) k.any = true;
            if (x.excl && !x.held && k.present != YES) { // died in the middle of a request, maybe after creating the directory
                k.present = MAYBE;
                k.any = true;
            }
            k.interest.erase(k.interest.begin() + i);
        }
        if (lost && !held && cleanup_active() && k.present == YES) k.present = MAYBE;
    }
    for (size_t i = 0; i < w->cleanups.size();)
        if (vproc_alive(w->cleanups[i].vp))
            ++i;
        else
            w->cleanups.erase(w->cleanups.begin() + i);
}
void request(int key, int vp, int th, bool excl)
{
    NoSim n;
    Key& k = w->keys[key];
    bury();
    k.interest.push_back({vp, th, excl, false, seq()});
    if (excl && k.present == NO) k.present = MAYBE;
    for (auto& c : w->cleanups) c.touched[key] = true;
}
void forget(int key, int th, bool excl)
{
    NoSim n;
    Key& k = w->keys[key];
    for (size_t i = 0; i < k.interest.size(); ++i)
        if (k.interest[i].thread == th && k.interest[i].excl == excl && !k.interest[i].held) {
            k.interest.erase(k.interest.begin() + i);
            return;
        }
}
void granted(int key, int vp, int th, bool excl, const std::string& path)
{
    NoSim n;
    Key& k = w->keys[key];
    bury();
    dsim::log("t%d of process %d holds %s (%s)", th, vp, KEYS[key], excl ? "rw" : "ro");
    bool marked = false;
    for (auto& i : k.interest) {
        if (i.thread == th && i.excl == excl && !i.held && !marked) {
            i.held = marked = true;
            continue;
        }
        if (i.held && (i.excl || excl) && !(i.thread == th && !i.excl && !excl))
            fail("exclusion", "thread %d of process %d was given %s access to entry `%s' while thread %d of process %d had %s access", th, vp, excl ? "rw" : "ro", KEYS[key], i.thread, i.vp, i.excl ? "rw" : "ro");
    }
    // (the roots are different names of the same directory)
    auto tail = path.substr(path.find("/cache/") == std::string::npos ? 0 : path.find("/cache/") + 7);
    if (tail.find('/') != std::string::npos || tail == "." || tail == ".." || tail.empty())
        fail("path", "the path of entry `%s' is %s, which is not a directory directly below the cache", KEYS[key], path.c_str());
    if (k.path.empty()) k.path = tail;
    if (k.path != tail) fail("path", "the path of entry `%s' changed from %s to %s", KEYS[key], k.path.c_str(), tail.c_str());
    for (auto& o : w->keys)
        if (&o != &k && o.path == tail) fail("path", "entries `%s' and `%s' have the same path", KEYS[key], KEYS[&o - &w->keys[0]]);
    const int c = contents(path);
    if (!excl && k.present == NO)
        fail("resurrected", "entry `%s' was found although it does not exist (it had never been written, or it had been removed)", KEYS[key]);
    // (a request for writing that failed for lack of memory may have left an empty entry)
    const bool absent = (excl || faults_fired(F_ALLOC_FAIL)) && c == 0 && k.present != YES;
    if (!k.any && !absent && (k.present == NO ? c != 0 : c != k.version))
        fail("contents", "entry `%s' has contents %d when it is given out for %s (%d: written by the last holder%s; -1: incomplete)", KEYS[key], c, excl ? "rw" : "ro", k.version, k.present == NO ? ", but removed" : "");
    if (absent) k.version = 0, k.any = false;
    if (k.present != YES) k.since = seq();
    k.present = YES;
    count(excl ? "rw handles" : "ro handles");
}
void refused(int key, int vp, int th)
{
    NoSim n;
    Key& k = w->keys[key];
    bury();
    dsim::log("t%d of process %d: no entry %s", th, vp, KEYS[key]);
    uint64_t asked = 0;
    for (auto& i : k.interest)
        if (i.thread == th && !i.excl && !i.held) asked = i.since;
    if (k.present == YES && k.since < asked) fail("lost", "thread %d of process %d was told that entry `%s' does not exist, but it does", th, vp, KEYS[key]);
    count("no such entry");
}
void releasing(int key, int th, bool excl)
{
    NoSim n;
    bury();
    Key& k = w->keys[key];
    for (auto& i : k.interest)
        if (i.thread == th && i.excl == excl && i.held) {
            i.held = false;
            dsim::log("t%d releases %s", th, KEYS[key]);
            break;
        }
    bool held = false;
    for (auto& i : k.interest) held = held || (i.held && vproc_alive(i.vp));
    if (!held && cleanup_active() && k.present == YES) k.present = MAYBE;
}
void cleanup_begins(int vp, int th)
{
    NoSim n;
    bury();
    Cleanup c{vp, th, {}, io_faults()};
    for (size_t i = 0; i < w->keys.size(); ++i) {
        Key& k = w->keys[i];
        c.touched[i] = !k.interest.empty();
        bool held = false;
        for (auto& x : k.interest) held = held || x.held;
        if (!held && k.present == YES) k.present = MAYBE;
    }
    w->cleanups.push_back(c);
}
void cleanup_ends(int th, bool ok)
{
    NoSim n;
    bury();
    for (size_t j = 0; j < w->cleanups.size(); ++j) {
        auto c = w->cleanups[j];
        if (c.thread != th) continue;
        w->cleanups.erase(w->cleanups.begin() + j);
        if (ok && io_faults() == c.faults)
            for (size_t i = 0; i < w->keys.size(); ++i)
                if (!c.touched[i]) {
                    w->keys[i].present = NO;
                    w->keys[i].any = false;
                    w->keys[i].version = 0;
                }
        return;
    }
}

template<typename F>
bool guarded(const char* what, F f)
{
    const auto before = io_faults();
    try {
        f();
        return true;
    } catch (const std::exception& e) {
        NoSim n;
        dsim::log("%s failed: %s", what, e.what());
        if (io_faults() == before) fail("exception", "%s failed although nothing was wrong: %s", what, e.what());
        count("errors reported");
        return false;
    }
}

struct Handle
{
    std::unique_ptr<IHandle> h;
    int key = -1, th = -1;
    bool excl = false;
    std::string path;
    int version = 0; // ro: contents at the beginning
    void release()
    {
        if (!h) return;
        if (!excl) {
            const int c = contents(path);
            if (c != version) fail("contents", "the contents of entry `%s' changed from %d to %d while it was held for reading", KEYS[key], version, c);
        }
        releasing(key, th, excl);
        {
            AllocFaults af;
            h.reset();
        }
        forget(key, th, excl);
    }
};

Handle open_rw(ICache& c, int key, int vp, int th)
{
    Handle h;
    h.key = key;
    h.th = th;
    h.excl = true;
    request(key, vp, th, true);
    if (guarded("get_directory_rw", [&] {
            AllocFaults af;
            h.h.reset(c.rw(KEYS[key]));
        })) {
        h.path = h.h->path();
        granted(key, vp, th, true, h.path);
    } else {
        forget(key, th, true);
    }
    return h;
}
Handle open_ro(ICache& c, int key, int vp, int th)
{
    Handle h;
    h.key = key;
    h.th = th;
    request(key, vp, th, false);
    bool none = false;
    guarded("get_directory_ro", [&] {
        try {
            AllocFaults af;
            h.h.reset(c.ro(KEYS[key]));
        } catch (const std::logic_error&) {
            none = true;
        }
    });
    if (h.h) {
        h.path = h.h->path();
        granted(key, vp, th, false, h.path);
        h.version = contents(h.path);
    } else {
        if (none) refused(key, vp, th);
        forget(key, th, false);
    }
    return h;
}
void write(Handle& h, bool rewrite)
{
    int v;
    {
        NoSim n;
        Key& k = w->keys[h.key];
        if (!rewrite && !k.any && k.version > 0) return; // as the FMU importer does
        v = w->next_version++;
    }
    for (int i = 0; i < FILES; ++i) write_file(h.path, i, v);
    NoSim n;
    const int c = contents(h.path);
    if (c != v) fail("contents", "entry `%s' has contents %d after %d was written to it", KEYS[h.key], c, v);
    w->keys[h.key].version = v;
    w->keys[h.key].any = false;
}

void do_cleanup(ICache& c, int vp, int th)
{
    cleanup_begins(vp, th);
    dsim::log("t%d of process %d cleans up", th, vp);
    // (no failing allocations here, which libstdc++'s directory iterators do not survive)
    const bool ok = guarded("cleanup", [&] { c.cleanup(); });
    cleanup_ends(th, ok);
    count("cleanups");
}

void worker(int th)
{
    const Plan& p = w->plan[th];
    {
        NoSim n;
        if (!vproc_alive(p.vp)) return;
        set_vproc(p.vp);
    }
    name_thread(("p" + std::to_string(p.vp)).c_str());
    if (p.delay) advance(p.delay);
    std::vector<Handle> held;
    std::unique_ptr<ICache> own;
    ICache* cache = w->shared[p.vp];
    if (!cache) {
        guarded("construction", [&] {
            AllocFaults af;
            own.reset(factories[p.vp]->make(w->roots[p.root]));
        });
        cache = own.get();
        if (!cache) return;
    }
    for (const auto& o : p.ops) {
        if (o.pause) advance(o.pause);
        switch (o.kind) {
            case Op::WRITE:
            case Op::IMPORT: {
                auto h = open_rw(*cache, o.key, p.vp, th);
                if (!h.h) break;
                write(h, o.rewrite);
                if (o.hold) advance(o.hold);
                if (o.cleanup_inside) do_cleanup(*cache, p.vp, th);
                h.release();
                if (o.kind == Op::IMPORT) {
                    auto r = open_ro(*cache, o.key, p.vp, th);
                    if (r.h) held.push_back(std::move(r));
                }
                break;
            }
            case Op::READ: {
                auto h = open_ro(*cache, o.key, p.vp, th);
                if (!h.h) break;
                if (o.cleanup_inside) do_cleanup(*cache, p.vp, th);
                if (o.hold) advance(o.hold);
                if (o.twice) {
                    auto h2 = open_ro(*cache, o.key, p.vp, th);
                    if (!h2.h && io_faults() == 0) fail("lost", "entry `%s' could not be opened a second time", KEYS[o.key]);
                    h2.release();
                }
                h.release();
                break;
            }
            case Op::CLEANUP: do_cleanup(*cache, p.vp, th); break;
        }
    }
    for (auto& h : held) h.release();
    own.reset();
    NoSim n;
    ++w->done;
}
} // namespace

void dsim_setup()
{
    char exe[2000];
    const auto n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n] = 0;
    std::string dir(exe);
    dir.resize(dir.rfind('/'));
    for (int k = 1; k <= PROCS; ++k) {
        const auto so = dir + "/vproc_C16." + std::to_string(k) + ".so";
        void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) {
            fprintf(stderr, "%s\n", dlerror());
            abort();
        }
        factories[k] = reinterpret_cast<CacheFactory* (*)()>(dlsym(h, "dsim_cache_factory"))();
    }
}

void dsim_run()
{
    World world;
    w = &world;
    sched_config cfg;
    const int nproc = static_cast<int>(1 + draw(3));
    const bool churn = draw_bool(35); // many short operations on the same entry
    const int nkeys = churn ? 1 : static_cast<int>(1 + draw(4));
    const int firstKey = static_cast<int>(draw(N_KEYS));
    for (int i = 0; i < 4; ++i) KEYS[i] = ALL_KEYS[(firstKey + i) % N_KEYS];
    const bool crash = draw_bool(35);
    const bool restart = crash && draw_bool(70);
    const unsigned crashRate = 200 + static_cast<unsigned>(draw(2000)), crashes = 1 + static_cast<unsigned>(draw(2));
    const bool errors = draw_bool(20);
    const bool cleanups = churn || draw_bool(60);
    const auto base = std::string(scratch()) + "/base";
    ::mkdir(base.c_str(), 0777);
    ::symlink("base", (std::string(scratch()) + "/alias").c_str());
    w->roots = {base + "/cache", std::string(scratch()) + "/alias/cache", base + "/./cache"};
    w->keys.resize(nkeys);
    std::vector<bool> sharedObject(PROCS + 1);
    auto plan_thread = [&](int vp, uint64_t delay) {
        Plan p;
        p.vp = vp;
        p.delay = delay;
        p.root = static_cast<int>(draw(w->roots.size()));
        const int k = static_cast<int>(1 + draw(churn ? 8 : 4));
        int lowest = 0; // keys below are held for reading until the thread ends
        for (int i = 0; i < k && lowest < nkeys; ++i) {
            Op o{};
            const auto what = draw(100);
            o.kind = churn && draw_bool(30) ? Op::CLEANUP : what < 35 ? Op::WRITE : what < 65 ? Op::READ : what < 80 ? Op::IMPORT : cleanups ? Op::CLEANUP : Op::WRITE;
            o.key = lowest + static_cast<int>(draw(nkeys - lowest));
            o.rewrite = draw_bool(40);
            o.twice = draw_bool(20);
            o.cleanup_inside = cleanups && draw_bool(15);
            o.hold = draw_bool(churn ? 10 : 50) ? 1 + draw(3000000) : 0;
            o.pause = draw_bool(churn ? 5 : 30) ? 1 + draw(2000000) : 0;
            w->work += o.hold + o.pause;
            if (o.kind == Op::IMPORT) lowest = o.key + 1;
            p.ops.push_back(o);
        }
        w->work += delay;
        w->plan.push_back(p);
    };
    for (int vp = 1; vp <= nproc; ++vp) {
        sharedObject[vp] = draw_bool(50);
        const int nt = static_cast<int>(1 + draw(churn ? 3 : 2));
        for (int t = 0; t < nt; ++t) plan_thread(vp, draw_bool(churn ? 5 : 30) ? draw(3000000) : 0);
    }
    if (restart) {
        const int nt = static_cast<int>(1 + draw(2));
        for (int t = 0; t < nt; ++t) plan_thread(PROCS, 1000000 + draw(4000000));
    }
    if (errors)
        for (int k : {F_LOCK_FAIL, F_OPEN_FAIL, F_MKDIR_FAIL, F_REMOVE_FAIL, F_RENAME_FAIL}) enable_fault(k, 15000);
    if (errors && draw_bool(50)) enable_fault(F_ALLOC_FAIL, 10000);
    if (draw_bool(50)) enable_fault(F_STALL, draw_bool(50) ? 1000 : 20000);
    start(cfg);
    dsim::log("%d processes, %d threads, %d keys%s%s", nproc, (int)w->plan.size(), nkeys, crash ? ", crashes" : "", errors ? ", errors" : "");
    for (int vp = 1; vp <= nproc; ++vp) {
        if (!sharedObject[vp]) continue;
        set_vproc(vp);
        guarded("construction", [&] { w->shared[vp] = factories[vp]->make(w->roots[0]); });
        set_vproc(0);
    }
    w->shared[PROCS];
    for (int vp = 1; vp <= PROCS; ++vp) w->shared[vp];
    if (crash) {
        spare_main_process(true);
        enable_fault(F_CRASH, crashRate);
        limit_fault(F_CRASH, crashes);
    }
    std::vector<std::thread> threads;
    for (size_t i = 0; i < w->plan.size(); ++i) threads.emplace_back(worker, static_cast<int>(i));
    // Everything must be finished some time after the work, the injected delays and the polling intervals.
    while (live_threads() > 1) {
        advance(20000000);
        if (now() > injected_until() + w->work + injected_delay() + 60000000000ull) fail("stuck", "threads wait for cache entries that nobody holds");
    }
    for (auto& t : threads) t.join();
    int crashed = 0;
    for (int vp = 1; vp <= PROCS; ++vp) crashed += !vproc_alive(vp);
    if (crashed) count("process crashes", crashed);
    if (w->plan.size() > 1) nontrivial();
    for (int vp = 1; vp <= PROCS; ++vp)
        if (vproc_locks_held(vp)) fail("left-locked", "process %d still holds %d file locks after everything was released", vp, vproc_locks_held(vp));
    for (int k = 0; k < F_KINDS; ++k) disable_fault(k);
    // A new process finds every entry complete or absent, can use all of them, and can remove them.
    const int vp = PROCS;
    if (!restart) {
        set_vproc(vp);
        std::unique_ptr<ICache> c(factories[vp]->make(w->roots[0]));
        for (int k = 0; k < nkeys; ++k) {
            auto r = open_ro(*c, k, vp, 99);
            r.release();
            auto h = open_rw(*c, k, vp, 99);
            if (!h.h) fail("unusable", "entry `%s' cannot be opened", KEYS[k]);
            write(h, false);
            h.release();
        }
        do_cleanup(*c, vp, 99);
        for (int k = 0; k < nkeys; ++k) open_ro(*c, k, vp, 99).release();
        do_cleanup(*c, vp, 99);
        c.reset();
        set_vproc(0);
        NoSim n;
        // what is left in the directory
        if (DIR* d = opendir(w->roots[0].c_str())) {
            while (auto e = readdir(d)) {
                std::string s = e->d_name;
                if (s == "." || s == ".." || s == "lock") continue;
                fail("left-over", "`%s' was left in the cache after cleaning up", s.c_str());
            }
            closedir(d);
        }
    }
    for (auto& [v, c] : w->shared)
        if (c && vproc_alive(v)) delete c;
    fold(w->next_version);
}
