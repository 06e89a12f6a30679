// C17: temporary directories and temporary file caches.
#include "cosim/file_cache.hpp"
#include "cosim/utility/filesystem.hpp"
#include "dsim.hpp"

#include <dirent.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace dsim
{
const char* property_id = "C17";
}
using namespace dsim;
namespace cu = cosim::utility;
void dsim_setup() {}

namespace
{
#define LONG "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
const char* const ALL_KEYS[] = {"a", "A", "a/b", "..", "%41", LONG "x", LONG "y", "{8c4e810f}", "lock", "b.data", "a b", "\xc3\xa6", ".", "", "../x", "a%2Fb"};
constexpr int N_KEYS = sizeof ALL_KEYS / sizeof *ALL_KEYS;
constexpr int MAX_KEYS = 4;
const char* KEYS[MAX_KEYS];

struct Op
{
    enum Kind
    {
        MAKE, // a temp_dir
        MOVE, // a temp_dir to another, new or existing, one
        DESTROY,
        FILL,
        CACHE, // a new cache
        CACHE_END,
        CACHE_MOVE,
        RW,
        RO,
        RELEASE,
        WRITE,
        HAND_OVER // the release of a handle to another thread
    } kind;
    uint64_t a, b, pause;
};
struct Plan
{
    std::vector<Op> ops;
    uint64_t delay;
};
struct CacheState;
struct KeyState
{
    bool exists = false;
    int rw = 0, ro = 0; // live handles
    int releasing = 0; // by another thread, just now
    int version = 0;
    std::string path;
};
struct CacheState
{
    KeyState key[MAX_KEYS];
    std::string root;
    bool alive = true;
    int handles = 0; // not completely released
    uint64_t born = 0; // removal faults before
};
struct Handle
{
    std::unique_ptr<cosim::file_cache::directory_rw> rw;
    std::unique_ptr<cosim::file_cache::directory_ro> ro;
    std::shared_ptr<CacheState> c;
    int key;
    std::string path;
};
struct Dir
{
    std::unique_ptr<cu::temp_dir> d;
    std::string path; // empty: moved from
    int marks = 0;
};
struct World
{
    std::vector<Plan> plan;
    std::set<std::string> live; // directories that are owned
    std::set<std::string> stuck; // whose removal may have failed
    std::vector<std::shared_ptr<Handle>> handedOver;
    std::mutex handMutex;
    bool handing = true, hand = false;
    int nkeys;
    int next = 1;
};
World* w;

uint64_t io_faults()
{
    uint64_t n = 0;
    for (int k : {F_MKDIR_FAIL, F_REMOVE_FAIL, F_OPEN_FAIL, F_ALLOC_FAIL}) n += faults_fired(k);
    return n;
}
bool is_dir(const std::string& p)
{
    NoSim n;
    struct stat st;
    return ::lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
}
int entries(const std::string& p)
{
    NoSim n;
    int k = 0;
    if (DIR* d = opendir(p.c_str())) {
        while (auto e = readdir(d)) k += strcmp(e->d_name, ".") && strcmp(e->d_name, "..");
        closedir(d);
        return k;
    }
    return -1;
}
void put(const std::string& path, int v)
{
    NoSim n;
    if (FILE* f = fopen(path.c_str(), "w")) {
        fprintf(f, "%d", v);
        fclose(f);
    } else {
        fail("vanished", "the directory of %s does not exist although it is in use", path.c_str());
    }
}
int get(const std::string& path)
{
    NoSim n;
    int v = 0;
    if (FILE* f = fopen(path.c_str(), "r")) {
        if (fscanf(f, "%d", &v) != 1) v = -1;
        fclose(f);
    }
    return v;
}
std::string parent(const std::string& p) { return p.substr(0, p.rfind('/')); }

// ---- temp_dir --------------------------------------------------------------------------------
void born(const std::string& path)
{
    NoSim n;
    if (!is_dir(path)) fail("not-created", "the temporary directory %s does not exist", path.c_str());
    if (entries(path)) fail("not-empty", "the new temporary directory %s is not empty", path.c_str());
    if (!w->live.insert(path).second) fail("not-unique", "the temporary directory %s was created twice", path.c_str());
    w->stuck.erase(path);
    note_max("directories alive", w->live.size());
}
void dying(const std::string& path) // before
{
    NoSim n;
    w->live.erase(path);
}
uint64_t removal_faults() { return faults_fired(F_REMOVE_FAIL) + faults_fired(F_OPEN_FAIL) + faults_fired(F_ALLOC_FAIL); }
void dead(const std::string& path, uint64_t faultsBefore)
{
    NoSim n;
    if (removal_faults() != faultsBefore) {
        w->stuck.insert(path);
        return;
    }
    if (is_dir(path) && !w->live.count(path)) fail("not-removed", "%s was not removed when its owner went away", path.c_str());
}

// ---- caches ------------------------------------------------------------------------------------
void end_of(std::shared_ptr<CacheState> c, uint64_t before) // after the last owner, maybe, went away
{
    NoSim n;
    if (c->alive || c->handles || c->root.empty()) return;
    dying(c->root);
    dead(c->root, w->hand ? c->born : before);
}
bool looks_ok(const KeyState& k, const Handle& h) { return get(h.path + "/v") == k.version; }

void release(Handle& h)
{
    const auto before = removal_faults();
    auto c = h.c;
    KeyState& k = c->key[h.key];
    {
        NoSim n;
        if (!is_dir(h.path)) fail("vanished", "the directory of entry `%s' vanished while a handle to it existed", KEYS[h.key]);
        if (!looks_ok(k, h)) fail("contents", "the contents of entry `%s' are %d instead of %d", KEYS[h.key], get(h.path + "/v"), k.version);
        ++k.releasing;
        (h.rw ? k.rw : k.ro)--;
        dsim::log("t%d releases `%s' (%s)", tid(), KEYS[h.key], h.rw ? "rw" : "ro");
    }
    {
        AllocFaults af;
        h.rw.reset();
        h.ro.reset();
    }
    NoSim n;
    --k.releasing;
    --c->handles;
    end_of(c, before);
    h.c.reset();
}

void granted(Handle& h, bool rw)
{
    NoSim n;
    KeyState& k = h.c->key[h.key];
    dsim::log("t%d holds `%s' (%s) at %s", tid(), KEYS[h.key], rw ? "rw" : "ro", h.path.c_str());
    if (rw && (k.rw || k.ro)) fail("exclusion", "read-write access to entry `%s' was given while there were %d read-write and %d read-only handles", KEYS[h.key], k.rw, k.ro);
    if (!rw && k.rw) fail("exclusion", "read-only access to entry `%s' was given while there was a read-write handle", KEYS[h.key]);
    if (!rw && !k.exists) fail("unknown-key", "read-only access was given to entry `%s', which does not exist", KEYS[h.key]);
    if (!is_dir(h.path)) fail("vanished", "entry `%s' was given out, but its directory %s does not exist", KEYS[h.key], h.path.c_str());
    const auto tail = h.path.substr(h.path.rfind('/') + 1);
    if (tail.empty() || tail == "." || tail == "..") fail("path", "the path of entry `%s' is %s, which is not a directory of its own", KEYS[h.key], h.path.c_str());
    if (h.c->root.empty()) {
        h.c->root = parent(h.path);
        if (!w->live.insert(h.c->root).second) fail("not-unique", "the directory %s of a new cache is in use already", h.c->root.c_str());
    }
    if (parent(h.path) != h.c->root) fail("path", "the path of entry `%s' is %s, which is not below %s", KEYS[h.key], h.path.c_str(), h.c->root.c_str());
    if (k.path.empty()) {
        k.path = h.path;
        if (entries(h.path)) fail("not-empty", "the new entry `%s' is not empty", KEYS[h.key]);
    }
    if (k.path != h.path) fail("path", "the path of entry `%s' changed", KEYS[h.key]);
    for (int i = 0; i < w->nkeys; ++i)
        if (i != h.key && h.c->key[i].path == h.path) fail("path", "entries `%s' and `%s' have the same path", KEYS[i], KEYS[h.key]);
    if (!looks_ok(k, h)) fail("contents", "the contents of entry `%s' are %d instead of %d", KEYS[h.key], get(h.path + "/v"), k.version);
    k.exists = true;
    (rw ? k.rw : k.ro)++;
    count(rw ? "rw handles" : "ro handles");
}

std::shared_ptr<Handle> open(cosim::file_cache& cache, std::shared_ptr<CacheState> c, int key, bool rw)
{
    auto h = std::make_shared<Handle>();
    h->c = c;
    h->key = key;
    bool mayFail, mustFail;
    uint64_t before;
    KeyState& k = c->key[key];
    {
        NoSim n;
        before = io_faults();
        mustFail = rw ? k.rw || k.ro : k.rw || !k.exists;
        mayFail = mustFail || k.releasing;
        ++c->handles; // (keeps the oracle from expecting the directory to vanish)
    }
    bool refused = false;
    try {
        AllocFaults af;
        if (rw)
            h->rw = cache.get_directory_rw(KEYS[key]);
        else
            h->ro = cache.get_directory_ro(KEYS[key]);
    } catch (const std::logic_error& e) {
        refused = true;
    } catch (const std::exception& e) {
        NoSim n;
        dsim::log("get_directory failed: %s", e.what());
        if (io_faults() == before) fail("exception", "the request for entry `%s' failed although nothing was wrong: %s", KEYS[key], e.what());
        --c->handles;
        count("errors reported");
        return nullptr;
    }
    if (refused) {
        NoSim n;
        --c->handles;
        if (!mayFail) fail("refused", "%s access to entry `%s' was refused although it is free (%d rw, %d ro, %s)", rw ? "read-write" : "read-only", KEYS[key], k.rw, k.ro, k.exists ? "exists" : "does not exist");
        count("refused requests");
        return nullptr;
    }
    h->path = (rw ? h->rw->path() : h->ro->path()).string();
    granted(*h, rw);
    return h;
}

std::string outside;

void fill(const std::string& path, int v)
{
    NoSim n;
    put(path + "/v" + std::to_string(v), v);
    const auto sub = path + "/sub" + std::to_string(v % 3);
    ::mkdir(sub.c_str(), 0777);
    put(sub + "/f", v);
    ::symlink(outside.c_str(), (sub + "/link").c_str());
    ::symlink("/nonexistent", (path + "/dangling").c_str());
}

void worker(int th)
{
    const Plan& p = w->plan[th];
    if (p.delay) advance(p.delay);
    std::vector<Dir> dirs;
    std::unique_ptr<cosim::temporary_file_cache> cache;
    std::shared_ptr<CacheState> cs;
    std::vector<std::shared_ptr<Handle>> handles;
    auto pick = [&](uint64_t a) { return static_cast<int>(a % dirs.size()); };
    auto drop_cache = [&] {
        const auto before = removal_faults();
        {
            NoSim n;
            cs->alive = false;
            ++cs->handles;
        }
        {
            AllocFaults af;
            cache.reset();
        }
        {
            NoSim n;
            --cs->handles;
        }
        end_of(cs, before);
        cs.reset();
    };
    auto verify = [&](const Dir& d) {
        if (d.path.empty()) return;
        NoSim n;
        if (!is_dir(d.path)) fail("vanished", "the temporary directory %s vanished while its owner existed", d.path.c_str());
        if (entries(d.path) < d.marks) fail("vanished", "files in %s vanished", d.path.c_str());
        if (d.d->path() != d.path) fail("path", "the path of a temporary directory changed from %s to %s", d.path.c_str(), d.d->path().c_str());
    };
    auto destroy = [&](int i) {
        Dir d = std::move(dirs[i]);
        dirs.erase(dirs.begin() + i);
        verify(d);
        const auto before = removal_faults();
        if (!d.path.empty()) dying(d.path);
        {
            AllocFaults af;
            d.d.reset();
        }
        if (!d.path.empty()) dead(d.path, before);
    };
    for (const auto& o : p.ops) {
        if (o.pause) advance(o.pause);
        switch (o.kind) {
            case Op::MAKE: {
                Dir d;
                const auto before = io_faults();
                try {
                    AllocFaults af;
                    d.d = std::make_unique<cu::temp_dir>(o.a % 3 == 0 ? "" : o.a % 3 == 1 ? "own" : std::string(scratch()) + "/abs");
                } catch (const std::exception& e) {
                    NoSim n;
                    if (io_faults() == before) fail("exception", "the creation of a temporary directory failed although nothing was wrong: %s", e.what());
                    count("errors reported");
                    break;
                }
                d.path = d.d->path().string();
                const auto where = parent(d.path);
                const auto want = std::string(scratch()) + (o.a % 3 == 0 ? "/tmp" : o.a % 3 == 1 ? "/tmp/own" : "/abs");
                if (where != want) fail("path", "a temporary directory was created in %s instead of %s", where.c_str(), want.c_str());
                born(d.path);
                dirs.push_back(std::move(d));
                count("temporary directories");
                break;
            }
            case Op::MOVE: {
                if (dirs.empty()) break;
                const int from = pick(o.a);
                const int to = pick(o.b);
                if (from == to) { // to a new object
                    auto d = std::make_unique<cu::temp_dir>(std::move(*dirs[from].d));
                    if (!dirs[from].d->path().empty()) fail("path", "a temp_dir that was moved from still has a path");
                    dirs[from].d = std::move(d); // destroys the source
                } else {
                    const auto before = removal_faults();
                    const auto old = dirs[to].path;
                    verify(dirs[to]);
                    if (!old.empty()) dying(old);
                    {
                        AllocFaults af;
                        *dirs[to].d = std::move(*dirs[from].d);
                    }
                    if (!old.empty()) dead(old, before);
                    if (!dirs[from].d->path().empty()) fail("path", "a temp_dir that was moved from still has a path");
                    dirs[to].path = dirs[from].path;
                    dirs[to].marks = dirs[from].marks;
                    dirs[from].path.clear();
                    dirs[from].marks = 0;
                }
                verify(dirs[to]);
                count("moves");
                break;
            }
            case Op::DESTROY:
                if (!dirs.empty()) destroy(pick(o.a));
                break;
            case Op::FILL:
                if (!dirs.empty()) {
                    Dir& d = dirs[pick(o.a)];
                    if (d.path.empty()) break;
                    NoSim n;
                    fill(d.path, w->next++);
                    d.marks = std::max(d.marks, 3);
                }
                break;
            case Op::CACHE: {
                if (cache) drop_cache();
                const auto before = io_faults(), before2 = removal_faults();
                try {
                    AllocFaults af;
                    cache = std::make_unique<cosim::temporary_file_cache>();
                } catch (const std::exception& e) {
                    NoSim n;
                    if (io_faults() == before) fail("exception", "the creation of a cache failed although nothing was wrong: %s", e.what());
                    count("errors reported");
                    break;
                }
                cs = std::make_shared<CacheState>();
                cs->born = before2;
                count("caches");
                break;
            }
            case Op::CACHE_END:
                if (cache) drop_cache();
                break;
            case Op::CACHE_MOVE:
                if (!cache) break;
                cache = std::make_unique<cosim::temporary_file_cache>(std::move(*cache));
                break;
            case Op::RW:
            case Op::RO:
                if (cache) {
                    auto h = open(*cache, cs, static_cast<int>(o.a), o.kind == Op::RW);
                    if (h) handles.push_back(h);
                }
                break;
            case Op::RELEASE:
                if (!handles.empty()) {
                    const auto i = o.a % handles.size();
                    auto h = handles[i];
                    handles.erase(handles.begin() + i);
                    release(*h);
                }
                break;
            case Op::WRITE:
                for (auto& h : handles)
                    if (h->rw) {
                        NoSim n;
                        const int v = w->next++;
                        if (o.a % 2) fill(h->path, v);
                        put(h->path + "/v", v);
                        h->c->key[h->key].version = v;
                    }
                break;
            case Op::HAND_OVER:
                if (!handles.empty()) {
                    const auto i = o.a % handles.size();
                    std::lock_guard<std::mutex> g(w->handMutex);
                    NoSim n;
                    w->handedOver.push_back(handles[i]);
                    handles.erase(handles.begin() + i);
                    count("handles handed over");
                }
                break;
        }
    }
    if (cache) drop_cache();
    while (!handles.empty()) {
        release(*handles.back());
        handles.pop_back();
    }
    while (!dirs.empty()) destroy(static_cast<int>(dirs.size()) - 1);
}

void releaser()
{
    for (;;) {
        std::shared_ptr<Handle> h;
        bool more;
        {
            std::lock_guard<std::mutex> g(w->handMutex);
            NoSim n;
            more = w->handing;
            if (!w->handedOver.empty()) {
                h = w->handedOver.front();
                w->handedOver.erase(w->handedOver.begin());
            }
        }
        if (h)
            release(*h);
        else if (!more)
            return;
        else
            advance(50000);
    }
}
} // namespace

void dsim_run()
{
    World world;
    w = &world;
    const auto base = std::string(scratch());
    for (const char* d : {"/tmp", "/abs", "/outside"}) ::mkdir((base + d).c_str(), 0777);
    outside = base + "/outside";
    put(outside + "/precious", 42);
    setenv("TMPDIR", (base + "/tmp").c_str(), 1);
    sched_config cfg;
    w->nkeys = static_cast<int>(1 + draw(MAX_KEYS));
    const int firstKey = static_cast<int>(draw(N_KEYS));
    for (int i = 0; i < MAX_KEYS; ++i) KEYS[i] = ALL_KEYS[(firstKey + i * (1 + draw(3))) % N_KEYS];
    for (int i = 0; i < MAX_KEYS; ++i) // distinct ones
        for (int j = 0; j < i; ++j)
            if (KEYS[i] == KEYS[j]) w->nkeys = std::min(w->nkeys, i);
    const int threads = static_cast<int>(1 + draw(3));
    const bool errors = draw_bool(35);
    const bool hand = w->hand = threads > 1 && draw_bool(50);
    for (int t = 0; t < threads; ++t) {
        Plan p;
        p.delay = draw_bool(30) ? draw(300000) : 0;
        const int focus = static_cast<int>(draw(3)); // 0 both, 1 directories, 2 caches
        const int n = static_cast<int>(2 + draw(14));
        if (focus == 2) p.ops.push_back({Op::CACHE, 0, 0, 0});
        for (int i = 0; i < n; ++i) {
            Op o{};
            const auto x = draw(100);
            const bool dirs = focus == 1 || (focus == 0 && draw_bool(50));
            if (dirs)
                o.kind = x < 35 ? Op::MAKE : x < 55 ? Op::FILL : x < 80 ? Op::MOVE : Op::DESTROY;
            else
                o.kind = x < 4 ? Op::CACHE : x < 8 ? Op::CACHE_END : x < 12 ? Op::CACHE_MOVE : x < 34 ? Op::RW : x < 58 ? Op::RO : x < 64 ? Op::WRITE : hand && x < 75 ? Op::HAND_OVER : Op::RELEASE;
            o.a = o.kind == Op::RW || o.kind == Op::RO ? draw(w->nkeys) : draw(30);
            o.b = draw(30);
            o.pause = draw_bool(15) ? 1 + draw(200000) : 0;
            p.ops.push_back(o);
        }
        w->plan.push_back(p);
    }
    if (errors) {
        const unsigned rate = draw_bool(50) ? 20000 : 150000;
        if (draw_bool(70)) enable_fault(F_MKDIR_FAIL, rate);
        if (draw_bool(40)) enable_fault(F_REMOVE_FAIL, rate);
        if (draw_bool(20)) enable_fault(F_OPEN_FAIL, rate / 2);
        if (draw_bool(30)) enable_fault(F_ALLOC_FAIL, rate / 3);
    }
    if (draw_bool(30)) enable_fault(F_STALL, 3000);
    start(cfg);
    dsim::log("%d threads, %d keys%s", threads, w->nkeys, errors ? ", errors" : "");
    std::vector<std::thread> ts;
    std::thread rel;
    if (hand) rel = std::thread(releaser);
    for (int t = 1; t < threads; ++t) ts.emplace_back(worker, t);
    worker(0);
    for (auto& t : ts) t.join();
    {
        NoSim n;
        w->handing = false;
    }
    if (hand) rel.join();
    for (int k = 0; k < F_KINDS; ++k) disable_fault(k);
    nontrivial();
    NoSim n;
    if (!w->live.empty()) fail("harness", "%zu directories are still thought to be alive", w->live.size());
    if (get(outside + "/precious") != 42 || entries(outside) != 1) fail("outside", "something outside the temporary directories was changed");
    for (const char* d : {"/tmp", "/tmp/own", "/abs"}) {
        if (DIR* dp = opendir((base + d).c_str())) {
            while (auto e = readdir(dp)) {
                std::string s = e->d_name;
                if (s == "." || s == ".." || s == "own") continue;
                if (!w->stuck.count(base + d + "/" + s) && !removal_faults()) fail("left-over", "%s/%s was left behind", d, s.c_str());
            }
            closedir(dp);
        } else if (strcmp(d, "/tmp/own")) {
            fail("outside", "%s is gone", d);
        }
    }
    fold(w->next);
}
