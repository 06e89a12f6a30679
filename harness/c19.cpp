// C19: the import of FMUs, by threads and processes that may die.
#include "c19_iface.hpp"
#include "dsim.hpp"
#include "ziputil.hpp"

#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace dsim
{
const char* property_id = "C19";
}
using namespace dsim;

namespace
{
constexpr int PROCS = 4;
ImporterFactory* factories[PROCS + 1];

struct Version
{
    uint64_t mtime;
    std::vector<zu::Entry> files;
};
struct Path
{
    std::string path;
    int current = -1; // version
    bool bad = false; // this file can not be imported
};
struct Fmu
{
    std::string guid;
    int fmi = 2;
    std::vector<Version> versions;
    std::vector<Path> paths;
    unsigned seed;
};
struct Update
{
    uint64_t when;
    int fmu, path;
};
struct Op
{
    enum Kind
    {
        IMPORT,
        RELEASE,
        CLEANUP
    } kind;
    int fmu, path, importer;
    bool other; // release by another thread
    uint64_t a, pause;
};
struct Plan
{
    int vp;
    bool second; // a second importer with the same cache
    uint64_t delay;
    std::vector<Op> ops;
};
struct World
{
    std::vector<Fmu> fmus;
    std::vector<Update> updates;
    std::vector<Plan> plan;
    std::string root; // empty: temporary caches
    uint64_t work = 0;
    int updated = 0;
    bool versions = false; // there are several versions of FMUs
    uint64_t fullFrom = 0, fullTo = 0; // when the disk is full
};
World* w;

uint64_t io_faults()
{
    uint64_t n = 0;
    for (int k : {F_LOCK_FAIL, F_OPEN_FAIL, F_MKDIR_FAIL, F_REMOVE_FAIL, F_RENAME_FAIL, F_READ_FAIL, F_WRITE_FAIL, F_CLOSE_FAIL, F_SEEK_FAIL, F_USER, F_ALLOC_FAIL}) n += faults_fired(k);
    return n;
}

// ---- FMUs --------------------------------------------------------------------------------------
std::string bulk(unsigned seed, size_t n)
{
    std::string s(n, 0);
    for (auto& c : s) {
        seed = seed * 1664525 + 1013904223;
        c = static_cast<char>('a' + (seed >> 24) % 26);
    }
    return s;
}
std::vector<zu::Entry> fmu_files(const Fmu& f, int index, int version)
{
    std::vector<zu::Entry> e;
    auto add = [&](const std::string& name, const std::string& data) {
        zu::Entry x;
        x.name = x.shown = name;
        x.data = data;
        x.dir = name.back() == '/';
        x.method = f.seed % 3 && !x.dir ? 8 : 0;
        e.push_back(x);
    };
    const unsigned s = f.seed + version * 17 + index * 1001;
    const auto md = "<?xml version=\"1.0\"?>\n<fmiModelDescription fmiVersion=\"" + std::string(f.fmi == 1 ? "1.0" : "2.0") + "\" guid=\"" + f.guid + "\" version=\"" + std::to_string(version) + "\" modelName=\"m\">" + bulk(s, f.seed % 5 == 0 ? 9000 : 100) + "</fmiModelDescription>\n";
    const int at = f.seed % 4; // of modelDescription.xml
    if (at <= 1) add("modelDescription.xml", md);
    add("binaries/linux64/m.so", bulk(s + 1, f.seed % 7 == 0 ? 70000 : 500));
    if (at == 2) add("modelDescription.xml", md);
    if (f.seed % 2) add("resources/", "");
    add("resources/data.txt", bulk(s + 2, 10));
    if (at == 3) add("modelDescription.xml", md);
    add("z", bulk(s + 3, 3));
    return e;
}
void put(const std::string& path, const std::string& b, uint64_t mtime)
{
    NoSim n;
    const auto tmp = path + ".new";
    FILE* f = fopen(tmp.c_str(), "w");
    if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) fail("harness", "cannot write %s", path.c_str());
    const struct timespec ts[2] = {{0, UTIME_OMIT}, {static_cast<time_t>(mtime / 1000000000), static_cast<long>(mtime % 1000000000)}};
    ::utimensat(AT_FDCWD, tmp.c_str(), ts, 0);
    if (::rename(tmp.c_str(), path.c_str())) fail("harness", "cannot rename %s", tmp.c_str());
}
// A new version of the FMU at this path
void publish(int fmu, int path, uint64_t mtime)
{
    Fmu& f = w->fmus[fmu];
    if (path && !w->versions) { // a copy
        put(f.paths[path].path, zu::make_zip(f.versions[0].files, false, ""), f.versions[0].mtime);
        f.paths[path].current = 0;
        return;
    }
    Version v;
    v.mtime = mtime;
    v.files = fmu_files(f, fmu, static_cast<int>(f.versions.size()));
    if (f.paths[path].bad) {
        const auto k = f.seed % 5;
        for (size_t i = 0; i < v.files.size(); ++i)
            if (v.files[i].name == "modelDescription.xml") {
                auto& d = v.files[i].data;
                if (k == 0) {
                    v.files.erase(v.files.begin() + i);
                    break;
                }
                if (k == 1) d.replace(d.find("fmiVersion=\""), 15, "fmiVersion=\"3.0");
                if (k == 2) d.replace(d.find(" guid"), 5, " giud");
                if (k == 3) d.resize(d.size() / 2);
                if (k == 4) d.replace(d.find("fmiVersion"), 10, "fmuVersion");
            }
    }
    auto b = zu::make_zip(v.files, f.seed % 6 == 0, "");
    put(f.paths[path].path, b, mtime);
    f.paths[path].current = static_cast<int>(f.versions.size());
    f.versions.push_back(v);
}
bool get(const std::string& path, std::string& b)
{
    NoSim n;
    FILE* f = fopen(path.c_str(), "r");
    if (!f) return false;
    b.clear();
    char buf[65536];
    size_t k;
    while ((k = fread(buf, 1, sizeof buf, f)) > 0) b.append(buf, k);
    fclose(f);
    return true;
}
// Which version of the FMU the directory contains, completely; otherwise -1 and what is wrong
int contents(const std::string& dir, const Fmu& f, std::string& what)
{
    NoSim n;
    std::string md;
    if (!get(dir + "/modelDescription.xml", md)) {
        what = "there is no modelDescription.xml";
        return -1;
    }
    for (size_t v = 0; v < f.versions.size(); ++v) {
        bool same = false;
        for (const auto& e : f.versions[v].files) same |= e.name == "modelDescription.xml" && e.data == md;
        if (!same) continue;
        for (const auto& e : f.versions[v].files) {
            struct stat st;
            if (e.dir) {
                if (::stat((dir + "/" + e.name).c_str(), &st) || !S_ISDIR(st.st_mode)) {
                    what = e.name + " is missing";
                    return -1;
                }
                continue;
            }
            std::string b;
            if (!get(dir + "/" + e.name, b)) {
                what = e.name + " is missing";
                return -1;
            }
            if (b != e.data) {
                what = e.name + " is not that of version " + std::to_string(v) + ", as modelDescription.xml is (" + std::to_string(b.size()) + " bytes instead of " + std::to_string(e.data.size()) + ")";
                return -1;
            }
        }
        return static_cast<int>(v);
    }
    what = "modelDescription.xml (" + std::to_string(md.size()) + " bytes) is that of no version";
    return -1;
}

// ---- the clients ---------------------------------------------------------------------------------
struct Handle
{
    std::shared_ptr<IFmu> f;
    int fmu, path, importer, version;
    std::string dir;
};
void verify(const Handle& h)
{
    std::string what;
    const int v = contents(h.dir, w->fmus[h.fmu], what);
    if (v != h.version) fail("changed", "the files of FMU %d changed while it was in use: version %d instead of %d %s", h.fmu, v, h.version, what.c_str());
}
struct Live // handles of one importer
{
    int sure = 0, leaving = 0;
    const void* id = nullptr;
};

void worker(int th)
{
    const Plan& p = w->plan[th];
    {
        NoSim n;
        if (!vproc_alive(p.vp)) return;
        set_vproc(p.vp);
    }
    name_thread(("p" + std::to_string(p.vp)).c_str());
    if (p.delay) advance(p.delay);
    std::vector<std::unique_ptr<IImporter>> imps(p.second ? 2 : 1);
    std::vector<std::vector<Live>> live(2, std::vector<Live>(w->fmus.size()));
    auto init = io_faults();
    try {
        AllocFaults af;
        imps[0].reset(factories[p.vp]->make(w->root, nullptr));
        if (p.second) imps[1].reset(factories[p.vp]->make(w->root, imps[0].get()));
    } catch (const std::exception& e) {
        NoSim n;
        if (io_faults() == init) fail("exception", "an importer could not be created although nothing was wrong: %s", e.what());
        return;
    }
    std::vector<Handle> held;
    std::vector<std::thread> others;
    auto release = [&](size_t i, bool other) {
        Handle h = std::move(held[i]);
        held.erase(held.begin() + i);
        verify(h);
        Live& l = live[h.importer][h.fmu];
        --l.sure;
        if (other) {
            ++l.leaving;
            others.emplace_back([&l, h = std::move(h)]() mutable {
                h.f.reset();
                NoSim n;
                --l.leaving;
            });
            count("releases by other threads");
        } else {
            h.f.reset();
        }
    };
    for (const auto& o : p.ops) {
        if (o.pause) advance(o.pause);
        const auto hits = fs_disk_full_hits();
        if (o.kind == Op::RELEASE) {
            if (!held.empty()) release(o.a % held.size(), o.other);
            continue;
        }
        if (o.kind == Op::CLEANUP) {
            if (w->root.empty()) continue;
            const auto before = io_faults();
            try {
                imps[0]->cleanup(); // (no failing allocations here, which libstdc++'s directory iterators do not survive)
            } catch (const std::exception& e) {
                NoSim n;
                if (io_faults() == before) fail("exception", "cleaning up failed although nothing was wrong: %s", e.what());
            }
            count("cleanups");
            for (const auto& h : held) verify(h);
            continue;
        }
        const int k = o.importer % static_cast<int>(imps.size());
        Fmu& f = w->fmus[o.fmu];
        Path& path = f.paths[o.path];
        Live& l = live[k][o.fmu];
        const auto before = io_faults();
        uint64_t mtime;
        int current;
        Live was;
        bool busy = false; // another importer in this thread uses it
        {
            NoSim n;
            current = path.current;
            mtime = f.versions[current].mtime;
            was = l;
            for (size_t j = 0; j < imps.size(); ++j) busy |= static_cast<int>(j) != k && (live[j][o.fmu].sure || live[j][o.fmu].leaving);
            dsim::log("t%d of process %d imports FMU %d (path %d, importer %d)", tid(), p.vp, o.fmu, o.path, k);
        }
        Handle h{nullptr, o.fmu, o.path, k, -1, ""};
        try {
            AllocFaults af;
            h.f.reset(imps[k]->import(path.path));
        } catch (const std::exception& e) {
            NoSim n;
            dsim::log("import failed: %s", strrchr(e.what(), '/') ? strrchr(e.what(), '/') : e.what());
            const bool refused = w->root.empty() && (busy || was.leaving) && w->versions;
            // (libzip looks at the file name more than once)
            const bool replaced = path.current != current;
            if (io_faults() == before && !path.bad && !refused && !replaced) fail("exception", "the import of FMU %d failed although nothing was wrong: %s", o.fmu, e.what());
            count("errors reported");
            if (fs_disk_full_hits() > hits) count("imports refused because the disk was full");
            if (fs_disk_full_hits() > hits + 10) fail("retries", "the import of FMU %d tried again and again to write although the disk was full", o.fmu);
            continue;
        }
        NoSim n;
        if (fs_disk_full_hits() > hits + 10) fail("retries", "the import of FMU %d tried again and again to write although the disk was full", o.fmu);
        if (!h.f) fail("null", "the import of FMU %d returned a null pointer", o.fmu);
        if (path.bad && !was.sure && !was.leaving) fail("bad", "a file that is not a valid FMU was imported");
        h.dir = h.f->path();
        dsim::log("t%d of process %d has FMU %d", tid(), p.vp, o.fmu);
        if (h.f->fmi() != f.fmi) fail("version", "FMU %d has FMI version %d instead of %d", o.fmu, h.f->fmi(), f.fmi);
        if (was.sure && h.f->id() != l.id) fail("identity", "another object was returned for FMU %d although the first one still exists", o.fmu);
        std::string what;
        h.version = contents(h.dir, f, what);
        if (h.version < 0) fail("incomplete", "the import of FMU %d was successful, but %s", o.fmu, what.c_str());
        if (!was.sure && !was.leaving && f.versions[h.version].mtime < mtime) fail("stale", "the import of FMU %d gave version %d, but there was a newer one before", o.fmu, h.version);
        l.id = h.f->id();
        ++l.sure;
        held.push_back(std::move(h));
        count("imports");
        note_max("FMUs in use by one thread", held.size());
    }
    while (!held.empty()) release(held.size() - 1, false);
    for (auto& t : others) t.join();
    while (!imps.empty()) imps.pop_back();
}

void filler()
{
    if (now() < w->fullFrom) advance(w->fullFrom - now());
    fs_disk_full(true);
    dsim::log("the disk is full");
    if (now() < w->fullTo) advance(w->fullTo - now());
    fs_disk_full(false);
    dsim::log("there is space on the disk");
}

void updater()
{
    for (const auto& u : w->updates) {
        if (now() < u.when) advance(u.when - now());
        NoSim n;
        publish(u.fmu, u.path, wall());
        ++w->updated;
        dsim::log("FMU %d updated (path %d)", u.fmu, u.path);
        count("FMUs updated");
    }
}
} // namespace

void dsim_setup()
{
    char exe[2000];
    const auto n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n] = 0;
    std::string dir(exe);
    dir.resize(dir.rfind('/'));
    for (int k = 1; k <= PROCS; ++k) {
        const auto so = dir + "/vproc_C19." + std::to_string(k) + ".so";
        void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) {
            fprintf(stderr, "%s\n", dlerror());
            abort();
        }
        factories[k] = reinterpret_cast<ImporterFactory* (*)()>(dlsym(h, "dsim_importer_factory"))();
    }
}

void dsim_run()
{
    World world;
    w = &world;
    sched_config cfg;
    const auto base = std::string(scratch());
    for (const char* d : {"/fmus", "/tmp"}) ::mkdir((base + d).c_str(), 0777);
    setenv("TMPDIR", (base + "/tmp").c_str(), 1);
    const bool temporary = draw_bool(15);
    const int nproc = temporary ? 1 : static_cast<int>(1 + draw(3));
    const int nfmu = static_cast<int>(1 + draw(3));
    const bool updates = w->versions = draw_bool(35);
    const bool crash = !temporary && draw_bool(40);
    const bool restart = crash && draw_bool(70);
    const bool errors = draw_bool(25);
    const bool cleanups = !temporary && draw_bool(40);
    const unsigned crashRate = 200 + static_cast<unsigned>(draw(3000)), crashes = 1 + static_cast<unsigned>(draw(2));
    w->root = temporary ? "" : base + "/cache";
    static const char* const GUIDS[] = {"{8c4e810f-3df3-4a00-8276-176fa3c9f9e0}", "{8c4e810f-3df3-4a00-8276-176fa3c9f9e1}", "{8C4E810F-3df3-4a00-8276-176fa3c9f9e0}", "a", "{..}", " {x y} ", "A", "a/b", "b.data"};
    const int g0 = static_cast<int>(draw(9));
    for (int i = 0; i < nfmu; ++i) {
        Fmu f;
        f.guid = GUIDS[(g0 + i) % 9];
        f.fmi = draw_bool(30) ? 1 : 2;
        f.seed = static_cast<unsigned>(draw(100000));
        const int np = draw_bool(25) ? 2 : 1;
        for (int k = 0; k < np; ++k) {
            Path p;
            p.path = base + "/fmus/fmu " + std::to_string(i) + (k ? "_copy" : "") + ".fmu";
            p.bad = k == 0 && np == 1 && draw_bool(8);
            f.paths.push_back(p);
        }
        w->fmus.push_back(f);
    }
    auto plan_thread = [&](int vp, uint64_t delay) {
        Plan p;
        p.vp = vp;
        p.delay = delay;
        p.second = !updates && draw_bool(30);
        if (temporary) p.second = draw_bool(60);
        const int k = static_cast<int>(1 + draw(5));
        for (int i = 0; i < k; ++i) {
            Op o{};
            const auto x = draw(100);
            o.kind = x < 60 ? Op::IMPORT : x < 85 || !cleanups ? Op::RELEASE : Op::CLEANUP;
            o.fmu = static_cast<int>(draw(nfmu));
            o.path = static_cast<int>(draw(w->fmus[o.fmu].paths.size()));
            o.importer = static_cast<int>(draw(2));
            o.other = !temporary && draw_bool(25);
            o.a = draw(10);
            o.pause = draw_bool(40) ? 1 + draw(3000000) : 0;
            w->work += o.pause;
            // (threads that wait for the end of each other's use of old versions could wait for ever)
            if (o.kind == Op::IMPORT && updates && !temporary) {
                Op r{};
                r.kind = Op::RELEASE;
                p.ops.push_back(r);
            }
            p.ops.push_back(o);
        }
        w->work += delay;
        w->plan.push_back(p);
    };
    for (int vp = 1; vp <= nproc; ++vp) {
        const int nt = temporary ? 1 : static_cast<int>(1 + draw(2));
        for (int t = 0; t < nt; ++t) plan_thread(vp, draw_bool(40) ? draw(3000000) : 0);
    }
    if (restart) plan_thread(PROCS, 1000000 + draw(4000000));
    if (updates) {
        const int k = static_cast<int>(1 + draw(3));
        uint64_t t = 1000000000;
        for (int i = 0; i < k; ++i) {
            t += 1000 + draw(2000000);
            const int f = static_cast<int>(draw(nfmu));
            w->updates.push_back({t, f, static_cast<int>(draw(w->fmus[f].paths.size()))});
        }
    }
    if (errors) {
        const unsigned rate = draw_bool(50) ? 3000 : 20000;
        for (int k : {F_LOCK_FAIL, F_OPEN_FAIL, F_MKDIR_FAIL, F_REMOVE_FAIL, F_RENAME_FAIL, F_READ_FAIL, F_WRITE_FAIL, F_CLOSE_FAIL, F_SEEK_FAIL})
            if (draw_bool(50)) enable_fault(k, rate);
        if (draw_bool(30)) enable_fault(F_USER, 50000);
        if (draw_bool(50)) enable_fault(F_ALLOC_FAIL, draw_bool(50) ? 300 : 3000);
    }
    if (draw_bool(10)) {
        w->fullFrom = 1000000000 + draw(3000000);
        w->fullTo = w->fullFrom + 1 + draw(3000000);
    }
    if (draw_bool(30)) enable_fault(F_WRITE_SHORT, 100000);
    fs_disk_full(false);
    if (draw_bool(40)) enable_fault(F_STALL, draw_bool(50) ? 1000 : 20000);
    fs_virtual_mtime(true);
    start(cfg);
    dsim::log("%d processes, %d threads, %d FMUs%s%s%s", nproc, (int)w->plan.size(), nfmu, temporary ? ", temporary cache" : "", crash ? ", crashes" : "", errors ? ", errors" : "");
    for (int i = 0; i < nfmu; ++i)
        for (size_t k = 0; k < w->fmus[i].paths.size(); ++k) {
            NoSim n;
            publish(i, static_cast<int>(k), wall() - 3600000000000ull + w->fmus[i].versions.size() * 1000000 + k);
        }
    if (crash) {
        spare_main_process(true);
        enable_fault(F_CRASH, crashRate);
        limit_fault(F_CRASH, crashes);
    }
    std::vector<std::thread> threads;
    for (size_t i = 0; i < w->plan.size(); ++i) threads.emplace_back(worker, static_cast<int>(i));
    if (updates) threads.emplace_back(updater);
    if (w->fullTo) threads.emplace_back(filler);
    while (live_threads() > 1) {
        advance(20000000);
        if (now() > injected_until() + w->work + injected_delay() + 60000000000ull) fail("stuck", "imports wait for ever");
    }
    for (auto& t : threads) t.join();
    int crashed = 0;
    for (int vp = 1; vp <= PROCS; ++vp) crashed += !vproc_alive(vp);
    if (crashed) count("process crashes", crashed);
    nontrivial();
    for (int k = 0; k < F_KINDS; ++k) disable_fault(k);
    if (!restart) {
        // A new process can import everything, and remove it
        const int vp = PROCS;
        set_vproc(vp);
        std::unique_ptr<IImporter> imp(factories[vp]->make(w->root, nullptr));
        for (int i = 0; i < nfmu; ++i)
            for (auto& p : w->fmus[i].paths) {
                if (p.bad) continue;
                std::unique_ptr<IFmu> f;
                try {
                    f.reset(imp->import(p.path));
                } catch (const std::exception& e) {
                    fail("exception", "FMU %d cannot be imported: %s", i, e.what());
                }
                std::string what;
                const auto dir = f->path();
                const int v = contents(dir, w->fmus[i], what);
                if (v < 0) fail("incomplete", "the import of FMU %d was successful, but %s", i, what.c_str());
                if (w->fmus[i].versions[v].mtime < w->fmus[i].versions[p.current].mtime) fail("stale", "the import of FMU %d gave version %d instead of %d", i, v, p.current);
            }
        if (!w->root.empty()) imp->cleanup();
        imp.reset();
        set_vproc(0);
    }
    NoSim n;
    if (!restart && !w->root.empty())
        if (DIR* d = opendir(w->root.c_str())) {
            while (auto e = readdir(d)) {
                std::string s = e->d_name;
                if (s == "." || s == ".." || s == "lock") continue;
                fail("left-over", "`%s' was left in the cache after cleaning up", s.c_str());
            }
            closedir(d);
        }
    if (!crashed && !faults_fired(F_REMOVE_FAIL) && !faults_fired(F_OPEN_FAIL))
        if (DIR* d = opendir((base + "/tmp").c_str())) {
            while (auto e = readdir(d)) {
                std::string s = e->d_name;
                if (s == "." || s == "..") continue;
                fail("left-over", "`%s' was left in the directory for temporary files", s.c_str());
            }
            closedir(d);
        }
    // (lock files may remain open until the next use of some lock file)
    if (const int n = crashed ? 0 : fs_open_count(false)) fail("left-open", "%d files are still open after all importers and FMUs have been destroyed", n);
    fold(w->updated);
}
