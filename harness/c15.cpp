// C15: a lock file excludes as promised, within and across processes.
#include "c15_iface.hpp"
#include "dsim.hpp"

#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace dsim
{
const char* property_id = "C15";
}
using namespace dsim;

namespace
{
constexpr int PROCS = 4;
LockFactory* factories[PROCS + 1];

struct Op
{
    enum Kind
    {
        LOCK, // construct, acquire, hold, release
        IDLE, // construct and destroy without locking
        TEMP, // lock and remove a file of the thread's own
        TWO, // hold two files, in order
    } kind;
    int file, spelling;
    int how; // 0 lock, 1 try, 2 shared, 3 try shared, 4 constructor, 5 constructor shared
    int second_file, second_how;
    bool idle_inside, relocate, again;
    int again_how;
    int release; // 0 destroy, 1 unlock then destroy, 2 assign, 3 unlock and keep until the end
    int retries; // after a failed attempt, with the same object
    bool keep; // an object that failed to lock is kept until the end
    uint64_t hold, pause;
};
struct Plan
{
    int vp;
    uint64_t delay;
    std::vector<Op> ops;
};
struct Interest
{
    int vp, thread;
    bool excl, held;
};
struct Attempt
{
    int file, thread;
    bool excl, excused;
    int vp;
};
struct World
{
    std::vector<Plan> plan;
    std::vector<std::vector<std::string>> paths; // per file: spellings
    std::vector<std::vector<Interest>> interest; // per file
    std::vector<Attempt*> attempts;
    std::string dir;
    int done = 0;
};
World* w;

const char* hname(bool e) { return e ? "exclusive" : "shared"; }

// Oracle ------------------------------------------------------------------------------------
void request(int f, int vp, int th, bool excl)
{
    NoSim n;
    w->interest[f].push_back({vp, th, excl, false});
    for (auto a : w->attempts)
        if (a->file == f && a->thread != th && (a->excl || excl)) a->excused = true;
}
void forget(int f, int th)
{
    NoSim n;
    auto& v = w->interest[f];
    for (size_t i = 0; i < v.size(); ++i)
        if (v[i].thread == th) {
            v.erase(v.begin() + i);
            return;
        }
}
void acquired(int f, int vp, int th, bool excl)
{
    NoSim n;
    dsim::log("t%d of process %d holds file %d (%s)", th, vp, f, hname(excl));
    for (auto& i : w->interest[f]) {
        if (i.thread == th) {
            i.held = true;
            continue;
        }
        if (!i.held || !vproc_alive(i.vp)) continue;
        if (excl || i.excl)
            fail("exclusion", "thread %d of process %d acquired file %d (%s) while thread %d of process %d held it (%s)", th, vp, f, hname(excl), i.thread, i.vp, hname(i.excl));
    }
    count(excl ? "exclusive locks" : "shared locks");
}
void releasing(int f, int th)
{
    NoSim n;
    dsim::log("t%d releases file %d", th, f);
    for (auto& i : w->interest[f])
        if (i.thread == th) i.held = false;
}
uint64_t io_faults() { return faults_fired(F_LOCK_FAIL) + faults_fired(F_OPEN_FAIL) + faults_fired(F_ALLOC_FAIL); }

struct Held
{
    std::unique_ptr<ILock> l;
    bool excl = false;
    int file = -1;
};

// A call that may throw only if an I/O error was injected meanwhile. (Errors hit the thread that gets them, so the
// number of faults before and after the call is compared.)
template<typename F>
bool guarded(const char* what, F f)
{
    const auto before = io_faults();
    try {
        AllocFaults af;
        f();
        return true;
    } catch (const std::exception& e) {
        NoSim n;
        dsim::log("%s failed: %s", what, e.what());
        if (io_faults() == before) fail("exception", "%s failed although nothing was wrong: %s", what, e.what());
        count("errors reported");
        return false;
    }
}

// how: 0 lock, 1 try, 2 shared, 3 try shared. `l` exists. Returns whether the lock is held.
bool acquire(ILock& l, int f, int how, int vp, int th)
{
    const bool excl = how < 2;
    bool got = false;
    const bool isTry = how & 1;
    if (isTry) {
        Attempt a{f, th, excl, false, vp};
        uint64_t idle, inj, begin;
        {
            NoSim n;
            for (auto& i : w->interest[f])
                if (i.thread != th && vproc_alive(i.vp) && (excl || i.excl)) a.excused = true;
            w->attempts.push_back(&a);
            idle = idle_time();
            inj = injected_delay();
            begin = now();
        }
        request(f, vp, th, excl);
        const bool ok = guarded(excl ? "try_lock" : "try_lock_shared", [&] { got = excl ? l.try_lock() : l.try_lock_shared(); });
        {
            NoSim n;
            for (size_t i = 0; i < w->attempts.size(); ++i)
                if (w->attempts[i] == &a) {
                    w->attempts.erase(w->attempts.begin() + i);
                    break;
                }
            // (a stalled thread may keep others waiting for an internal mutex)
            if (injected_delay() == inj && begin >= injected_until() && idle_time() != idle)
                fail("try-waits", "%s on file %d by thread %d of process %d waited", excl ? "try_lock" : "try_lock_shared", f, th, vp);
            if (ok && !got) {
                count("try failed");
                if (!a.excused)
                    fail("try-fails", "%s on file %d by thread %d of process %d failed although nobody else held or wanted a conflicting lock", excl ? "try_lock" : "try_lock_shared", f, th, vp);
            }
        }
    } else {
        request(f, vp, th, excl);
        got = guarded(excl ? "lock" : "lock_shared", [&] { excl ? l.lock() : l.lock_shared(); });
    }
    if (got)
        acquired(f, vp, th, excl);
    else
        forget(f, th);
    return got;
}

std::unique_ptr<ILock> construct(int vp, const std::string& path, int state)
{
    ILock* l = nullptr;
    guarded("construction", [&] { l = factories[vp]->make(path.c_str(), state); });
    return std::unique_ptr<ILock>(l);
}

// Returns the object, holding the lock or not.
Held take(int vp, int th, int file, int spelling, int how, int retries, std::vector<std::unique_ptr<ILock>>* kept)
{
    Held h;
    h.file = file;
    const auto& path = w->paths[file][spelling];
    if (how >= 4) {
        h.excl = how == 4;
        request(file, vp, th, h.excl);
        h.l = construct(vp, path, how == 4 ? 1 : 2);
        if (h.l) {
            acquired(file, vp, th, h.excl);
        } else {
            forget(file, th);
        }
        return h;
    }
    h.excl = how < 2;
    h.l = construct(vp, path, 0);
    if (!h.l) return h;
    for (int k = 0;; ++k) {
        if (acquire(*h.l, file, how, vp, th)) return h;
        if (k == retries) break;
        advance(500000);
    }
    if (kept) {
        kept->push_back(std::move(h.l));
        count("objects kept after a failure");
    }
    h.l.reset();
    return h;
}

void release(Held& h, int how, int th, std::vector<std::unique_ptr<ILock>>* kept = nullptr)
{
    releasing(h.file, th);
    if (how == 1 || how == 3) {
        guarded("unlock", [&] { h.excl ? h.l->unlock() : h.l->unlock_shared(); });
        forget(h.file, th);
        if (how == 3 && kept) kept->push_back(std::move(h.l));
        h.l.reset();
    } else if (how == 2) {
        if (guarded("assignment", [&] { h.l->assign(w->paths[h.file][0].c_str()); })) {
            forget(h.file, th);
            h.l.reset();
        } else {
            h.l.reset();
            forget(h.file, th);
        }
    } else {
        h.l.reset();
        forget(h.file, th);
    }
}

void worker(int th)
{
    const Plan& p = w->plan[th];
    {
        NoSim n;
        if (!vproc_alive(p.vp)) return; // died before this thread was started
        set_vproc(p.vp);
    }
    name_thread(("p" + std::to_string(p.vp)).c_str());
    if (p.delay) advance(p.delay);
    int serial = 0;
    std::vector<std::unique_ptr<ILock>> kept;
    for (const auto& o : p.ops) {
        if (o.pause) advance(o.pause);
        switch (o.kind) {
            case Op::IDLE: {
                construct(p.vp, w->paths[o.file][o.spelling], 0).reset();
                count("idle objects");
                break;
            }
            case Op::TEMP: {
                const auto path = w->dir + "/own" + std::to_string(th) + "_" + std::to_string(serial++);
                auto l = construct(p.vp, path, 1);
                if (!l) break;
                l.reset();
                ::unlink(path.c_str());
                count("removed lock files");
                break;
            }
            case Op::LOCK:
            case Op::TWO: {
                auto h = take(p.vp, th, o.file, o.spelling, o.how, o.retries, o.keep ? &kept : nullptr);
                if (!h.l) break;
                if (o.relocate) h.l->relocate();
                Held h2;
                if (o.kind == Op::TWO) {
                    h2 = take(p.vp, th, o.second_file, 0, o.second_how, 0, o.keep ? &kept : nullptr);
                    if (h2.l) count("two locks held");
                }
                if (o.idle_inside) construct(p.vp, w->paths[o.file][0], 0).reset();
                if (o.hold) advance(o.hold);
                if (h2.l) release(h2, 0, th);
                if (o.again) { // lock the same object again, in another way
                    releasing(h.file, th);
                    guarded("unlock", [&] { h.excl ? h.l->unlock() : h.l->unlock_shared(); });
                    forget(h.file, th);
                    h.excl = o.again_how < 2;
                    if (!acquire(*h.l, h.file, o.again_how, p.vp, th)) break;
                    if (o.hold) advance(o.hold / 2);
                }
                release(h, o.release, th, &kept);
                break;
            }
        }
    }
    NoSim n;
    ++w->done;
}
} // namespace

void dsim_setup()
{
    char exe[2000];
    const auto n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n] = 0;
    std::string dir(exe);
    dir.resize(dir.rfind('/'));
    for (int k = 1; k <= PROCS; ++k) {
        const auto so = dir + "/vproc_C15." + std::to_string(k) + ".so";
        void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) {
            fprintf(stderr, "%s\n", dlerror());
            abort();
        }
        factories[k] = reinterpret_cast<LockFactory* (*)()>(dlsym(h, "dsim_lock_factory"))();
    }
}

void dsim_run()
{
    World world;
    w = &world;
    sched_config cfg;
    const int nproc = static_cast<int>(1 + draw(3));
    const int nfiles = static_cast<int>(1 + draw(3));
    const bool crash = draw_bool(25);
    const bool restart = crash && draw_bool(60);
    const bool errors = draw_bool(20);
    const bool tries = draw_bool(70);
    const bool exotic = draw_bool(30);
    w->dir = std::string(scratch()) + "/d";
    ::mkdir(w->dir.c_str(), 0777);
    const auto link = std::string(scratch()) + "/s";
    ::symlink("d", link.c_str());
    for (int f = 0; f < nfiles; ++f) {
        const auto name = "f" + std::to_string(f);
        std::vector<std::string> v{w->dir + "/" + name, w->dir + "/./" + name, link + "/" + name};
        if (draw_bool(40)) { // exists, and has another name
            fclose(fopen(v[0].c_str(), "w"));
            const auto h = w->dir + "/hard" + std::to_string(f);
            ::link(v[0].c_str(), h.c_str());
            v.push_back(h);
        }
        w->paths.push_back(v);
    }
    w->interest.resize(nfiles);
    auto plan_thread = [&](int vp, uint64_t delay) {
        Plan p;
        p.vp = vp;
        p.delay = delay;
        const int k = static_cast<int>(1 + draw(5));
        for (int i = 0; i < k; ++i) {
            Op o{};
            const auto what = draw(100);
            o.kind = what < 60 ? Op::LOCK : what < 75 ? (nfiles > 1 ? Op::TWO : Op::LOCK) : what < 90 ? Op::IDLE : exotic ? Op::TEMP : Op::LOCK;
            o.file = static_cast<int>(draw(nfiles));
            if (o.kind == Op::TWO) {
                o.file = static_cast<int>(draw(nfiles - 1));
                o.second_file = o.file + 1 + static_cast<int>(draw(nfiles - 1 - o.file));
            }
            o.spelling = static_cast<int>(draw(w->paths[o.file].size()));
            auto how = [&] {
                int h = static_cast<int>(draw(6));
                if (!tries && (h & 1) && h < 4) --h;
                return h;
            };
            o.how = how();
            o.second_how = how();
            o.idle_inside = draw_bool(20);
            o.relocate = draw_bool(15);
            o.again = draw_bool(20);
            o.again_how = how() % 4;
            o.release = static_cast<int>(draw(2));
            if (exotic) o.release = static_cast<int>(draw(4));
            o.retries = draw_bool(25) ? 1 + static_cast<int>(draw(3)) : 0;
            o.keep = draw_bool(35);
            o.hold = draw_bool(60) ? 1 + draw(3000000) : 0;
            o.pause = draw_bool(30) ? 1 + draw(2000000) : 0;
            p.ops.push_back(o);
        }
        w->plan.push_back(p);
    };
    for (int vp = 1; vp <= nproc; ++vp) {
        const int nt = static_cast<int>(1 + draw(3));
        for (int t = 0; t < nt; ++t) plan_thread(vp, draw_bool(30) ? draw(3000000) : 0);
    }
    if (restart) {
        const int nt = static_cast<int>(1 + draw(2));
        for (int t = 0; t < nt; ++t) plan_thread(PROCS, 1000000 + draw(4000000));
    }
    if (crash) {
        spare_main_process(true);
        enable_fault(F_CRASH, 300 + static_cast<unsigned>(draw(3000)));
        limit_fault(F_CRASH, 1 + static_cast<unsigned>(draw(2)));
    }
    if (errors) {
        enable_fault(F_LOCK_FAIL, draw_bool(50) ? 20000 : 150000);
        enable_fault(F_OPEN_FAIL, 20000);
        if (draw_bool(50)) enable_fault(F_ALLOC_FAIL, 10000);
    }
    if (draw_bool(30)) enable_fault(F_SPURIOUS, 50000);
    if (draw_bool(20)) enable_fault(F_STALL, 2000);
    if (draw_bool(30)) enable_fault(F_EINTR, 100000);
    start(cfg);
    dsim::log("%d processes, %d threads, %d files%s%s", nproc, (int)w->plan.size(), nfiles, crash ? ", crashes" : "", errors ? ", errors" : "");
    std::vector<std::thread> threads;
    for (size_t i = 0; i < w->plan.size(); ++i) threads.emplace_back(worker, static_cast<int>(i));
    for (auto& t : threads) t.join();
    int crashed = 0;
    for (int vp = 1; vp <= PROCS; ++vp) crashed += !vproc_alive(vp);
    if (w->plan.size() > 1) nontrivial();
    if (crashed) count("process crashes", crashed);
    int want = 0;
    for (auto& p : w->plan) want += vproc_alive(p.vp);
    if (w->done < want) fail("not-finished", "only %d of %d threads finished", w->done, want);
    for (int vp = 1; vp <= PROCS; ++vp)
        if (vproc_locks_held(vp)) fail("left-locked", "process %d still holds %d file locks after everything was released", vp, vproc_locks_held(vp));
    // Everything can be locked again.
    if (vproc_alive(1)) {
        disable_fault(F_LOCK_FAIL);
        disable_fault(F_OPEN_FAIL);
        disable_fault(F_ALLOC_FAIL);
        disable_fault(F_CRASH);
        set_vproc(1);
        for (int f = 0; f < nfiles; ++f) {
            auto l = construct(1, w->paths[f][0], 0);
            bool got = false;
            guarded("try_lock", [&] { got = l->try_lock(); });
            if (!got) fail("left-locked", "file %d cannot be locked after everything was released", f);
        }
        set_vproc(0);
    }
    fold(w->plan.size());
}
