// C06: the worker pool runs every task once and waits for all of them.
#include "cosim/utility/thread_pool.hpp"
#include "dsim.hpp"

#include <memory>
#include <stdexcept>
#include <system_error>
#include <vector>

namespace dsim
{
const char* property_id = "C06";
}
using namespace dsim;

void dsim_setup() {}

namespace
{
struct TaskPlan
{
    int kind; // 0 plain, 1 takes virtual time, 2 yields, 3 submits a child task
    uint64_t ns;
    int child;
};
struct TaskState
{
    int started = 0, finished = 0;
    int tid = -1;
    uint64_t submitted = 0;
};
struct World
{
    std::vector<TaskPlan> plan;
    std::vector<TaskState> st; // oracle data, touched in NoSim only
    std::vector<long> effect; // plain memory written by tasks, read by the waiter
    cosim::utility::thread_pool* pool = nullptr;
    unsigned workers = 0;
    bool inPool = false;
};
World* w;

void submit(int i);

void body(int i)
{
    int kind, child;
    uint64_t ns;
    {
        NoSim n;
        auto& s = w->st[i];
        if (s.submitted == 0) fail("task-not-submitted", "task %d ran but was never submitted", i);
        if (++s.started > 1) fail("task-twice", "task %d was started %d times", i, s.started);
        s.tid = tid();
        if (w->workers == 0 && s.tid != 0) fail("not-on-caller", "task %d ran on thread %d although the pool has no workers", i, s.tid);
        kind = w->plan[i].kind;
        child = w->plan[i].child;
        ns = w->plan[i].ns;
    }
    if (kind == 1) advance(ns);
    if (kind == 2)
        for (int k = 0; k < 3; ++k) std::this_thread::yield();
    if (kind == 3) submit(child);
    w->effect[i] = 1000 + i; // instrumented on purpose
    {
        NoSim n;
        ++w->st[i].finished;
    }
}

void submit(int i)
{
    {
        NoSim n;
        w->st[i].submitted = seq();
        dsim::log("submit task %d", i);
    }
    w->pool->submit([i] { body(i); });
}
} // namespace

void dsim_run()
{
    World world;
    w = &world;
    // plan
    sched_config cfg;
    const unsigned workers = static_cast<unsigned>(draw(5));
    const bool failThreads = draw_bool(15);
    const int rounds = static_cast<int>(1 + draw(4));
    struct Round
    {
        std::vector<int> tasks;
        bool wait;
        bool pauseBefore;
    };
    std::vector<Round> plan(rounds);
    int n = 0;
    for (auto& r : plan) {
        const int k = static_cast<int>(draw(7));
        for (int i = 0; i < k; ++i) {
            TaskPlan t{static_cast<int>(draw(4)), 1 + draw(2000000), -1};
            const int self = n++;
            r.tasks.push_back(self);
            w->plan.push_back(t);
            if (t.kind == 3) {
                w->plan[self].child = n++;
                w->plan.push_back(TaskPlan{static_cast<int>(draw(3)), 1 + draw(2000000), -1});
            }
        }
        r.wait = !draw_bool(20);
        r.pauseBefore = draw_bool(30);
    }
    w->st.resize(n);
    w->effect.resize(n);
    w->workers = workers;
    if (draw_bool(50)) enable_fault(F_SPURIOUS, 100000);
    if (draw_bool(50)) enable_fault(F_NOTIFY_PICK, 300000);
    if (draw_bool(30)) enable_fault(F_STALL, 3000);
    if (failThreads) enable_fault(F_THREAD_FAIL, 300000);
    cfg.races = -1;
    start(cfg);
    dsim::log("pool of %u workers, %d rounds, %d tasks", workers, rounds, n);

    std::unique_ptr<cosim::utility::thread_pool> pool;
    bool threw = false;
    try {
        pool = std::make_unique<cosim::utility::thread_pool>(workers);
    } catch (const std::exception& e) {
        threw = true;
        dsim::log("pool construction failed: %s", e.what());
    }
    if (threw != (faults_fired(F_THREAD_FAIL) > 0))
        fail("construction", "%s", threw ? "constructing the pool failed without a reason" : "a worker could not be created, but the pool was constructed");
    if (threw) {
        count("construction failures");
        nontrivial();
        if (live_threads() != 1) {
            settle(1000000000);
            fail("leftover-threads", "after the failed construction %d worker threads were still running", live_threads() - 1);
        }
        return;
    }
    disable_fault(F_THREAD_FAIL);
    w->pool = pool.get();
    if (pool->numWorkerThreads() != workers) fail("construction", "pool has %zu workers instead of %u", pool->numWorkerThreads(), workers);
    if (n > 1 && workers > 0) nontrivial();
    auto check_done = [&](int i, const char* when) {
        NoSim ns;
        const auto& s = w->st[i];
        if (s.submitted && (s.started != 1 || s.finished != 1))
            fail(s.started ? "not-finished" : "not-run", "task %d: started %d, finished %d times when %s", i, s.started, s.finished, when);
    };
    for (auto& r : plan) {
        for (int i : r.tasks) submit(i);
        if (r.pauseBefore) settle(500000);
        if (r.wait) {
            pool->wait_for_tasks_to_finish();
            dsim::log("waited");
            count("waits");
            for (int i = 0; i < n; ++i) {
                check_done(i, "the wait returned");
                bool done;
                {
                    NoSim ns;
                    done = w->st[i].submitted != 0;
                }
                if (done && w->effect[i] != 1000 + i) fail("effect-lost", "the effect of task %d is not visible to the waiter", i);
            }
        }
    }
    pool.reset();
    for (int i = 0; i < n; ++i) {
        check_done(i, "the pool was destroyed");
        bool done;
        {
            NoSim ns;
            done = w->st[i].submitted != 0;
        }
        if (done && w->effect[i] != 1000 + i) fail("effect-lost", "the effect of task %d is not visible after destruction", i);
    }
    if (live_threads() != 1) fail("leftover-threads", "%d threads were still running after the pool was destroyed", live_threads() - 1);
    count("tasks", n);
    fold(n);
}
