// C04: stopping, pausing and resuming a run never loses a request.
#include "common.hpp"

#include <thread>

namespace dsim
{
const char* property_id = "C04";
}
using namespace hx;

void dsim_setup() { quiet(); }

namespace
{
struct Span
{
    uint64_t begin, end;
    bool value;
};
struct Round
{
    int kind; // 0 run, 1 asynchronous run, 2 asynchronous run without a target, 3 single steps
    int n;
    bool stopAtOnce, pollAtOnce;
    uint64_t delay; // kind 2 / async: wait before the stop
    bool lateStop;
    uint64_t pause;
    // history
    uint64_t reqBegin = 0, reqEnd = 0, ret = 0;
    bool result = false;
    time_point target, endTime;
};
struct Act
{
    int kind; // 0 stop, 1 poll
    uint64_t delay;
};
struct World
{
    std::vector<Span> stops, polls;
    cosim::execution* ex = nullptr;
};
World* w;

void do_stop()
{
    uint64_t b;
    {
        NoSim n;
        b = seq();
    }
    w->ex->stop_simulation();
    NoSim n;
    w->stops.push_back({b, seq(), true});
    dsim::log("stop request");
}
void do_poll()
{
    uint64_t b;
    {
        NoSim n;
        b = seq();
    }
    const bool v = w->ex->is_running();
    NoSim n;
    w->polls.push_back({b, seq(), v});
}
class Obs : public Probe
{
public:
    using Probe::Probe;
    void step_complete(cosim::step_number n, duration dt, time_point t) override
    {
        if (inRun) do_poll();
        Probe::step_complete(n, dt, t);
    }
    bool inRun = false;
};
} // namespace

void dsim_run()
{
    World world;
    w = &world;
    GenOptions o;
    o.maxSims = 2;
    o.maxVars = 1;
    o.maxFuns = 0;
    Spec sp = generate(o);
    std::vector<Round> rounds(1 + draw(4));
    for (auto& r : rounds) {
        r.kind = static_cast<int>(draw(4));
        r.n = static_cast<int>(1 + draw(8));
        r.stopAtOnce = draw_bool(30);
        r.pollAtOnce = draw_bool(50);
        r.lateStop = draw_bool(50);
        r.delay = draw(12000000);
        r.pause = draw_bool(40) ? draw(5000000) : 0;
    }
    const int nCtl = static_cast<int>(draw(3));
    std::vector<std::vector<Act>> ctl(static_cast<size_t>(nCtl));
    for (auto& c : ctl) {
        c.resize(1 + draw(6));
        for (auto& a : c) {
            a.kind = static_cast<int>(draw(2));
            a.delay = draw_bool(30) ? 0 : draw(8000000);
        }
    }
    const bool realTime = draw_bool(15);
    const bool rare = draw_bool(25);
    if (rare) // rare stop requests, many runs reach their target
        for (auto& c : ctl)
            for (auto& a : c) a.kind = 1;
    usual_faults();
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    start(cfg);
    System sys(sp);
    sys.build_all();
    auto obs = std::make_shared<Obs>(sp, false);
    sys.exec->add_observer(obs);
    sys.exec->add_manipulator(obs);
    auto& ex = *sys.exec;
    w->ex = &ex;
    if (realTime && sp.base.count() <= 100000000) ex.get_real_time_config()->real_time_simulation = true;
    std::vector<std::thread> th;
    for (int i = 0; i < nCtl; ++i)
        th.emplace_back([&, i] {
            name_thread("controller");
            for (const auto& a : ctl[static_cast<size_t>(i)]) {
                if (a.delay) std::this_thread::sleep_for(std::chrono::nanoseconds(a.delay));
                if (a.kind == 0)
                    do_stop();
                else
                    do_poll();
            }
        });
    for (auto& r : rounds) {
        r.target = ex.current_time() + sp.base * r.n;
        const auto before = ex.current_time();
        obs->inRun = r.kind != 3;
        {
            NoSim n;
            dsim::log("round kind %d, %d steps", r.kind, r.n);
            r.reqBegin = seq();
        }
        if (r.kind == 3) {
            for (int i = 0; i < r.n; ++i) ex.step();
            NoSim n;
            r.ret = seq();
            if (ex.current_time() != r.target) fail("wrong-time", "single steps did not advance the time as they should");
        } else if (r.kind == 0) {
            r.result = ex.simulate_until(r.target);
            NoSim n;
            r.ret = seq();
        } else {
            auto f = ex.simulate_until_async(r.kind == 1 ? std::optional<time_point>(r.target) : std::nullopt);
            {
                NoSim n;
                r.reqEnd = seq();
            }
            if (r.pollAtOnce) do_poll();
            if (r.stopAtOnce) do_stop();
            if (r.lateStop || (r.kind == 2 && !r.stopAtOnce)) {
                if (r.delay) std::this_thread::sleep_for(std::chrono::nanoseconds(r.delay));
                do_stop();
            }
            r.result = f.get();
            NoSim n;
            r.ret = seq();
        }
        do_poll();
        {
            NoSim n;
            r.endTime = ex.current_time();
            dsim::log("round returned %d after %lld steps", r.result, static_cast<long long>((r.endTime - before) / sp.base));
        }
        if (r.pause) std::this_thread::sleep_for(std::chrono::nanoseconds(r.pause));
        do_poll();
    }
    for (auto& t : th) t.join();
    do_poll();

    // the history
    NoSim ns;
    size_t stopped = 0;
    for (size_t i = 0; i < rounds.size(); ++i) {
        const auto& r = rounds[i];
        if (r.kind == 3) continue;
        uint64_t first = 0, last = 0;
        for (const auto& e : obs->ev) {
            if (e.at < r.reqBegin || e.at > r.ret) continue;
            if (e.kind == Event::COMMENCE && !first) first = e.at;
            if (e.kind == Event::STEP) last = e.at;
        }
        if (!first) fail("no-step", "a run returned without a step");
        const bool reached = r.kind != 2 && r.endTime >= r.target;
        if (r.kind != 2 && r.endTime > r.target) fail("overrun", "a run went beyond its target");
        if (r.result != reached)
            fail("wrong-result", "a run returned %s although the target was %s", r.result ? "true" : "false", reached ? "reached" : "not reached");
        const uint64_t effective = r.kind == 0 ? first : r.reqEnd; // stop requests begun after this are meant for this run
        bool any = false;
        for (const auto& s : w->stops) {
            if (s.end > r.reqBegin && s.begin < r.ret) any = true;
            if (s.begin > effective && s.end < r.ret) {
                int after = 0;
                for (const auto& e : obs->ev)
                    if (e.kind == Event::STEP && e.at > s.end && e.at < r.ret) ++after;
                if (after > 1) fail("stop-ignored", "%d steps were completed after a stop request had returned", after);
                count("stops during a run");
            }
        }
        if (!reached && !any) fail("stopped-without-request", "a run ended before its target although no stop was requested while it was in progress");
        if (!reached) ++stopped;
        for (const auto& p : w->polls) {
            if (p.begin > effective && p.end <= last && !p.value)
                fail("not-running", "the simulation was reported as not running during a run");
            const uint64_t next = i + 1 < rounds.size() ? rounds[i + 1].reqBegin : UINT64_MAX;
            if (p.begin > r.ret && p.end < next && p.value) fail("still-running", "the simulation was reported as running after the run had returned");
        }
    }
    if (stopped) count("runs stopped", stopped);
    count("rounds", rounds.size());
    count("polls", w->polls.size());
    if (!w->stops.empty()) nontrivial();
    fold(stopped);
}
