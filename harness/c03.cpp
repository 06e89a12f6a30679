// C03: a slave failure surfaces as one exception and nothing else breaks.
#include "common.hpp"

namespace dsim
{
const char* property_id = "C03";
}
using namespace hx;

void dsim_setup() { quiet(); }

void dsim_run()
{
    GenOptions o;
    o.maxSims = 5;
    o.maxVars = 1;
    o.minOut = 1;
    Spec sp = generate(o);
    const int n = static_cast<int>(sp.sims.size());
    const int steps = static_cast<int>(1 + draw(6));
    const int nFail = static_cast<int>(1 + draw(2));
    const int phase = static_cast<int>(draw(PHASES));
    std::vector<std::vector<Plan>> plans(static_cast<size_t>(n));
    for (int i = 0; i < nFail; ++i) {
        const auto s = draw(static_cast<uint64_t>(n));
        Plan p;
        p.phase = draw_bool(70) ? phase : static_cast<int>(draw(PHASES));
        p.nth = p.phase <= P_START ? 0 : static_cast<int>(draw(p.phase == P_STEP ? 5 : 16));
        static const int hows[] = {0, 3, 4, 5, 6, 1, 2};
        p.how = hows[draw(p.phase == P_STEP ? 7 : 5)];
        p.what = "trouble-" + std::to_string(s) + "-" + std::to_string(i);
        bool dup = false;
        for (const auto& q : plans[s]) dup = dup || q.phase == p.phase;
        if (!dup) plans[s].push_back(p);
    }
    std::vector<int> endHow;
    for (int i = 0; i < n; ++i) endHow.push_back(draw_bool(20) ? static_cast<int>(1 + draw(2)) : 0);
    std::vector<int> again; // drivers of attempts to go on after a failure
    if (draw_bool(50))
        for (uint64_t k = 1 + draw(2); k; --k) again.push_back(static_cast<int>(draw(3)));
    const int driver = static_cast<int>(draw(4)); // 0 step, 1 simulate_until, 2 async, 3 async without a target
    const bool useProbe = draw_bool(60);
    const bool failThread = driver >= 2 && draw_bool(8);
    usual_faults();
    if (failThread) enable_fault(F_THREAD_FAIL, 300000), limit_fault(F_THREAD_FAIL, 1);
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    start(cfg);
    {
        NoSim ns;
        dsim::log("%s, driver %d", describe(sp).c_str(), driver);
    }
    std::unique_ptr<System> sys;
    if (failThread) {
        // no thread for the asynchronous run
        disable_fault(F_THREAD_FAIL);
    }
    sys = std::make_unique<System>(sp);
    sys->build_all();
    auto probe = std::make_shared<Probe>(sp, true);
    if (useProbe) sys->exec->add_observer(probe);
    for (int i = 0; i < n; ++i) sys->slaves[static_cast<size_t>(i)]->plans = plans[static_cast<size_t>(i)], sys->slaves[static_cast<size_t>(i)]->endHow = endHow[static_cast<size_t>(i)];
    auto& ex = *sys->exec;

    bool threw = false, odd = false;
    std::string msg;
    if (failThread) {
        enable_fault(F_THREAD_FAIL, 1000000);
        bool t = false;
        try {
            ex.simulate_until_async(ex.current_time() + sp.base).get();
        } catch (const std::exception&) {
            t = true;
        }
        disable_fault(F_THREAD_FAIL);
        if (!t || sys->slaves[0]->state != 0) fail("no-exception", "an asynchronous run without a thread did not fail");
        if (ex.is_running()) fail("still-running", "the simulation is reported as running although the asynchronous run could not be started");
        count("runs without a thread");
    }
    int done = 0;
    try {
        if (driver == 0)
            for (int i = 0; i < steps; ++i) {
                ex.step();
                ++done;
            }
        else if (driver == 1)
            ex.simulate_until(ex.current_time() + sp.base * steps);
        else if (driver == 2)
            ex.simulate_until_async(ex.current_time() + sp.base * steps).get();
        else {
            auto f = ex.simulate_until_async(std::nullopt);
            // run for a while; the failure may come or not
            for (int i = 0; i < 10 && f.wait_for(std::chrono::milliseconds(3)) != std::future_status::ready; ++i) { }
            ex.stop_simulation();
            f.get();
        }
    } catch (const std::exception& e) {
        NoSim ns;
        threw = true;
        msg = e.what();
        dsim::log("exception");
    } catch (...) {
        NoSim ns;
        threw = odd = true;
    }
    {
        NoSim ns;
        bool any = false;
        for (const auto& s : sys->slaves) any = any || s->failed;
        if (any) {
            nontrivial();
            count("runs with failures");
        }
        if (odd) fail("not-an-exception-object", "the call ended with an exception that is not derived from std::exception");
        if (any && !threw) fail("no-exception", "a slave failed, but the call that drives the simulation returned normally");
        if (!any && threw) fail("unexpected-exception", "the call ended with an exception although no slave failed: %s", msg.c_str());
        int nf = 0;
        for (const auto& s : sys->slaves)
            if (s->failed) {
                ++nf;
                if (msg.find(s->sp.name) == std::string::npos)
                    fail("slave-not-named", "slave %d failed in %s, but the exception does not name it: %s", s->index_, phase_name(s->failPhase), msg.c_str());
                for (const auto& p : s->plans)
                    if (p.phase == s->failPhase && p.how != 1 && p.how != 2 && p.how < 5 && p.what == s->failures[0] && msg.find(p.what) == std::string::npos)
                        fail("reason-lost", "slave %d failed with \"%s\", but the exception does not say so: %s", s->index_, p.what.c_str(), msg.c_str());
            }
        if (nf > 1) count("several slaves failed");
        // the others have completed the phase
        if (any) {
            int maxPhase = -1;
            for (const auto& s : sys->slaves)
                if (s->failed) maxPhase = std::max(maxPhase, s->failPhase == P_SETUP ? 0 : s->failPhase == P_START ? 2 : s->failPhase == P_STEP ? 3 : s->state >= 2 ? (s->steps.empty() ? 2 : 3) : s->state);
            size_t most = 0;
            for (const auto& s : sys->slaves)
                if (s->failed && s->failPhase == P_STEP) most = std::max(most, (s->steps.size() - 1) * static_cast<size_t>(s->sp.h0 ? sp.sims[static_cast<size_t>(s->index_)].df : 1));
            for (const auto& s : sys->slaves) {
                if (s->busy) fail("not-finished", "slave %d was still executing %s when the exception was seen", s->index_, s->busy);
                if (s->failed) continue;
                if (!s->steps.empty() && s->steps.back().end == 0) fail("not-finished", "slave %d had not finished its step when the exception was seen", s->index_);
                if (s->state < 1) fail("not-finished", "slave %d had not been set up when the exception was seen", s->index_);
                if (maxPhase >= 2 && s->state < 2) fail("not-finished", "slave %d had not been started when the exception was seen", s->index_);
                if (most && maxPhase == 3) {
                    const size_t df = static_cast<size_t>(sp.sims[static_cast<size_t>(s->index_)].df);
                    const size_t want = most / df + 1;
                    if (s->steps.size() != want) fail("not-finished", "slave %d had made %zu of %zu steps when the exception was seen", s->index_, s->steps.size(), want);
                }
            }
        }
    }
    if (ex.is_running()) fail("still-running", "the simulation is reported as running after the call has returned");
    // everything can be inspected
    const auto t = ex.current_time();
    for (int i = 0; i < n; ++i) {
        const auto md = ex.get_model_description(i);
        if (md.name != sp.sims[static_cast<size_t>(i)].name) fail("inspection", "wrong model description");
    }
    if (!ex.get_modified_variables().empty()) fail("inspection", "modified variables reported");
    ex.get_real_time_metrics()->total_average_real_time_factor.load();
    ex.stop_simulation();
    if (useProbe)
        for (int i = 0; i < n; ++i) {
            auto* ob = probe->obs.at(i);
            if (ob->name() != sp.sims[static_cast<size_t>(i)].name) fail("inspection", "wrong name");
            ob->model_description();
            for (const auto& x : sp.sims[static_cast<size_t>(i)].out) observe(*ob, x.type, x.ref);
        }
    {
        NoSim ns;
        if (driver == 0 && t != sp.start + sp.base * done) fail("wrong-time", "logical time is wrong after the failure");
        if (useProbe) {
            long long last = 0;
            for (const auto& e : probe->ev)
                if (e.kind == Event::STEP) last = e.step;
            if (t != sp.start + sp.base * last) fail("wrong-time", "logical time does not match the announced steps after the failure");
        }
        fold(static_cast<uint64_t>(done));
    }
    auto slaves = sys->slaves;
    if (threw)
        for (const int d : again) {
            std::vector<std::pair<size_t, int>> calls;
            {
                NoSim ns;
                for (const auto& s : slaves) calls.push_back({s->steps.size(), s->calls[P_SETUP] + s->calls[P_START] + s->calls[P_STEP] + s->calls[P_GET] + s->calls[P_SET]});
            }
            bool t2 = false;
            try {
                if (d == 0)
                    ex.step();
                else if (d == 1)
                    ex.simulate_until(ex.current_time() + sp.base * 2);
                else
                    ex.simulate_until_async(ex.current_time() + sp.base * 2).get();
            } catch (const std::exception&) {
                t2 = true;
            }
            if (ex.is_running()) fail("still-running", "the simulation is reported as running after an attempt to go on with a failed one");
            NoSim ns;
            count("attempts to go on after a failure");
            if (!t2) fail("no-exception", "a simulation went on after a slave had failed");
            for (size_t i = 0; i < slaves.size(); ++i) {
                const auto& s = slaves[i];
                if (s->failed && calls[i] != std::make_pair(s->steps.size(), s->calls[P_SETUP] + s->calls[P_START] + s->calls[P_STEP] + s->calls[P_GET] + s->calls[P_SET])) fail("called-after-failure", "slave %zu was called again after the exception for its failure had been seen", i);
            }
            if (ex.current_time() != t) fail("wrong-time", "logical time changed in an attempt to go on with a failed simulation");
        }
    for (const auto& s : slaves)
        if (s->ends) fail("protocol", "slave %d was told that the simulation has ended before it had", s->index_);
    sys.reset();
    for (const auto& s : slaves) {
        if (!s->failed && s->calls[P_START] && !s->ends) fail("not-ended", "slave %d was not told that the simulation has ended", s->index_);
        if (s->ends && s->endHow) count("failures to end the simulation");
    }
    if (live_threads() != 1) fail("leftover-threads", "%d threads are left after destruction", live_threads() - 1);
}
