// C28: running out of memory is an ordinary failure of the operation that needed it.
#include "common.hpp"

#include <cosim/manipulator/override_manipulator.hpp>
#include <cosim/observer/last_value_observer.hpp>
#include <cosim/observer/time_series_observer.hpp>

namespace dsim
{
const char* property_id = "C28";
}
using namespace hx;

void dsim_setup() { quiet(); }

namespace
{
// A user's observer and manipulator; it records what it was told, so that one which could not be added is found out.
struct Watch : cosim::observer, cosim::manipulator
{
    void simulator_added(int i, cosim::observable*, time_point) override { told(i, 1); }
    void simulator_added(int i, cosim::manipulable*, time_point) override { told(i, 2); }
    void simulator_removed(int i, time_point) override
    {
        NoSim n;
        if (refused) fail("refused-one-called", "an observer or manipulator that could not be added was told about a removed simulator");
        if (!known[i]) fail("unknown-removed", "an observer or manipulator was told that simulator %d was removed, which it had not been told about", i);
        known[i] = 0;
    }
    void variables_connected(cosim::variable_id, cosim::variable_id, time_point) override { }
    void variable_disconnected(cosim::variable_id, time_point) override { }
    void simulation_initialized(cosim::step_number, time_point) override { called(); }
    void simulator_step_complete(int i, cosim::step_number, duration, time_point) override
    {
        called();
        NoSim n;
        if (!known[i]) fail("unknown-simulator", "an observer was notified about simulator %d, which it had not been told about", i);
    }
    void step_complete(cosim::step_number, duration, time_point) override { called(), ++steps; }
    void step_commencing(time_point) override { called(), ++commenced; }
    void told(int i, int how)
    {
        NoSim n;
        if (refused) fail("refused-one-called", "an observer or manipulator that could not be added was told about a new simulator");
        if (known[i]) fail("told-twice", "an observer or manipulator was told twice about simulator %d (%d)", i, how);
        known[i] = how;
    }
    void called()
    {
        NoSim n;
        if (refused) fail("refused-one-called", "an observer or manipulator that could not be added was notified");
    }
    std::map<int, int> known;
    bool refused = false;
    int steps = 0, commenced = 0;
};

struct Run
{
    Spec& sp;
    std::unique_ptr<cosim::execution> ex;
    std::vector<std::shared_ptr<MSlave>> slaves;
    std::vector<std::shared_ptr<MFunction>> funs;
    int refusals = 0;

    // An operation that may fail for lack of memory, and is repeated then.  After some attempts there is enough memory.
    // Returns whether it has succeeded (always, if it may not be given up).
    template<typename F>
    bool op(const char* what, F&& f, bool giveUp = false)
    {
        for (int k = 0;; ++k) {
            const uint64_t before = faults_fired(F_ALLOC_FAIL);
            try {
                if (k < 6) {
                    AllocFaults a;
                    f(true);
                } else
                    f(false);
                return true;
            } catch (const std::bad_alloc&) {
                NoSim n;
                dsim::log("%s: no memory", what);
                count("operations refused for lack of memory");
                ++refusals;
                nontrivial();
                if (faults_fired(F_ALLOC_FAIL) == before) fail("no-reason", "%s failed for lack of memory, but there was enough", what);
                if (giveUp) {
                    count("operations given up");
                    return false;
                }
            } catch (const std::exception& e) {
                fail("operation-failed", "%s failed %s: %s", what, k ? "when it was repeated after it had failed for lack of memory" : "", e.what());
            }
        }
    }
    void add_slave(size_t i)
    {
        op("add_slave", [&](bool) {
            std::shared_ptr<MSlave> sl;
            bool gone = false;
            {
                NoAllocFaults na;
                sl = std::make_shared<MSlave>(sp.sims[i], static_cast<int>(i));
                sl->stepSize = sp.base * sp.sims[i].df;
                sl->destroyed = &gone;
            }
            int idx = -1;
            try {
                idx = ex->add_slave(sl, sp.sims[i].name, sp.sims[i].hint);
            } catch (...) {
                sl.reset();
                if (!gone) fail("refused-one-kept", "slave %zu, which could not be added, is kept", i);
                throw;
            }
            NoAllocFaults na;
            sl->destroyed = nullptr;
            if (idx != static_cast<int>(i)) fail("index", "slave %zu got index %d", i, idx);
            slaves.push_back(sl);
        });
    }
    void add_function(size_t i)
    {
        op("add_function", [&](bool) {
            std::shared_ptr<MFunction> f;
            {
                NoAllocFaults na;
                f = std::make_shared<MFunction>(sp.funs[i]);
            }
            const auto idx = ex->add_function(f);
            NoAllocFaults na;
            if (idx != static_cast<int>(i)) fail("index", "function %zu got index %d", i, idx);
            funs.push_back(f);
        });
    }
    std::vector<std::shared_ptr<Watch>> watches, refused;
    void add_watch(bool observer)
    {
        op(observer ? "add_observer" : "add_manipulator", [&](bool) {
            std::shared_ptr<Watch> w;
            {
                NoAllocFaults na;
                w = std::make_shared<Watch>();
            }
            try {
                if (observer)
                    ex->add_observer(w);
                else
                    ex->add_manipulator(w);
            } catch (...) {
                NoAllocFaults na;
                w->refused = true;
                refused.push_back(w);
                throw;
            }
            NoAllocFaults na;
            watches.push_back(w);
        });
    }
};
} // namespace

void dsim_run()
{
    GenOptions o;
    o.maxSims = 4;
    Spec sp = generate(o);
    for (auto& s : sp.sims)
        if (draw_bool(50)) s.name += " which has a name that takes memory";
    const size_t n = sp.sims.size();
    const int steps = static_cast<int>(1 + draw(8));
    const unsigned buildRate = draw_bool(80) ? 500u << draw(9) : 0;
    const unsigned stepRate = draw_bool(50) ? 200u << draw(9) : 0;
    const int driver = static_cast<int>(draw(3)); // 0 step, 1 simulate_until, 2 async
    const bool useLast = draw_bool(60), useSeries = draw_bool(60), useOverride = draw_bool(60);
    std::vector<int> order; // when the observers and manipulators are added
    for (int k = 0; k < 5; ++k) order.push_back(static_cast<int>(draw(n + 1)));
    const bool watchObserver = draw_bool(60), watchManipulator = draw_bool(60);
    const uint64_t ovSim = draw(n), ovSalt = draw(1u << 30), ovVar = draw(8), tsVar = draw(8);
    const bool ovBetween = draw_bool(50), giveUp = draw_bool(30);
    usual_faults();
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    start(cfg);
    {
        NoSim ns;
        dsim::log("%s, driver %d, memory %u/%u", describe(sp).c_str(), driver, buildRate, stepRate);
    }
    NoAllocFaults mine; // this function's own allocations don't fail
    std::unique_ptr<Run> run(new Run{sp});
    Run& r = *run;
    if (buildRate) enable_fault(F_ALLOC_FAIL, buildRate);
    std::shared_ptr<cosim::algorithm> algo;
    r.op("making an algorithm", [&](bool) { algo = std::make_shared<cosim::fixed_step_algorithm>(sp.base, sp.workers); });
    r.op("making an execution", [&](bool) { r.ex = std::make_unique<cosim::execution>(sp.start, algo); });
    algo.reset();
    std::shared_ptr<cosim::last_value_observer> last;
    std::shared_ptr<cosim::time_series_observer> series;
    std::shared_ptr<cosim::override_manipulator> over;
    for (size_t i = 0; i <= n; ++i) {
        if (useLast && order[0] == static_cast<int>(i)) r.op("add_observer", [&](bool) { last = std::make_shared<cosim::last_value_observer>(); r.ex->add_observer(last); });
        if (useSeries && order[1] == static_cast<int>(i)) r.op("add_observer", [&](bool) { series = std::make_shared<cosim::time_series_observer>(); r.ex->add_observer(series); });
        if (useOverride && order[2] == static_cast<int>(i)) r.op("add_manipulator", [&](bool) { over = std::make_shared<cosim::override_manipulator>(); r.ex->add_manipulator(over); });
        if (watchObserver && order[3] == static_cast<int>(i)) r.add_watch(true);
        if (watchManipulator && order[4] == static_cast<int>(i)) r.add_watch(false);
        if (i < n) r.add_slave(i);
    }
    for (size_t i = 0; i < sp.funs.size(); ++i) r.add_function(i);
    System ids(sp); // for the identifiers
    std::vector<Conn> made;
    for (const auto& c : sp.conns)
        if (r.op("connect_variables", [&](bool) {
            if (c.fromFun)
                r.ex->connect_variables(ids.fout_id(c), ids.in_id(c));
            else if (c.toFun)
                r.ex->connect_variables(ids.out_id(c), ids.fin_id(c));
            else
                r.ex->connect_variables(ids.out_id(c), ids.in_id(c));
        }, giveUp)) made.push_back(c);
    sp.conns = made;
    std::vector<InitVal> set;
    for (const auto& i : sp.inits)
        if (r.op("setting an initial value", [&](bool) {
            const auto& v = sp.sims[static_cast<size_t>(i.sim)].in[static_cast<size_t>(i.var)];
            switch (v.type) {
                case 0: r.ex->set_real_initial_value(i.sim, v.ref, std::get<0>(i.v)); break;
                case 1: r.ex->set_integer_initial_value(i.sim, v.ref, std::get<1>(i.v)); break;
                case 2: r.ex->set_boolean_initial_value(i.sim, v.ref, std::get<2>(i.v)); break;
                case 3: r.ex->set_string_initial_value(i.sim, v.ref, std::get<3>(i.v)); break;
            }
        }, giveUp)) set.push_back(i);
    sp.inits = set;
    int tsSim = -1;
    const Var* ts = nullptr;
    if (series)
        for (size_t i = 0; i < n && !ts; ++i)
            for (size_t k = 0; k < sp.sims[i].out.size(); ++k) {
                const auto& x = sp.sims[i].out[(k + tsVar) % sp.sims[i].out.size()];
                if (x.type <= 1) {
                    tsSim = static_cast<int>(i);
                    ts = &x;
                    break;
                }
            }
    if (ts && !r.op("start_observing", [&](bool) { series->start_observing({tsSim, static_cast<variable_type>(ts->type), ts->ref}); }, giveUp)) ts = nullptr;
    if (buildRate) disable_fault(F_ALLOC_FAIL);

    auto& ex = *r.ex;
    bool failed = false, stepThrew = false;
    auto done = [&] { return static_cast<int>((ex.current_time() - sp.start) / sp.base); };
    auto calls = [&] {
        NoSim ns;
        std::vector<std::pair<size_t, int>> v;
        for (const auto& s : r.slaves) v.push_back({s->steps.size(), s->calls[P_SETUP] + s->calls[P_START] + s->calls[P_STEP] + s->calls[P_GET] + s->calls[P_SET]});
        return v;
    };
    // Runs the simulation for some steps; returns whether that was possible.
    auto drive = [&](int k) {
        const auto before = calls();
        const auto t0 = ex.current_time();
        const uint64_t fired = faults_fired(F_ALLOC_FAIL);
        bool threw = false;
        std::string msg;
        try {
            AllocFaults a;
            if (driver == 0)
                for (int i = 0; i < k; ++i) ex.step();
            else if (driver == 1)
                ex.simulate_until(ex.current_time() + sp.base * k);
            else
                ex.simulate_until_async(ex.current_time() + sp.base * k).get();
        } catch (const std::exception& e) {
            NoAllocFaults na;
            threw = true;
            msg = e.what();
        }
        NoSim ns;
        if (ex.is_running()) fail("still-running", "the simulation is reported as running after the call has returned");
        for (const auto& s : r.slaves)
            if (s->busy) fail("not-finished", "slave %d was still executing %s when the call had returned", s->index_, s->busy);
        if (!threw) {
            if (failed) fail("no-exception", "a simulation went on after it had failed");
            if (done() != static_cast<int>((t0 - sp.start) / sp.base) + k) fail("wrong-time", "logical time is wrong");
            return true;
        }
        dsim::log("run: %s", msg.c_str());
        if (msg.find("cannot be continued") != std::string::npos) {
            if (!stepThrew) fail("no-reason", "the simulation cannot be continued, although it has not failed");
            failed = true;
            if (calls() != before || ex.current_time() != t0) fail("called-after-failure", "slaves were called or time went on after the simulation had failed");
            return false;
        }
        stepThrew = true;
        nontrivial();
        count("runs that ended for lack of memory");
        if (faults_fired(F_ALLOC_FAIL) == fired) fail("no-reason", "the simulation failed (%s), but there was enough memory", msg.c_str());
        return false;
    };
    if (stepRate) enable_fault(F_ALLOC_FAIL, stepRate), alloc_faults_in_threads(true);
    for (int k = 0; k < steps;) {
        const int m = driver == 0 ? 1 : std::min(steps - k, 3);
        if (!drive(m) && (stepThrew && k > steps + 4)) break;
        k += m;
        if (over && ovBetween && k == 2) {
            // may fail; nothing is asked of it here
            try {
                AllocFaults a;
                over->reset_variable(static_cast<int>(ovSim), variable_type::real, 0);
            } catch (const std::exception&) {
            }
        }
    }
    if (stepRate) disable_fault(F_ALLOC_FAIL), alloc_faults_in_threads(false);
    const auto before = done();
    if (stepThrew) { // is it usable or has it failed for good?
        if (drive(1))
            count("simulations that went on after a lack of memory");
        else {
            NoSim ns;
            failed = true;
            if (done() != before) fail("wrong-time", "time went on in a simulation that had failed");
            count("simulations that failed for lack of memory");
        }
    }
    {
        NoSim ns;
        RefModel ref(sp);
        ref.initialize();
        for (int k = 0; k < done(); ++k) ref.step();
        if (!failed)
            check_slave_histories(r.slaves, ref, sp);
        else {
            ref.step();
            for (size_t i = 0; i < n; ++i) {
                const auto& a = r.slaves[i]->steps;
                const auto& b = ref.sims[i].steps;
                if (a.size() > b.size()) fail("wrong-step-count", "slave %zu made %zu steps instead of at most %zu", i, a.size(), b.size());
                for (size_t k = 0; k < a.size(); ++k)
                    if (a[k].in != b[k].second || a[k].t != b[k].first) fail("wrong-input", "slave %zu got wrong values or times in its step %zu", i, k);
            }
        }
        fold(static_cast<uint64_t>(done()));
    }
    if (!stepThrew) {
        for (const auto& w : r.watches) {
            if (w->steps + w->commenced != done()) fail("wrong-notifications", "an observer or manipulator was notified %d times in %d steps", w->steps + w->commenced, done());
            if (w->known.size() != n) fail("wrong-notifications", "an observer or manipulator knows %zu simulators instead of %zu", w->known.size(), n);
        }
        if (buildRate) enable_fault(F_ALLOC_FAIL, buildRate);
        for (size_t i = 0; i < n; ++i) {
            if (done() % sp.sims[i].df) continue;
            auto& s = *r.slaves[i];
            for (size_t k = 0; k < sp.sims[i].out.size(); ++k) {
                const auto& x = sp.sims[i].out[k];
                const auto want = sim_output(sp.sims[i], k, s.h, s.in);
                if (last) {
                    scalar_value got;
                    r.op("reading the last value", [&](bool) {
                        double d;
                        int j;
                        bool b;
                        std::string t;
                        switch (x.type) {
                            case 0: last->get_real(static_cast<int>(i), gsl::make_span(&x.ref, 1), gsl::make_span(&d, 1)), got = d; break;
                            case 1: last->get_integer(static_cast<int>(i), gsl::make_span(&x.ref, 1), gsl::make_span(&j, 1)), got = j; break;
                            case 2: last->get_boolean(static_cast<int>(i), gsl::make_span(&x.ref, 1), gsl::make_span(&b, 1)), got = b; break;
                            case 3: last->get_string(static_cast<int>(i), gsl::make_span(&x.ref, 1), gsl::make_span(&t, 1)), got = std::move(t); break;
                        }
                    });
                    if (got != want) fail("wrong-value", "the last value of %s of slave %zu is %s instead of %s", x.name.c_str(), i, show(got).c_str(), show(want).c_str());
                }
                if (ts == &x) {
                    std::vector<double> d(100);
                    std::vector<int> j(100);
                    std::vector<cosim::step_number> st(100);
                    std::vector<time_point> tm(100);
                    size_t got = 0;
                    r.op("reading a time series", [&](bool) {
                        got = x.type ? series->get_integer_samples(tsSim, x.ref, 0, gsl::make_span(j), gsl::make_span(st), gsl::make_span(tm)) : series->get_real_samples(tsSim, x.ref, 0, gsl::make_span(d), gsl::make_span(st), gsl::make_span(tm));
                    });
                    const size_t wantN = static_cast<size_t>(done() / sp.sims[i].df + 1);
                    if (got != wantN) fail("wrong-series", "the time series has %zu samples instead of %zu", got, wantN);
                    if (st[got - 1] != done() || (x.type ? scalar_value(j[got - 1]) : scalar_value(d[got - 1])) != want) fail("wrong-series", "the last sample of the time series is wrong");
                }
            }
        }
        // overriding: it takes effect when it has succeeded, at the next step that can be made
        const auto& in = sp.sims[ovSim].in;
        if (over && !in.empty()) {
            const size_t k = ovVar % in.size();
            const auto v = make_value(in[k].type, ovSalt);
            r.op("override", [&](bool) {
                const int s = static_cast<int>(ovSim);
                switch (in[k].type) {
                    case 0: over->override_real_variable(s, in[k].ref, std::get<0>(v)); break;
                    case 1: over->override_integer_variable(s, in[k].ref, std::get<1>(v)); break;
                    case 2: over->override_boolean_variable(s, in[k].ref, std::get<2>(v)); break;
                    case 3: over->override_string_variable(s, in[k].ref, std::get<3>(v)); break;
                }
            });
            const size_t had = r.slaves[ovSim]->steps.size();
            const auto t0 = ex.current_time();
            bool dead = false;
            for (int m = 0; m < 40 && !dead && r.slaves[ovSim]->steps.size() < had + 2; ++m) {
                if (m > 10) disable_fault(F_ALLOC_FAIL);
                const uint64_t fired = faults_fired(F_ALLOC_FAIL);
                try {
                    AllocFaults a;
                    ex.step();
                } catch (const std::exception& e) {
                    NoAllocFaults na;
                    if (faults_fired(F_ALLOC_FAIL) == fired && strstr(e.what(), "cannot be continued") == nullptr) fail("no-reason", "a step failed (%s), but there was enough memory", e.what());
                    dead = strstr(e.what(), "cannot be continued") != nullptr;
                    count("steps that failed for lack of memory while overriding");
                }
            }
            NoSim ns;
            failed = dead;
            if (!dead && ex.current_time() == t0) fail("no-progress", "the simulation does not go on");
            const auto& st = r.slaves[ovSim]->steps;
            for (size_t m = had; m < st.size(); ++m)
                if (st[m].in[k] != v) fail("wrong-override", "slave %d got %s for %s, which is overridden with %s", static_cast<int>(ovSim), show(st[m].in[k]).c_str(), in[k].name.c_str(), show(v).c_str());
            count("overrides");
        }
        disable_fault(F_ALLOC_FAIL);
    }
    auto slaves = r.slaves;
    if (failed)
        for (const auto& s : slaves) s->failed = true, s->incomplete = true;
    for (const auto& s : slaves)
        if (s->ends) fail("protocol", "slave %d was told that the simulation has ended before it had", s->index_);
    run.reset();
    for (const auto& s : slaves)
        if (!failed && !stepThrew && s->calls[P_START] && !s->ends) fail("not-ended", "slave %d was not told that the simulation has ended", s->index_);
}
