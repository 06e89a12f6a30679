// C02: slaves are driven by the documented call sequence, one call at a time.
#include "common.hpp"

namespace dsim
{
const char* property_id = "C02";
}
using namespace hx;

void dsim_setup() { quiet(); }

namespace
{
struct World
{
    System* sys = nullptr;
    int64_t started = 0, announced = 0; // co-simulation steps begun and completed
};
World* w;

// Nothing may be in progress and all due slaves must have finished
void check_idle(const char* when)
{
    NoSim n;
    for (const auto& s : w->sys->slaves) {
        if (s->busy) fail("not-finished", "%s while slave %d is executing %s", when, s->index_, s->busy);
        if (!s->steps.empty() && s->steps.back().end == 0) fail("not-finished", "%s before slave %d has finished its step", when, s->index_);
        const auto df = w->sys->sp.sims[static_cast<size_t>(s->index_)].df;
        const auto want = (w->started + df - 1) / df;
        if (static_cast<int64_t>(s->steps.size()) != want)
            fail("wrong-step-count", "%s in step %lld: slave %d (step factor %d) has made %zu steps instead of %lld", when, static_cast<long long>(w->started), s->index_, df, s->steps.size(), static_cast<long long>(want));
    }
}
class Fun : public MFunction
{
public:
    using MFunction::MFunction;
    void calculate() override
    {
        if (w->started) check_idle("functions were calculated");
        MFunction::calculate();
    }
    void set_real(const cosim::function_io_reference& r, double v) override
    {
        if (w->started) check_idle("values were exchanged");
        MFunction::set_real(r, v);
    }
};
class Obs : public Probe
{
public:
    using Probe::Probe;
    void simulation_initialized(cosim::step_number n, time_point t) override
    {
        check_idle("observers were told of the initialisation");
        NoSim ns;
        for (const auto& s : w->sys->slaves)
            if (s->state != 2) fail("protocol", "observers were told of the initialisation before slave %d was started", s->index_);
        Probe::simulation_initialized(n, t);
    }
    void simulator_step_complete(int i, cosim::step_number n, duration dt, time_point t) override
    {
        check_idle("observers were notified of a slave's step");
        Probe::simulator_step_complete(i, n, dt, t);
    }
    void step_complete(cosim::step_number n, duration dt, time_point t) override
    {
        check_idle("observers were notified of the step");
        Probe::step_complete(n, dt, t);
    }
    void step_commencing(time_point t) override
    {
        check_idle("manipulators were notified of a new step");
        {
            NoSim ns;
            ++w->started;
        }
        Probe::step_commencing(t);
    }
};
} // namespace

void dsim_run()
{
    World world;
    w = &world;
    GenOptions o;
    o.maxSims = 5;
    o.maxVars = 1;
    Spec sp = generate(o);
    struct Act
    {
        int kind, n;
    };
    std::vector<Act> acts(1 + draw(4));
    for (auto& a : acts) a = {static_cast<int>(draw(3)), static_cast<int>(1 + draw(4))};
    const int late = draw_bool(15) ? static_cast<int>(draw(acts.size())) : -1; // an attempt to add a slave after this one
    usual_faults();
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    start(cfg);
    {
        NoSim n;
        dsim::log("%s", describe(sp).c_str());
    }
    System sys(sp);
    w->sys = &sys;
    auto obs = std::make_shared<Obs>(sp, true);
    for (size_t i = 0; i < sp.sims.size(); ++i) sys.add_slave(i);
    for (size_t i = 0; i < sp.funs.size(); ++i) {
        auto f = std::make_shared<Fun>(sp.funs[i]);
        sys.funs.push_back(f);
        sys.exec->add_function(f);
    }
    for (const auto& c : sp.conns) sys.connect(c);
    for (const auto& i : sp.inits) sys.init_value(i);
    sys.exec->add_observer(obs);
    sys.exec->add_manipulator(obs);
    if (sp.sims.size() > 1) nontrivial();
    RefModel ref(sp);
    ref.initialize();
    for (const auto& a : acts) {
        if (a.kind == 0)
            for (int i = 0; i < a.n; ++i) sys.exec->step();
        else {
            const auto target = sys.exec->current_time() + sp.base * a.n;
            const bool r = a.kind == 1 ? sys.exec->simulate_until(target) : sys.exec->simulate_until_async(target).get();
            if (!r) fail("stopped", "the run was reported as stopped");
        }
        check_idle("the call returned");
        if (&a - acts.data() == late) {
            // a slave that cannot be initialised any more
            auto sl = std::make_shared<MSlave>(sp.sims[0], static_cast<int>(sp.sims.size()));
            const auto told = obs->obs.size();
            bool refused = false;
            try {
                sys.exec->add_slave(sl, "latecomer", duration(0));
            } catch (const std::exception&) {
                refused = true;
            }
            if (!refused) fail("late-slave", "a slave was added after the simulation had started");
            if (obs->obs.size() != told) fail("late-slave", "observers were told of a slave that was refused");
            count("slaves added too late");
        }
        NoSim n;
        for (int i = 0; i < a.n; ++i) ref.step();
        check_slave_histories(sys.slaves, ref, sp);
        for (const auto& s : sys.slaves) {
            if (s->calls[P_SETUP] != 1 || s->calls[P_START] != 1) fail("protocol", "slave %d was set up %d times and started %d times", s->index_, s->calls[P_SETUP], s->calls[P_START]);
            if (s->startTime != sp.start) fail("protocol", "slave %d was set up with the wrong start time", s->index_);
        }
        fold(static_cast<uint64_t>(ref.c));
        count("steps", static_cast<uint64_t>(a.n));
        if (a.kind == 2) count("asynchronous runs");
    }
    std::vector<bool*> d;
    bool gone[8] = {};
    for (size_t i = 0; i < sys.slaves.size(); ++i) sys.slaves[i]->destroyed = &gone[i];
    const auto kept = sys.slaves[0]; // somebody else may hold on to a slave
    sys.slaves.clear();
    for (size_t i = 0; i < sp.sims.size(); ++i)
        if (gone[i]) fail("leak", "slave %zu was released before the execution", i);
    if (kept->ends) fail("protocol", "slave 0 was told that the simulation has ended before it had");
    sys.exec.reset();
    if (kept->ends != 1) fail("not-ended", "slave 0 was told %d times that the simulation has ended", kept->ends);
    sys.algo.reset();
    for (size_t i = 1; i < sp.sims.size(); ++i)
        if (!gone[i]) fail("leak", "slave %zu was not released with the execution", i);
    if (live_threads() != 1) fail("leftover-threads", "%d threads are left after destruction", live_threads() - 1);
}
