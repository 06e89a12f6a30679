// C05: every step is accounted for exactly once and in order.
#include "common.hpp"

namespace dsim
{
const char* property_id = "C05";
}
using namespace hx;

void dsim_setup() { quiet(); }

namespace
{
struct Member
{
    std::shared_ptr<Probe> p;
    bool obs, man;
    int64_t since = 0; // steps completed when it was added
    bool initialised = false; // at that time
};
} // namespace

void dsim_run()
{
    GenOptions o;
    o.maxVars = 1;
    o.maxSims = 4;
    o.maxFuns = 1;
    Spec sp = generate(o);
    if (draw_bool(20)) sp.start = time_point(duration(draw_range(1, 1000000000) * 1000000007));
    struct Act
    {
        int kind, n, off;
        int add; // 0 nothing, 1 observer, 2 manipulator, 3 both
    };
    std::vector<Act> acts(1 + draw(6));
    for (auto& a : acts) a = {static_cast<int>(draw(3)), static_cast<int>(1 + draw(4)), static_cast<int>(draw(5)), draw_bool(30) ? static_cast<int>(1 + draw(3)) : 0};
    const size_t nBefore = draw(3);
    const size_t when = draw(3); // before, in the middle of, after adding the slaves
    usual_faults();
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    start(cfg);
    {
        NoSim n;
        dsim::log("%s, start %lld", describe(sp).c_str(), static_cast<long long>(sp.start.time_since_epoch().count()));
    }
    System sys(sp);
    std::vector<Member> mem;
    int64_t c = 0;
    bool init = false;
    auto add = [&](bool ob, bool ma) {
        Member m{std::make_shared<Probe>(sp, false), ob, ma, c, init};
        mem.push_back(m);
        if (ob) sys.exec->add_observer(m.p);
        if (ma) sys.exec->add_manipulator(m.p);
    };
    auto addSome = [&] {
        for (size_t i = 0; i < nBefore; ++i) add(i != 1, i != 0);
    };
    if (when == 0) addSome();
    for (size_t i = 0; i < sp.sims.size(); ++i) {
        sys.add_slave(i);
        if (when == 1 && i == 0) addSome();
    }
    for (size_t i = 0; i < sp.funs.size(); ++i) sys.add_function(i);
    for (const auto& cn : sp.conns) sys.connect(cn);
    for (const auto& i : sp.inits) sys.init_value(i);
    if (when == 2) addSome();
    if (sp.sims.size() > 1 && nBefore) nontrivial();
    auto& ex = *sys.exec;
    if (ex.current_time() != sp.start) fail("wrong-time", "the initial time is not the start time");

    auto check = [&] {
        NoSim n;
        const time_point now = sp.start + sp.base * c;
        if (ex.current_time() != now)
            fail("wrong-time", "after %lld steps logical time is %lld instead of %lld ns", static_cast<long long>(c), static_cast<long long>(ex.current_time().time_since_epoch().count()), static_cast<long long>(now.time_since_epoch().count()));
        for (size_t q = 0; q < mem.size(); ++q) {
            auto& m = mem[q];
            std::multiset<int> added;
            int inits = 0;
            int64_t k = m.since, commenced = m.since;
            std::set<int> sims;
            for (const auto& e : m.p->ev) {
                const bool early = !inits && !(m.initialised && !m.obs);
                switch (e.kind) {
                    case Event::ADDED: added.insert(e.sim); break;
                    case Event::INIT:
                        if (++inits > 1) fail("init-twice", "observer %zu was told of the initialisation twice", q);
                        if (k != m.since || commenced != m.since || !sims.empty()) fail("order", "observer %zu was told of the initialisation too late", q);
                        if (e.step != m.since || e.t != sp.start + sp.base * m.since) fail("wrong-init", "observer %zu was told of the initialisation with step %lld", q, e.step);
                        break;
                    case Event::COMMENCE:
                        if (!m.man) fail("order", "unexpected notification");
                        if (e.t != sp.start + sp.base * commenced)
                            fail("wrong-commence", "manipulator %zu: step announced at %lld ns instead of %lld ns", q, static_cast<long long>(e.t.time_since_epoch().count()), static_cast<long long>((sp.start + sp.base * commenced).time_since_epoch().count()));
                        if (m.obs && (commenced != k || !sims.empty())) fail("order", "a step was announced before the previous one was completed");
                        if (m.obs && early) fail("order", "a step was announced before the initialisation");
                        ++commenced;
                        break;
                    case Event::SIM:
                        if (early) fail("order", "observer %zu was told of a slave's step before the initialisation", q);
                        if (m.man && commenced != k + 1) fail("order", "a slave's step was reported that had not been announced");
                        if (e.step != k + 1 || e.t != sp.start + sp.base * (k + 1))
                            fail("wrong-step", "observer %zu: step of slave %d reported with number %lld and time %lld ns after step %lld", q, e.sim, e.step, static_cast<long long>(e.t.time_since_epoch().count()), static_cast<long long>(k));
                        if (!sims.insert(e.sim).second) fail("step-twice", "observer %zu was told twice that slave %d completed step %lld", q, e.sim, e.step);
                        if ((k + 1) % sp.sims[static_cast<size_t>(e.sim)].df)
                            fail("wrong-slave-step", "observer %zu was told that slave %d (step factor %d) completed a step at step %lld", q, e.sim, sp.sims[static_cast<size_t>(e.sim)].df, e.step);
                        break;
                    case Event::STEP:
                        if (early) fail("order", "observer %zu was told of a step before the initialisation", q);
                        if (e.step != k + 1 || e.t != sp.start + sp.base * (k + 1) || e.dt != sp.base)
                            fail("wrong-step", "observer %zu: step reported with number %lld, time %lld ns and size %lld ns after step %lld", q, e.step, static_cast<long long>(e.t.time_since_epoch().count()), static_cast<long long>(e.dt.count()), static_cast<long long>(k));
                        if (m.man && commenced != k + 1) fail("order", "a step was reported that had not been announced");
                        ++k;
                        for (size_t i = 0; i < sp.sims.size(); ++i)
                            if ((k % sp.sims[i].df == 0) != (sims.count(static_cast<int>(i)) > 0))
                                fail("missing-slave-step", "observer %zu was not told that slave %zu (step factor %d) completed a step at step %lld", q, i, sp.sims[i].df, static_cast<long long>(k));
                        sims.clear();
                        break;
                }
            }
            if (m.obs) {
                if (inits != (init ? 1 : 0)) fail("init-missing", "observer %zu was told %d times of the initialisation", q, inits);
                if (k != c) fail("step-missing", "observer %zu was told of %lld steps instead of %lld", q, static_cast<long long>(k - m.since), static_cast<long long>(c - m.since));
                if (added.size() != sp.sims.size() || std::set<int>(added.begin(), added.end()).size() != sp.sims.size()) fail("slaves-announced", "observer %zu was told of %zu slaves", q, added.size());
            }
            if (m.man && commenced != c) fail("step-missing", "manipulator %zu was told of %lld steps instead of %lld", q, static_cast<long long>(commenced - m.since), static_cast<long long>(c - m.since));
        }
        // announced before the slaves step
        for (const auto& m : mem)
            if (m.man) {
                int64_t k = m.since;
                for (const auto& e : m.p->ev)
                    if (e.kind == Event::COMMENCE) {
                        for (const auto& s : sys.slaves) {
                            const int df = s->sp.h0 ? sp.sims[static_cast<size_t>(s->index_)].df : 1;
                            const size_t before = static_cast<size_t>((k + df - 1) / df);
                            if (s->steps.size() > before && s->steps[before].begin < e.at && k % df == 0) fail("order", "step %lld of slave %d began before it was announced", static_cast<long long>(k), s->index_);
                        }
                        ++k;
                    }
            }
    };
    check();
    for (const auto& a : acts) {
        if (a.add) add(a.add != 2, a.add != 1);
        if (a.kind == 0) {
            for (int i = 0; i < a.n; ++i) {
                const auto d = ex.step();
                if (d != sp.base) fail("wrong-step-size", "step() returned %lld ns", static_cast<long long>(d.count()));
                init = true;
                ++c;
                check();
            }
        } else {
            const int64_t offs[] = {0, sp.base.count() / 2, sp.base.count() / 200, sp.base.count() / 40, sp.base.count() - sp.base.count() / 200};
            // the target lies `n` steps and a bit ahead; within 1 % of a step counts as reached
            const int64_t off = offs[a.off];
            const auto target = ex.current_time() + sp.base * a.n + duration(off);
            const bool more = static_cast<double>(off) >= 0.01 * static_cast<double>(sp.base.count());
            const bool r = a.kind == 1 ? ex.simulate_until(target) : ex.simulate_until_async(target).get();
            if (!r) fail("stopped", "a run was reported as stopped");
            init = true;
            c += a.n + (more ? 1 : 0);
            count("runs to a target");
            check();
        }
    }
    {
        NoSim n;
        RefModel ref(sp);
        for (int64_t i = 0; i < c; ++i) ref.step();
        for (size_t i = 0; i < sp.sims.size(); ++i)
            if (sys.slaves[i]->steps.size() != ref.sims[i].steps.size()) fail("wrong-step-count", "slave %zu made %zu steps instead of %zu", i, sys.slaves[i]->steps.size(), ref.sims[i].steps.size());
    }
    count("steps", static_cast<uint64_t>(c));
    fold(static_cast<uint64_t>(c));
}
