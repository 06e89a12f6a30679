// C01: results do not depend on worker threads or scheduling; they equal a sequential execution.
#include "common.hpp"

namespace dsim
{
const char* property_id = "C01";
}
using namespace hx;

void dsim_setup() { quiet(); }

namespace
{
struct Op
{
    int kind; // 0 disconnect, 1 change the step-size ratio, 2 connect, 3 remove a simulator
    uint64_t a;
    int b;
};
} // namespace

void dsim_run()
{
    GenOptions o;
    Spec sp = generate(o);
    const int steps = static_cast<int>(1 + draw(10));
    const bool dynamic = draw_bool(50);
    std::vector<std::vector<Op>> ops(static_cast<size_t>(steps));
    if (dynamic)
        for (auto& v : ops)
            if (draw_bool(35)) {
                const int n = static_cast<int>(1 + draw(2));
                for (int i = 0; i < n; ++i) v.push_back({static_cast<int>(draw_bool(10) ? 3 : draw(3)), draw(1000), static_cast<int>(draw_range(1, 4))});
            }
    const int nObs = static_cast<int>(draw(3));
    const bool obsFirst = draw_bool(50);
    if (draw_bool(3)) {
        sp.ncpu = 0; // the number of processors cannot be determined
    }
    usual_faults();
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    start(cfg);
    {
        NoSim n;
        dsim::log("%s, %d steps", describe(sp).c_str(), steps);
    }
    if (sp.ncpu == 0) {
        // construction must succeed with any number of workers up to the requested one
        cosim::fixed_step_algorithm a(sp.base, sp.workers);
        if (threads_created() > 64) fail("too-many-threads", "%d worker threads were created", threads_created());
    }
    System sys(sp);
    std::vector<std::shared_ptr<Probe>> probes;
    for (int i = 0; i < nObs; ++i) probes.push_back(std::make_shared<Probe>(sp, true));
    if (obsFirst)
        for (auto& p : probes) sys.exec->add_observer(p);
    sys.build_all();
    if (!obsFirst)
        for (auto& p : probes) sys.exec->add_observer(p);

    RefModel ref(sp);
    std::set<int> removed;
    if (sp.conns.size() > 0 && sp.sims.size() > 1) nontrivial();
    for (int k = 0; k < steps; ++k) {
        for (const auto& op : ops[static_cast<size_t>(k)]) {
            if (op.kind == 0 && !ref.conns.empty()) {
                const size_t i = op.a % ref.conns.size();
                const Conn c = ref.conns[i];
                if (c.toFun)
                    sys.algo->disconnect_variable(sys.fin_id(c));
                else
                    sys.algo->disconnect_variable(sys.in_id(c));
                NoSim n;
                dsim::log("disconnect %s %d.%d -> %s %d.%d", c.fromFun ? "fun" : "sim", c.src, c.srcVar, c.toFun ? "fun" : "sim", c.dst, c.dstVar);
                ref.conns.erase(ref.conns.begin() + static_cast<long>(i));
                count(c.fromFun ? "function outputs disconnected" : "disconnections");
            } else if (op.kind == 1) {
                const size_t i = op.a % sp.sims.size();
                if (removed.count(static_cast<int>(i))) continue;
                auto& r = ref.sims[i];
                if (ref.c % r.df || ref.c % op.b) continue; // only between two steps of that slave
                sys.algo->set_stepsize_decimation_factor(static_cast<int>(i), op.b);
                NoSim n;
                dsim::log("slave %zu: step factor %d -> %d", i, r.df, op.b);
                r.df = op.b;
                sys.slaves[i]->stepSize = sp.base * op.b;
                count("step-size changes");
            } else if (op.kind == 2) {
                // connect a free input to any output of its type
                struct In
                {
                    bool fun;
                    int e, v, type;
                };
                std::vector<In> ins;
                std::vector<Conn> cand;
                for (size_t i = 0; i < sp.sims.size(); ++i)
                    for (size_t j = 0; j < sp.sims[i].in.size(); ++j) ins.push_back({false, static_cast<int>(i), static_cast<int>(j), sp.sims[i].in[j].type});
                for (size_t i = 0; i < sp.funs.size(); ++i)
                    for (size_t j = 0; j < sp.funs[i].in.size(); ++j) ins.push_back({true, static_cast<int>(i), static_cast<int>(j), sp.funs[i].in[j].type});
                for (const auto& in : ins) {
                    if (!in.fun && removed.count(in.e)) continue;
                    bool used = false;
                    for (const auto& c : ref.conns) used = used || (c.toFun == in.fun && c.dst == in.e && c.dstVar == in.v);
                    if (used) continue;
                    for (size_t i = 0; i < sp.sims.size(); ++i)
                        for (size_t j = 0; j < sp.sims[i].out.size(); ++j)
                            if (sp.sims[i].out[j].type == in.type && !removed.count(static_cast<int>(i))) {
                                Conn c;
                                c.toFun = in.fun, c.src = static_cast<int>(i), c.srcVar = static_cast<int>(j), c.dst = in.e, c.dstVar = in.v;
                                cand.push_back(c);
                            }
                    if (!in.fun)
                        for (size_t i = 0; i < sp.funs.size(); ++i)
                            for (size_t j = 0; j < sp.funs[i].out.size(); ++j)
                                if (sp.funs[i].out[j].type == in.type) {
                                    Conn c;
                                    c.fromFun = true, c.src = static_cast<int>(i), c.srcVar = static_cast<int>(j), c.dst = in.e, c.dstVar = in.v;
                                    cand.push_back(c);
                                }
                }
                if (cand.empty() || k == 0) continue; // before the first step this could close an algebraic loop
                const Conn c = cand[op.a % cand.size()];
                if (c.fromFun)
                    sys.algo->connect_variables(sys.fout_id(c), sys.in_id(c));
                else if (c.toFun)
                    sys.algo->connect_variables(sys.out_id(c), sys.fin_id(c));
                else
                    sys.algo->connect_variables(sys.out_id(c), sys.in_id(c));
                NoSim n;
                dsim::log("connect %s %d.%d -> %s %d.%d", c.fromFun ? "fun" : "sim", c.src, c.srcVar, c.toFun ? "fun" : "sim", c.dst, c.dstVar);
                ref.conns.push_back(c);
                count("connections made between steps");
            } else if (op.kind == 3 && nObs == 0 && k > 0) {
                const int i = static_cast<int>(op.a % sp.sims.size());
                if (!removed.insert(i).second) continue;
                sys.algo->remove_simulator(i);
                NoSim n;
                dsim::log("slave %d removed", i);
                ref.sims[static_cast<size_t>(i)].df = 1 << 20;
                for (size_t j = ref.conns.size(); j-- > 0;) {
                    const auto& c = ref.conns[j];
                    if ((!c.fromFun && c.src == i) || (!c.toFun && c.dst == i)) ref.conns.erase(ref.conns.begin() + static_cast<long>(j));
                }
                count("removals");
            }
        }
        if (k == 0) ref.initialize();
        const auto before = ref.c;
        std::set<int> fin;
        {
            NoSim n;
            fin = ref.step();
        }
        for (auto& p : probes) {
            NoSim n;
            p->ev.clear();
        }
        const auto d = sys.exec->step();
        (void)before;
        NoSim n;
        if (d != sp.base) fail("wrong-step-size", "step returned %lld ns instead of %lld ns", static_cast<long long>(d.count()), static_cast<long long>(sp.base.count()));
        for (size_t q = 0; q < probes.size(); ++q)
            for (const auto& e : probes[q]->ev)
                if (e.kind == Event::SIM && !removed.count(e.sim))
                    for (size_t j = 0; j < e.vals.size(); ++j)
                        if (e.vals[j] != ref.sims[static_cast<size_t>(e.sim)].out[j])
                            fail("wrong-output", "step %d: observer %zu saw %s of slave %d as %s instead of %s", k, q, sp.sims[static_cast<size_t>(e.sim)].out[j].name.c_str(), e.sim, show(e.vals[j]).c_str(), show(ref.sims[static_cast<size_t>(e.sim)].out[j]).c_str());
        check_slave_histories(sys.slaves, ref, sp);
        fold(mix(static_cast<uint64_t>(k), ref.sims[0].h));
    }
    count("steps", static_cast<uint64_t>(steps));
    {
        NoSim n;
        for (const auto& c : sp.conns) count(c.fromFun ? "connections from functions" : c.toFun ? "connections to functions" : "connections");
    }
}
