// C13: overrides from any thread apply exactly once, in order, and can be undone.
#include "cosim/manipulator/override_manipulator.hpp"

#include "common.hpp"

#include <thread>

using namespace hx;
namespace dsim
{
const char* property_id = "C13";
}
void dsim_setup() { quiet(); }

namespace
{
struct Target
{
    int sim;
    bool out;
    size_t idx;
    bool operator<(const Target& o) const { return std::tie(sim, out, idx) < std::tie(o.sim, o.out, o.idx); }
};
struct Request
{
    Target tgt;
    bool reset;
    scalar_value v;
    int bad = 0; // 1 unknown variable, 2 unknown simulator
    uint64_t pause = 0;
    // recorded:
    uint64_t b = 0, e = 0;
};
// What may have happened to one variable so far
struct Node
{
    uint32_t applied = 0;
    int last = -1; // the request that took effect last
    bool operator<(const Node& o) const { return std::tie(applied, last) < std::tie(o.applied, o.last); }
};
struct Tracker
{
    std::vector<const Request*> req; // those for this variable
    std::set<Node> nodes{Node{}};

    // A step has commenced: between tb and ta the pending requests were looked at.
    void commence(uint64_t tb, uint64_t ta)
    {
        std::set<Node> reach = nodes, front = nodes;
        while (!front.empty()) {
            std::set<Node> next;
            for (const auto& n : front)
                for (size_t i = 0; i < req.size(); ++i) {
                    if (n.applied >> i & 1 || req[i]->b > ta) continue;
                    bool ok = true;
                    for (size_t j = 0; j < req.size(); ++j)
                        if (!(n.applied >> j & 1) && req[j]->e < req[i]->b) ok = false;
                    if (!ok) continue;
                    const Node m{n.applied | 1u << i, static_cast<int>(i)};
                    if (reach.insert(m).second) next.insert(m);
                }
            front = std::move(next);
        }
        nodes.clear();
        for (const auto& n : reach) {
            bool ok = true;
            for (size_t i = 0; i < req.size(); ++i)
                if (!(n.applied >> i & 1) && req[i]->e < tb) ok = false;
            if (ok) nodes.insert(n);
        }
    }
    bool overridden(const Node& n) const { return n.last >= 0 && !req[static_cast<size_t>(n.last)]->reset; }
    const scalar_value& value(const Node& n, const scalar_value& plain) const { return overridden(n) ? req[static_cast<size_t>(n.last)]->v : plain; }
    bool observe_value(const scalar_value& seen, const scalar_value& plain)
    {
        for (auto it = nodes.begin(); it != nodes.end();)
            it = value(*it, plain) == seen ? std::next(it) : nodes.erase(it);
        return !nodes.empty();
    }
    bool observe_modified(bool m)
    {
        for (auto it = nodes.begin(); it != nodes.end();)
            it = overridden(*it) == m ? std::next(it) : nodes.erase(it);
        return !nodes.empty();
    }
    std::string show_nodes(const scalar_value& plain) const
    {
        std::set<std::string> s;
        for (const auto& n : nodes) s.insert(show(value(n, plain)) + (overridden(n) ? " (override)" : " (none)"));
        std::string r;
        for (const auto& x : s) r += (r.empty() ? "" : " or ") + x;
        return r;
    }
};
} // namespace

void dsim_run()
{
    GenOptions o;
    o.maxSims = 3;
    o.maxFuns = 1;
    o.maxVars = 2;
    o.minOut = 1;
    Spec sp = generate(o);
    // some unconnected variables are parameters
    for (size_t i = 0; i < sp.sims.size(); ++i)
        for (int dir = 0; dir < 2; ++dir) {
            auto& vs = dir ? sp.sims[i].out : sp.sims[i].in;
            for (size_t k = 0; k < vs.size(); ++k) {
                bool con = false;
                for (const auto& c : sp.conns)
                    if (dir ? !c.fromFun && c.src == static_cast<int>(i) && c.srcVar == static_cast<int>(k) : !c.toFun && c.dst == static_cast<int>(i) && c.dstVar == static_cast<int>(k)) con = true;
                if (!con && draw_bool(30)) vs[k].parameter = 1;
            }
        }
    struct Batch
    {
        int kind, n;
        int requests; // by the main thread before it
        uint64_t pause;
    };
    std::vector<Batch> batches(1 + draw(4));
    int total = 0;
    for (auto& b : batches) {
        b = {static_cast<int>(draw(3)), static_cast<int>(1 + draw(6)), draw_bool(40) ? static_cast<int>(1 + draw(3)) : 0, draw_bool(30) ? 1 + draw(3000000) : 0};
        total += b.n;
    }
    int lcm = 1;
    for (const auto& m : sp.sims) lcm = std::lcm(lcm, m.df);
    // few variables, so that requests meet
    std::vector<Target> hot;
    {
        std::vector<Target> all;
        for (size_t i = 0; i < sp.sims.size(); ++i)
            for (int dir = 0; dir < 2; ++dir)
                for (size_t k = 0; k < (dir ? sp.sims[i].out : sp.sims[i].in).size(); ++k) all.push_back({static_cast<int>(i), dir == 1, k});
        const size_t n = std::min<size_t>(all.size(), 1 + draw(4));
        for (size_t k = 0; k < n; ++k) {
            std::swap(all[k], all[k + draw(all.size() - k)]);
            hot.push_back(all[k]);
        }
    }
    auto var = [&](const Target& t) -> const Var& { return (t.out ? sp.sims[static_cast<size_t>(t.sim)].out : sp.sims[static_cast<size_t>(t.sim)].in)[t.idx]; };
    int id = 0;
    std::map<Target, int> uses;
    auto plan = [&] {
        Request r;
        r.tgt = hot[draw(hot.size())];
        ++id;
        const int t = var(r.tgt).type;
        r.reset = draw_bool(35);
        if (t == 0) r.v = 1e7 + id * 0.5;
        if (t == 1) r.v = 1000000 + id;
        if (t == 2) r.v = draw_bool(50);
        if (t == 3) r.v = "override" + std::to_string(id) + std::string(draw(2) * 30, '!');
        if (draw_bool(6)) r.bad = 1 + static_cast<int>(draw(2));
        if (!r.bad && ++uses[r.tgt] > 10) r.bad = 1; // bounds the search
        r.pause = draw_bool(55) ? 0 : 1 + draw(3000000);
        return r;
    };
    std::vector<std::vector<Request>> plans(draw(4));
    for (auto& p : plans) {
        const size_t n = 1 + draw(8);
        for (size_t k = 0; k < n; ++k) p.push_back(plan());
    }
    std::vector<Request> mainPlans;
    for (const auto& b : batches)
        for (int k = 0; k < b.requests; ++k) mainPlans.push_back(plan());
    const bool growing = draw_bool(25); // slaves are added while other threads make requests
    const bool manLate = !growing && draw_bool(30); // the manipulator is added after the slaves
    // outputs nobody else looks at, for a while
    std::map<std::pair<int, size_t>, int> hidden;
    if (draw_bool(50))
        for (size_t i = 0; i < sp.sims.size(); ++i)
            for (size_t k = 0; k < sp.sims[i].out.size(); ++k) {
                bool con = false;
                for (const auto& c : sp.conns)
                    if (!c.fromFun && c.src == static_cast<int>(i) && c.srcVar == static_cast<int>(k)) con = true;
                if (!con && draw_bool(70)) hidden[{static_cast<int>(i), k}] = static_cast<int>(1 + draw(draw_bool(50) ? 4 : 40));
            }
    usual_faults();
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    start(cfg);
    {
        NoSim n;
        dsim::log("%s, %zu requesters, %d steps, %zu variables, growing %d", describe(sp).c_str(), plans.size(), total, hot.size(), growing);
    }
    System sys(sp);
    auto om = std::make_shared<cosim::override_manipulator>();
    auto before = std::make_shared<Probe>(sp, false), after = std::make_shared<Probe>(sp, false), watch = std::make_shared<Probe>(sp, true);
    watch->hidden = hidden;
    sys.exec->add_observer(watch);
    size_t added = 0;
    bool going = true;
    auto request = [&](Request& r) {
        value_reference ref;
        int sim, type;
        {
            NoSim n;
            const auto& v = var(r.tgt);
            ref = r.bad == 1 ? 4711 : v.ref;
            sim = r.bad == 2 ? 77 : r.tgt.sim;
            type = v.type;
            r.b = seq();
        }
        bool threw = false;
        try {
            if (r.reset)
                om->reset_variable(sim, static_cast<variable_type>(type), ref);
            else
                switch (type) {
                    case 0: om->override_real_variable(sim, ref, std::get<0>(r.v)); break;
                    case 1: om->override_integer_variable(sim, ref, std::get<1>(r.v)); break;
                    case 2: om->override_boolean_variable(sim, ref, std::get<2>(r.v)); break;
                    default: om->override_string_variable(sim, ref, std::get<3>(r.v));
                }
        } catch (const std::exception& e) {
            threw = true;
            if (!r.bad) {
                NoSim n;
                fail("refused", "a valid request was refused: %s", e.what());
            }
        }
        NoSim n;
        r.e = seq();
        if (r.bad && !threw) fail("bad-request-accepted", "a request for %s was accepted", r.bad == 1 ? "an unknown variable" : "an unknown simulator");
        count(r.bad ? "bad requests" : r.reset ? "resets" : "overrides");
    };
    std::vector<std::thread> th;
    auto requesters = [&] {
        for (size_t q = 0; q < plans.size(); ++q)
            th.emplace_back([&, q] {
                name_thread("requester");
                for (auto& r : plans[q]) {
                    for (;;) {
                        {
                            NoSim n;
                            if (r.bad == 2 || static_cast<int>(added) > r.tgt.sim || !going) break;
                        }
                        std::this_thread::sleep_for(std::chrono::microseconds(1));
                    }
                    request(r);
                    if (r.pause) std::this_thread::sleep_for(std::chrono::nanoseconds(r.pause));
                }
            });
    };
    sys.exec->add_manipulator(before);
    if (!manLate) {
        sys.exec->add_manipulator(om);
        sys.exec->add_manipulator(after);
    }
    if (growing) {
        sys.add_slave(0);
        added = 1;
        requesters();
        for (size_t i = 1; i < sp.sims.size(); ++i) {
            sys.add_slave(i);
            NoSim n;
            added = i + 1;
        }
        for (size_t i = 0; i < sp.funs.size(); ++i) sys.add_function(i);
        for (const auto& c : sp.conns) sys.connect(c);
        for (const auto& i : sp.inits) sys.init_value(i);
    } else {
        sys.build_all();
        added = sp.sims.size();
        if (manLate) {
            sys.exec->add_manipulator(om);
            sys.exec->add_manipulator(after);
        }
        requesters();
    }
    nontrivial();
    auto& ex = *sys.exec;
    std::vector<std::pair<int, std::vector<cosim::variable_id>>> modified; // after so many steps
    int c = 0;
    auto look = [&] {
        auto m = ex.get_modified_variables();
        NoSim n;
        modified.push_back({c, std::move(m)});
    };
    auto next = mainPlans.begin();
    look();
    for (const auto& b : batches) {
        for (int k = 0; k < b.requests; ++k) request(*next++);
        if (b.pause) std::this_thread::sleep_for(std::chrono::nanoseconds(b.pause));
        if (b.kind == 0)
            for (int k = 0; k < b.n; ++k) {
                ex.step();
                ++c;
                look();
            }
        else {
            const auto target = ex.current_time() + sp.base * b.n;
            if (b.kind == 1)
                ex.simulate_until(target);
            else
                ex.simulate_until_async(target).get();
            c += b.n;
            look();
        }
    }
    for (auto& t : th) t.join();
    // every request takes effect in these steps
    for (int k = 0; k < lcm + 1 || c % lcm; ++k) {
        ex.step();
        ++c;
        look();
    }

    // ---- what has been observed must have one explanation ----
    NoSim n;
    std::map<Target, Tracker> tr;
    auto add = [&](const Request& r) {
        if (!r.bad) tr[r.tgt].req.push_back(&r);
    };
    for (const auto& p : plans)
        for (const auto& r : p) add(r);
    for (const auto& r : mainPlans) add(r);
    std::vector<uint64_t> tb, ta;
    for (const auto& e : before->ev)
        if (e.kind == Event::COMMENCE) tb.push_back(e.at);
    for (const auto& e : after->ev)
        if (e.kind == Event::COMMENCE) ta.push_back(e.at);
    if (static_cast<int>(tb.size()) != c || tb.size() != ta.size()) fail("wrong-step-count", "%zu steps commenced instead of %d", tb.size(), c);
    RefModel ref(sp);
    ref.initialize();
    std::vector<std::vector<const std::vector<scalar_value>*>> outs(sp.sims.size());
    for (const auto& e : watch->ev)
        if (e.kind == Event::SIM) outs[static_cast<size_t>(e.sim)].push_back(&e.vals);
    auto next_modified = modified.begin();
    auto check_modified = [&] {
        for (; next_modified != modified.end() && next_modified->first == ref.c; ++next_modified) {
            std::set<Target> got;
            for (const auto& v : next_modified->second) {
                if (v.simulator < 0 || v.simulator >= static_cast<int>(sp.sims.size())) fail("wrong-modified", "unknown simulator %d reported as modified", v.simulator);
                const auto& m = sp.sims[static_cast<size_t>(v.simulator)];
                bool found = false;
                for (int dir = 0; dir < 2 && !found; ++dir)
                    for (size_t k = 0; k < (dir ? m.out : m.in).size(); ++k) {
                        const auto& x = (dir ? m.out : m.in)[k];
                        if (x.type != static_cast<int>(v.type) || x.ref != v.reference) continue;
                        found = true;
                        const Target t{v.simulator, dir == 1, k};
                        if (!tr.count(t)) fail("wrong-modified", "after %lld steps %s of slave %d is reported as modified, which nobody asked for", static_cast<long long>(ref.c), x.name.c_str(), v.simulator);
                        if (!got.insert(t).second) fail("wrong-modified", "%s of slave %d is reported twice", x.name.c_str(), v.simulator);
                        break;
                    }
                if (!found) fail("wrong-modified", "unknown variable reported as modified");
            }
            for (auto& [t, k] : tr)
                if (!k.observe_modified(got.count(t))) fail("wrong-modified", "after %lld steps %s of slave %d is%s reported as modified, which does not agree with the requests and the values seen", static_cast<long long>(ref.c), var(t).name.c_str(), t.sim, got.count(t) ? "" : " not");
            count("sets of modified variables checked");
        }
    };
    check_modified();
    while (ref.c < c) {
        const size_t s = static_cast<size_t>(ref.c);
        for (auto& [t, k] : tr) k.commence(tb[s], ta[s]);
        for (size_t i = 0; i < sp.sims.size(); ++i) {
            auto& r = ref.sims[i];
            if (ref.c % r.df) continue;
            const size_t nth = static_cast<size_t>(ref.c / r.df);
            const auto& steps = sys.slaves[i]->steps;
            if (nth >= steps.size()) fail("wrong-step-count", "slave %zu made %zu steps only", i, steps.size());
            for (size_t k = 0; k < r.in.size(); ++k) {
                const auto& seen = steps[nth].in[k];
                const auto it = tr.find({static_cast<int>(i), false, k});
                if (it == tr.end()) {
                    if (seen != r.last[k]) fail("wrong-input", "slave %zu step %zu (base step %lld): %s was %s instead of %s", i, nth, static_cast<long long>(ref.c), sp.sims[i].in[k].name.c_str(), show(seen).c_str(), show(r.last[k]).c_str());
                } else {
                    const auto want = it->second.show_nodes(r.last[k]);
                    if (!it->second.observe_value(seen, r.last[k])) fail("wrong-override", "slave %zu step %zu (base step %lld): input %s was %s instead of %s", i, nth, static_cast<long long>(ref.c), sp.sims[i].in[k].name.c_str(), show(seen).c_str(), want.c_str());
                    count("overridable inputs checked");
                }
                r.in[k] = seen;
            }
            r.h = next_state(r.h, r.in, ref.t, sp.base * r.df);
            if (nth >= outs[i].size()) fail("wrong-step-count", "step %zu of slave %zu was not reported", nth, i);
            for (size_t k = 0; k < r.out.size(); ++k) {
                const auto plain = sim_output(sp.sims[i], k, r.h, r.in);
                const auto& seen = (*outs[i][nth])[k];
                if (!Probe::was_seen(seen)) {
                    count("outputs not looked at");
                    continue;
                }
                const auto it = tr.find({static_cast<int>(i), true, k});
                if (it == tr.end()) {
                    if (seen != plain) fail("wrong-output", "slave %zu step %zu (base step %lld): %s was %s instead of %s", i, nth, static_cast<long long>(ref.c), sp.sims[i].out[k].name.c_str(), show(seen).c_str(), show(plain).c_str());
                } else {
                    const auto want = it->second.show_nodes(plain);
                    if (!it->second.observe_value(seen, plain)) fail("wrong-override", "slave %zu step %zu (base step %lld): output %s was seen as %s instead of %s", i, nth, static_cast<long long>(ref.c), sp.sims[i].out[k].name.c_str(), show(seen).c_str(), want.c_str());
                    count("overridable outputs checked");
                }
                r.out[k] = seen;
            }
        }
        ++ref.c;
        ref.t += sp.base;
        ref.transfer();
        check_modified();
    }
    for (size_t i = 0; i < sp.sims.size(); ++i)
        if (sys.slaves[i]->h != ref.sims[i].h) fail("wrong-state", "slave %zu ended in another state", i);
    fold(static_cast<uint64_t>(c));
}
