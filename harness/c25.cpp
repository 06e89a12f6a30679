// C25: a modifier is run exactly once in each step of its slave, on the current value, and what it
// returns is what the slave (inputs) or everybody else (outputs) gets.
#include "common.hpp"

using namespace hx;
namespace dsim
{
const char* property_id = "C25";
}
void dsim_setup() { quiet(); }

namespace
{
struct Target
{
    int sim;
    bool out;
    size_t idx;
    bool operator<(const Target& o) const { return std::tie(sim, out, idx) < std::tie(o.sim, o.out, o.idx); }
};
struct CallRec
{
    scalar_value v;
    duration dt;
    bool operator==(const CallRec& o) const { return v == o.v && dt == o.dt; }
};
// One modifier: what it does, and the calls of it in steps (as they were, and as they should be)
struct Mod
{
    int id, type, kind; // kinds: 0 a function of the value, 1 with a state that each step changes, 2 returns the value itself, 3 counts its calls
    Target tgt;
    bool slow = false;
    std::vector<CallRec> real, want;
    int initCalls = 0;
};
// The dynamics of a modifier. Its state is part of the function object.
struct Dyn
{
    int id, type, kind;
    uint64_t state = 5;
    scalar_value operator()(const scalar_value& v, duration dt)
    {
        const bool step = dt > duration::zero();
        switch (kind) {
            case 0: return make_value(type, mix(hash_value(v), static_cast<uint64_t>(id)));
            case 1:
                if (step) state = mix(mix(state, hash_value(v)), static_cast<uint64_t>(dt.count()));
                return make_value(type, mix(state, hash_value(v)));
            case 2: return v;
            default:
                if (step) ++state;
                return make_value(type, mix(static_cast<uint64_t>(id), state));
        }
    }
};
struct Act
{
    enum When
    {
        ADD, // when the manipulator is told about the slave
        COMMENCE, // before step `step`
        BETWEEN // by the main thread, before batch `step`
    } when;
    int man;
    int step;
    enum What
    {
        SET,
        REMOVE,
        BAD // a variable that does not exist or has not been exposed
    } what;
    Target tgt;
    int mod = -1; // index into mods
};
struct Monitor // oracle data
{
    std::vector<std::unique_ptr<Mod>> mods;
    std::vector<std::shared_ptr<MSlave>>* slaves = nullptr;
    bool commenced = false; // the first step has begun
    bool inStep = false; // between step_commencing of the last manipulator and the end of the step
    std::map<Target, int> current; // the modifiers that are in effect
};
Monitor* mon = nullptr;

// What is given to the system under test
template<typename T, typename A>
struct Function
{
    Mod* m;
    Dyn d;
    long touch = 0; // plain memory: unordered calls are data races
    T operator()(A v, duration dt)
    {
        touch = touch + 1;
        point("modifier");
        if (m->slow) advance(1 + static_cast<uint64_t>(m->id) * 1000);
        NoSim n;
        const scalar_value sv = T(v);
        const auto& sl = *(*mon->slaves)[static_cast<size_t>(m->tgt.sim)];
        if (sl.busy) fail("modifier-during-call", "modifier %d of slave %d was called while the slave executes %s", m->id, m->tgt.sim, sl.busy);
        if (dt < duration::zero()) fail("wrong-modifier-call", "modifier %d was called with a negative step size", m->id);
        if (dt == duration::zero()) {
            if (mon->commenced) fail("wrong-modifier-call", "modifier %d was called with a step size of zero after the initialisation", m->id);
            ++m->initCalls;
        } else {
            if (!mon->inStep) fail("wrong-modifier-call", "modifier %d was called outside a step", m->id);
            m->real.push_back({sv, dt});
            count("modifier calls in steps");
        }
        return std::get<T>(d(sv, dt));
    }
};

class Manipulator : public cosim::manipulator
{
public:
    Manipulator(const Spec& s, int index, const std::vector<Act>& acts, bool last)
        : sp(s)
        , index_(index)
        , acts_(acts)
        , last_(last)
    { }
    void simulator_added(int i, cosim::manipulable* m, time_point) override
    {
        touch = touch + 1;
        sims[i] = m;
        for (const auto& a : acts_)
            if (a.man == index_ && a.when == Act::ADD && a.tgt.sim == i) perform(a);
    }
    void simulator_removed(int i, time_point) override { sims.erase(i); }
    void step_commencing(time_point t) override
    {
        touch = touch + 1;
        {
            NoSim n;
            mon->commenced = true;
        }
        const auto c = static_cast<int>((t - sp.start) / sp.base);
        for (const auto& a : acts_)
            if (a.man == index_ && a.when == Act::COMMENCE && a.step == c) perform(a);
        if (last_) {
            NoSim n;
            mon->inStep = true;
        }
    }
    void perform(const Act& a)
    {
        auto* s = sims.at(a.tgt.sim);
        const auto& m = sp.sims[static_cast<size_t>(a.tgt.sim)];
        int type;
        value_reference ref;
        if (a.what == Act::BAD) {
            type = static_cast<int>(a.tgt.idx % 4);
            ref = 4711;
        } else {
            const auto& v = (a.tgt.out ? m.out : m.in)[a.tgt.idx];
            type = v.type;
            ref = v.ref;
            if (a.tgt.out)
                s->expose_for_getting(static_cast<variable_type>(type), ref);
            else
                s->expose_for_setting(static_cast<variable_type>(type), ref);
        }
        if (a.what == Act::REMOVE)
            put(*s, a.tgt.out, type, ref, nullptr, nullptr, nullptr, nullptr);
        else if (a.what == Act::SET) {
            Mod* x = mon->mods[static_cast<size_t>(a.mod)].get();
            const Dyn d{x->id, type, x->kind};
            put(*s, a.tgt.out, type, ref, Function<double, double>{x, d}, Function<int, int>{x, d}, Function<bool, bool>{x, d}, Function<std::string, std::string_view>{x, d});
        } else {
            bool threw = false;
            try {
                put(*s, a.tgt.out, type, ref, [](double, duration) { return 666.0; }, [](int, duration) { return 666; }, [](bool, duration) { return true; }, [](std::string_view, duration) { return std::string("bad"); });
            } catch (const std::exception&) {
                threw = true;
            }
            NoSim n;
            if (!threw) fail("bad-request-accepted", "a modifier for an %s variable that does not exist and has not been exposed was accepted", a.tgt.out ? "output" : "input");
        }
        NoSim n;
        static const char* const names[] = {"modifiers set", "modifiers removed", "modifiers refused"};
        count(names[a.what]);
    }

private:
    static void put(cosim::manipulable& s, bool out, int type, value_reference ref, std::function<double(double, duration)> r, std::function<int(int, duration)> i, std::function<bool(bool, duration)> b, std::function<std::string(std::string_view, duration)> t)
    {
        switch (type) {
            case 0: out ? s.set_real_output_modifier(ref, std::move(r)) : s.set_real_input_modifier(ref, std::move(r)); break;
            case 1: out ? s.set_integer_output_modifier(ref, std::move(i)) : s.set_integer_input_modifier(ref, std::move(i)); break;
            case 2: out ? s.set_boolean_output_modifier(ref, std::move(b)) : s.set_boolean_input_modifier(ref, std::move(b)); break;
            default: out ? s.set_string_output_modifier(ref, std::move(t)) : s.set_string_input_modifier(ref, std::move(t));
        }
    }
    const Spec& sp;
    int index_;
    const std::vector<Act>& acts_;
    bool last_;
    long touch = 0;
    std::map<int, cosim::manipulable*> sims;
};
// Tells the monitor when a step has ended
class EndMarker : public cosim::observer
{
public:
    void simulator_added(int, cosim::observable*, time_point) override { }
    void simulator_removed(int, time_point) override { }
    void variables_connected(cosim::variable_id, cosim::variable_id, time_point) override { }
    void variable_disconnected(cosim::variable_id, time_point) override { }
    void simulation_initialized(cosim::step_number, time_point) override { }
    void step_complete(cosim::step_number, duration, time_point) override { }
    void simulator_step_complete(int, cosim::step_number, duration, time_point) override
    {
        NoSim n;
        mon->inStep = false;
    }
};
} // namespace

void dsim_run()
{
    GenOptions o;
    o.maxSims = 4;
    o.maxFuns = 1;
    o.maxVars = draw_bool(30) ? 4 : 2;
    o.minOut = 1;
    Spec sp = generate(o);
    std::vector<int> batches(1 + draw(5));
    std::vector<int> kind(batches.size());
    int total = 0;
    for (size_t b = 0; b < batches.size(); ++b) {
        batches[b] = static_cast<int>(1 + draw(6));
        kind[b] = static_cast<int>(draw(3));
        total += batches[b];
    }
    std::vector<Target> hot;
    {
        std::vector<Target> all;
        for (size_t i = 0; i < sp.sims.size(); ++i)
            for (int dir = 0; dir < 2; ++dir)
                for (size_t k = 0; k < (dir ? sp.sims[i].out : sp.sims[i].in).size(); ++k) all.push_back({static_cast<int>(i), dir == 1, k});
        const size_t n = std::min<size_t>(all.size(), 1 + draw(5));
        for (size_t k = 0; k < n; ++k) {
            std::swap(all[k], all[k + draw(all.size() - k)]);
            hot.push_back(all[k]);
        }
    }
    // manipulators: added before the slaves (-2), after them (-1), or before a later batch
    std::vector<int> addAt(1 + draw(3));
    for (auto& a : addAt) a = draw_bool(60) ? -2 : draw_bool(50) ? -1 : static_cast<int>(draw(batches.size()));
    std::sort(addAt.begin(), addAt.end());
    std::vector<int> firstStep(batches.size());
    for (size_t b = 1; b < batches.size(); ++b) firstStep[b] = firstStep[b - 1] + batches[b - 1];
    Monitor monitor;
    std::vector<Act> acts;
    const size_t na = 1 + draw(14);
    for (size_t k = 0; k < na; ++k) {
        Act a;
        a.man = static_cast<int>(draw(addAt.size()));
        const int at = addAt[static_cast<size_t>(a.man)];
        const int b0 = std::max(at, 0);
        a.when = static_cast<Act::When>(draw(3));
        a.step = 0;
        if (a.when == Act::COMMENCE) {
            const int s0 = firstStep[static_cast<size_t>(b0)];
            a.step = s0 + static_cast<int>(draw(static_cast<uint64_t>(total - s0)));
        }
        if (a.when == Act::BETWEEN) a.step = b0 + static_cast<int>(draw(static_cast<uint64_t>(static_cast<int>(batches.size()) - b0)));
        a.tgt = hot[draw(hot.size())];
        const auto w = draw(20);
        a.what = w < 13 ? Act::SET : w < 18 ? Act::REMOVE : Act::BAD;
        if (a.what == Act::BAD) a.tgt.idx = draw(4);
        if (a.what == Act::SET) {
            auto m = std::make_unique<Mod>();
            m->id = static_cast<int>(monitor.mods.size());
            const auto& s = sp.sims[static_cast<size_t>(a.tgt.sim)];
            m->type = (a.tgt.out ? s.out : s.in)[a.tgt.idx].type;
            m->kind = static_cast<int>(draw(4));
            m->tgt = a.tgt;
            m->slow = draw_bool(20);
            a.mod = m->id;
            monitor.mods.push_back(std::move(m));
        }
        acts.push_back(a);
    }
    const bool watched = draw_bool(70);
    usual_faults();
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    start(cfg);
    {
        NoSim n;
        dsim::log("%s, %d steps, %zu manipulators, %zu acts", describe(sp).c_str(), total, addAt.size(), acts.size());
        for (const auto& a : acts)
            dsim::log("  manipulator %d (added %d): %s %d: %s %s %zu of slave %d (modifier %d)", a.man, addAt[static_cast<size_t>(a.man)], a.when == Act::ADD ? "when added" : a.when == Act::COMMENCE ? "step" : "batch", a.step, a.what == Act::SET ? "set" : a.what == Act::REMOVE ? "remove" : "bad", a.tgt.out ? "output" : "input", a.tgt.idx, a.tgt.sim, a.mod);
    }
    mon = &monitor;
    System sys(sp);
    {
        NoSim n;
        monitor.slaves = &sys.slaves;
    }
    auto& ex = *sys.exec;
    RefModel ref(sp);
    std::vector<std::shared_ptr<Manipulator>> mans;
    for (size_t i = 0; i < addAt.size(); ++i) mans.push_back(std::make_shared<Manipulator>(sp, static_cast<int>(i), acts, false));
    // (one more, which is added last, to mark the beginning of the step)
    auto beginMarker = std::make_shared<Manipulator>(sp, -1, acts, true);
    auto watch = std::make_shared<Probe>(sp, true);
    ex.add_observer(std::make_shared<EndMarker>());
    if (watched) ex.add_observer(watch);

    // what the acts do to the reference model
    auto ref_perform = [&](const Act& a) {
        if (a.what == Act::BAD) return;
        auto& r = ref.sims[static_cast<size_t>(a.tgt.sim)];
        auto& f = (a.tgt.out ? r.modOut : r.modIn)[a.tgt.idx];
        if (a.what == Act::REMOVE) {
            f = nullptr;
            monitor.current.erase(a.tgt);
            return;
        }
        Mod* m = monitor.mods[static_cast<size_t>(a.mod)].get();
        f = [m, d = Dyn{m->id, m->type, m->kind}](const scalar_value& v, duration dt) mutable {
            if (dt > duration::zero()) m->want.push_back({v, dt});
            return d(v, dt);
        };
        monitor.current[a.tgt] = a.mod;
    };
    auto ref_added = [&](size_t i) { // existing slaves, in order
        NoSim n;
        for (size_t s = 0; s < sp.sims.size(); ++s)
            for (const auto& a : acts)
                if (a.man == static_cast<int>(i) && a.when == Act::ADD && a.tgt.sim == static_cast<int>(s)) ref_perform(a);
    };
    for (size_t i = 0; i < addAt.size(); ++i)
        if (addAt[i] == -2) ex.add_manipulator(mans[i]);
    sys.build_all();
    for (size_t s = 0; s < sp.sims.size(); ++s)
        for (size_t i = 0; i < addAt.size(); ++i)
            if (addAt[i] == -2) {
                NoSim n;
                for (const auto& a : acts)
                    if (a.man == static_cast<int>(i) && a.when == Act::ADD && a.tgt.sim == static_cast<int>(s)) ref_perform(a);
            }
    for (size_t i = 0; i < addAt.size(); ++i)
        if (addAt[i] == -1) {
            ex.add_manipulator(mans[i]);
            ref_added(i);
        }
    nontrivial();
    bool initialised = false;
    std::map<std::pair<int, size_t>, std::vector<scalar_value>> expected; // (slave, nth step): outputs as others see them
    std::vector<size_t> nth(sp.sims.size());
    auto ref_steps = [&](int n) {
        NoSim ns;
        if (!initialised) ref.initialize();
        initialised = true;
        for (int k = 0; k < n; ++k) {
            for (size_t i = 0; i < addAt.size(); ++i) {
                const int b = std::max(addAt[i], 0);
                if (firstStep[static_cast<size_t>(b)] > ref.c) continue;
                for (const auto& a : acts)
                    if (a.man == static_cast<int>(i) && a.when == Act::COMMENCE && a.step == ref.c) ref_perform(a);
            }
            for (int i : ref.step()) expected[{i, nth[static_cast<size_t>(i)]++}] = ref.sims[static_cast<size_t>(i)].out;
        }
    };
    auto check_modified = [&] {
        const auto m = ex.get_modified_variables();
        NoSim n;
        std::set<Target> got;
        for (const auto& v : m) {
            bool found = false;
            for (int dir = 0; dir < 2 && !found && v.simulator >= 0 && v.simulator < static_cast<int>(sp.sims.size()); ++dir) {
                const auto& s = sp.sims[static_cast<size_t>(v.simulator)];
                for (size_t k = 0; k < (dir ? s.out : s.in).size(); ++k) {
                    const auto& x = (dir ? s.out : s.in)[k];
                    if (x.type == static_cast<int>(v.type) && x.ref == v.reference) {
                        found = true;
                        if (!got.insert({v.simulator, dir == 1, k}).second) fail("wrong-modified", "a variable is reported as modified twice");
                    }
                }
            }
            if (!found) fail("wrong-modified", "after %lld steps an unknown variable is reported as modified", static_cast<long long>(ref.c));
        }
        for (const auto& [t, i] : monitor.current)
            if (!got.count(t)) fail("wrong-modified", "after %lld steps a variable of slave %d is not reported as modified", static_cast<long long>(ref.c), t.sim);
        for (const auto& t : got)
            if (!monitor.current.count(t)) fail("wrong-modified", "after %lld steps a variable of slave %d is reported as modified, but is not", static_cast<long long>(ref.c), t.sim);
    };
    for (size_t b = 0; b < batches.size(); ++b) {
        for (size_t i = 0; i < addAt.size(); ++i)
            if (addAt[i] == static_cast<int>(b)) {
                ex.add_manipulator(mans[i]);
                ref_added(i);
            }
        if (b == 0) {
            ex.add_manipulator(beginMarker);
        }
        for (const auto& a : acts)
            if (a.when == Act::BETWEEN && a.step == static_cast<int>(b)) {
                mans[static_cast<size_t>(a.man)]->perform(a);
                NoSim n;
                ref_perform(a);
            }
        check_modified();
        const auto target = ex.current_time() + sp.base * batches[b];
        if (kind[b] == 0)
            for (int k = 0; k < batches[b]; ++k) ex.step();
        else if (kind[b] == 1)
            ex.simulate_until(target);
        else
            ex.simulate_until_async(target).get();
        {
            NoSim n;
            monitor.inStep = false;
        }
        ref_steps(batches[b]);
        check_modified();
    }

    NoSim n;
    for (const auto& m : monitor.mods) {
        const auto& s = sp.sims[static_cast<size_t>(m->tgt.sim)];
        const auto& v = (m->tgt.out ? s.out : s.in)[m->tgt.idx];
        for (size_t k = 0; k < m->real.size() && k < m->want.size(); ++k) {
            if (m->real[k].v != m->want[k].v) fail("wrong-modifier-value", "modifier %d (%s of slave %d): call %zu was for the value %s instead of %s", m->id, v.name.c_str(), m->tgt.sim, k, show(m->real[k].v).c_str(), show(m->want[k].v).c_str());
            if (m->real[k].dt != m->want[k].dt) fail("wrong-modifier-step", "modifier %d (%s of slave %d): call %zu was for a step of %lld ns instead of %lld", m->id, v.name.c_str(), m->tgt.sim, k, static_cast<long long>(m->real[k].dt.count()), static_cast<long long>(m->want[k].dt.count()));
        }
        if (m->real.size() != m->want.size()) fail("wrong-modifier-calls", "modifier %d (%s of slave %d, step factor %d) was called %zu times instead of %zu", m->id, v.name.c_str(), m->tgt.sim, s.df, m->real.size(), m->want.size());
        if (!m->want.empty()) count("modifiers that were run");
    }
    check_slave_histories(sys.slaves, ref, sp);
    if (watched) {
        std::vector<size_t> k(sp.sims.size());
        for (const auto& e : watch->ev) {
            if (e.kind != Event::SIM) continue;
            const auto i = static_cast<size_t>(e.sim);
            const auto it = expected.find({e.sim, k[i]++});
            if (it == expected.end()) fail("wrong-step-count", "too many steps of slave %d were reported", e.sim);
            for (size_t j = 0; j < e.vals.size(); ++j)
                if (e.vals[j] != it->second[j]) fail("wrong-output", "slave %d, its step %zu: output %s was seen as %s instead of %s", e.sim, k[i] - 1, sp.sims[i].out[j].name.c_str(), show(e.vals[j]).c_str(), show(it->second[j]).c_str());
            count("observed steps compared");
        }
        for (size_t i = 0; i < k.size(); ++i)
            if (k[i] != nth[i]) fail("wrong-step-count", "%zu steps of slave %zu were reported instead of %zu", k[i], i, nth[i]);
    }
    fold(static_cast<uint64_t>(ref.c));
}
