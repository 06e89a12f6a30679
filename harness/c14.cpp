// C14: scenario events fire once, on time and in order, and leave nothing behind.
#include "cosim/manipulator/scenario_manager.hpp"

#include "common.hpp"
#include <array>

#include <fstream>
#include <thread>

using namespace hx;
namespace dsim
{
const char* property_id = "C14";
}
void dsim_setup() { quiet(); }

namespace
{
struct Target
{
    int sim;
    bool out;
    size_t idx;
    bool operator<(const Target& o) const { return std::tie(sim, out, idx) < std::tie(o.sim, o.out, o.idx); }
};
struct Mod
{
    int kind = 0; // 0 reset, 1 constant, 2 bias, 3 depends on the step size
    scalar_value v;
};
double apply(const Mod& m, double x, duration dt) { return m.kind == 1 ? std::get<0>(m.v) : m.kind == 2 ? x + std::get<0>(m.v) : x + static_cast<double>(dt.count() % 1024); }
int apply(const Mod& m, int x, duration dt) { return m.kind == 1 ? std::get<1>(m.v) : m.kind == 2 ? x + std::get<1>(m.v) : x / 2 + static_cast<int>(dt.count() % 1024); }
bool apply(const Mod& m, bool x, duration dt) { return m.kind == 1 ? std::get<2>(m.v) : m.kind == 2 ? (x || std::get<2>(m.v)) : x != (dt.count() % 3 == 1); }
std::string apply(const Mod& m, const std::string& x, duration dt) { return m.kind == 1 ? std::get<3>(m.v) : m.kind == 2 ? x + std::get<3>(m.v) : x + std::to_string(dt.count()); }
scalar_value apply_any(const Mod& m, const scalar_value& x, duration dt)
{
    switch (x.index()) {
        case 0: return apply(m, std::get<0>(x), dt);
        case 1: return apply(m, std::get<1>(x), dt);
        case 2: return apply(m, std::get<2>(x), dt);
        default: return apply(m, std::get<3>(x), dt);
    }
}
struct Ev
{
    Target tgt;
    Mod mod;
    duration at;
    bool bad = false; // for a variable that does not exist
};
struct Scn
{
    std::vector<Ev> events;
    std::optional<duration> end;
    duration offset{0}; // of its start to the time it is loaded
    int file = 0; // 1 JSON, 2 YAML
    int badFile = 0; // 1 unknown model, 2 unknown variable, 3 unknown action, 4 no such file, 5 no model, 6 no variable, 7 no action, 8 no value, 9 a value of another type, 10 no time
    int defaults = 0; // bits: model, variable, action of the first event are given as defaults
};
struct Op
{
    int kind; // 0 nothing, 1 load, 2 abort
    Scn scn;
};
struct Model // a scenario and what it does to the variables
{
    bool running = false;
    Scn s;
    time_point start;
    std::vector<bool> done;
    std::map<Target, Mod> mods;

    void load(const Scn& n, time_point now)
    {
        mods.clear();
        s = n;
        start = now + n.offset;
        done.assign(n.events.size(), false);
        running = true;
    }
    void abort()
    {
        mods.clear();
        running = false;
    }
    // returns false if an event cannot be applied
    bool commence(time_point t)
    {
        if (!running) return true;
        const auto rel = t - start;
        if (std::find(done.begin(), done.end(), false) == done.end() && (!s.end || rel >= *s.end)) {
            abort();
            return true;
        }
        for (size_t k = 0; k < s.events.size(); ++k) {
            if (done[k] || rel < s.events[k].at) continue;
            if (s.events[k].bad) return false;
            done[k] = true;
            if (s.events[k].mod.kind)
                mods[s.events[k].tgt] = s.events[k].mod;
            else
                mods.erase(s.events[k].tgt);
        }
        return true;
    }
};
} // namespace

void dsim_run()
{
    GenOptions o;
    o.maxSims = 3;
    o.maxFuns = 1;
    o.maxVars = 2;
    o.minOut = 1;
    Spec sp = generate(o);
    for (size_t i = 0; i < sp.sims.size(); ++i)
        for (int dir = 0; dir < 2; ++dir) {
            auto& vs = dir ? sp.sims[i].out : sp.sims[i].in;
            for (size_t k = 0; k < vs.size(); ++k) {
                bool con = false;
                for (const auto& c : sp.conns)
                    if (dir ? !c.fromFun && c.src == static_cast<int>(i) && c.srcVar == static_cast<int>(k) : !c.toFun && c.dst == static_cast<int>(i) && c.dstVar == static_cast<int>(k)) con = true;
                if (!con && draw_bool(30)) vs[k].parameter = 1;
            }
        }
    std::vector<Target> hot;
    {
        std::vector<Target> all;
        for (size_t i = 0; i < sp.sims.size(); ++i)
            for (int dir = 0; dir < 2; ++dir)
                for (size_t k = 0; k < (dir ? sp.sims[i].out : sp.sims[i].in).size(); ++k) all.push_back({static_cast<int>(i), dir == 1, k});
        const size_t n = std::min<size_t>(all.size(), 1 + draw(5));
        for (size_t k = 0; k < n; ++k) {
            std::swap(all[k], all[k + draw(all.size() - k)]);
            hot.push_back(all[k]);
        }
    }
    auto var = [&](const Target& t) -> const Var& { return (t.out ? sp.sims[static_cast<size_t>(t.sim)].out : sp.sims[static_cast<size_t>(t.sim)].in)[t.idx]; };
    int id = 0;
    const bool files = sp.base.count() >= 1000000;
    auto draw_scenario = [&] {
        Scn s;
        if (files && draw_bool(35)) s.file = 1 + static_cast<int>(draw(2));
        const size_t n = draw(8);
        std::map<Target, duration> latest;
        for (size_t k = 0; k < n; ++k) {
            Ev e;
            e.tgt = hot[draw(hot.size())];
            const int t = var(e.tgt).type;
            ++id;
            e.mod.kind = static_cast<int>(draw(s.file ? (t == 3 ? 2 : 3) : 4));
            if (t == 0) e.mod.v = 1e6 + id * 0.5;
            if (t == 1) e.mod.v = 1000000 + id;
            if (t == 2) e.mod.v = draw_bool(50);
            if (t == 3) e.mod.v = "event" + std::to_string(id);
            // on the grid, or between two steps
            const int64_t half = static_cast<int64_t>(draw(14));
            if (s.file)
                e.at = half == 0 ? duration(0) : sp.base * (half / 2) + sp.base / 2;
            else
                e.at = sp.base * (half / 2) + (half % 2 ? std::max<duration>(sp.base / 2, duration(1)) : duration(0));
            // for one variable, the order of the scenario is the order of time
            auto& l = latest[e.tgt];
            if (e.at < l) e.at = l;
            l = e.at;
            if (!s.file && !e.tgt.out && draw_bool(3)) e.bad = true;
            s.events.push_back(e);
        }
        if (draw_bool(50)) {
            const int64_t half = static_cast<int64_t>(draw(16));
            s.end = sp.base * (half / 2) + (half % 2 || s.file ? std::max<duration>(sp.base / 2, duration(1)) : duration(0));
        }
        if (draw_bool(25)) s.offset = sp.base * draw_range(-3, 3);
        if (s.file && draw_bool(15)) s.badFile = 1 + static_cast<int>(draw(10));
        if (s.badFile && s.badFile != 4 && s.events.empty()) s.badFile = 0;
        if (s.badFile == 8 || s.badFile == 9) {
            const auto& e = s.events.back();
            if (e.mod.kind == 0 || (s.badFile == 9 && var(e.tgt).type == 3)) s.badFile = 0;
        }
        if (s.file && !s.events.empty() && draw_bool(40)) s.defaults = static_cast<int>(draw(8));
        if (s.badFile >= 5 && s.badFile <= 7) s.defaults &= ~(1 << (s.badFile - 5));
        return s;
    };
    struct Batch
    {
        int kind, n;
        std::vector<Op> ops; // before it
    };
    std::vector<Batch> batches(1 + draw(5));
    for (auto& b : batches) {
        b.kind = static_cast<int>(draw(3));
        b.n = static_cast<int>(1 + draw(8));
        const size_t n = draw_bool(55) ? 1 : draw_bool(30) ? 2 : 0;
        for (size_t k = 0; k < n; ++k) {
            Op op{draw_bool(75) ? 1 : 2, {}};
            if (op.kind == 1) op.scn = draw_scenario();
            b.ops.push_back(op);
        }
    }
    const bool manLate = draw_bool(30);
    // outputs that the observer does not look at for a while
    std::map<std::pair<int, size_t>, int> hidden;
    if (draw_bool(50))
        for (size_t i = 0; i < sp.sims.size(); ++i)
            for (size_t k = 0; k < sp.sims[i].out.size(); ++k)
                if (draw_bool(70)) hidden[{static_cast<int>(i), k}] = static_cast<int>(1 + draw(draw_bool(50) ? 4 : 40));
    usual_faults();
    if (draw_bool(30)) {
        enable_fault(F_READ_FAIL, 300000);
        enable_fault(F_OPEN_FAIL, 100000);
    }
    if (draw_bool(30)) enable_fault(F_READ_SHORT, 300000);
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    start(cfg);
    {
        NoSim n;
        dsim::log("%s, %zu batches, %zu variables", describe(sp).c_str(), batches.size(), hot.size());
    }
    System sys(sp);
    auto sm = std::make_shared<cosim::scenario_manager>();
    auto watch = std::make_shared<Probe>(sp, true);
    watch->hidden = hidden;
    sys.exec->add_observer(watch);
    if (!manLate) sys.exec->add_manipulator(sm);
    sys.build_all();
    if (manLate) sys.exec->add_manipulator(sm);
    auto& ex = *sys.exec;

    auto in_memory = [&](const Scn& s) {
        cosim::scenario::scenario r;
        for (const auto& e : s.events) {
            const auto& v = var(e.tgt);
            cosim::scenario::event x{time_point(e.at), {e.tgt.sim, e.bad ? 4711u : v.ref, cosim::scenario::real_modifier{}, !e.tgt.out}};
            const Mod m = e.mod;
            switch (v.type) {
                case 0:
                    x.action.modifier = cosim::scenario::real_modifier{};
                    if (m.kind) x.action.modifier = cosim::scenario::real_modifier{[m](double a, duration d) { return apply(m, a, d); }};
                    break;
                case 1:
                    x.action.modifier = cosim::scenario::integer_modifier{};
                    if (m.kind) x.action.modifier = cosim::scenario::integer_modifier{[m](int a, duration d) { return apply(m, a, d); }};
                    break;
                case 2:
                    x.action.modifier = cosim::scenario::boolean_modifier{};
                    if (m.kind) x.action.modifier = cosim::scenario::boolean_modifier{[m](bool a, duration d) { return apply(m, a, d); }};
                    break;
                default:
                    x.action.modifier = cosim::scenario::string_modifier{};
                    if (m.kind) x.action.modifier = cosim::scenario::string_modifier{[m](std::string_view a, duration d) { return apply(m, std::string(a), d); }};
            }
            r.events.push_back(std::move(x));
        }
        if (s.end) r.end = time_point(*s.end);
        return r;
    };
    int fileNo = 0;
    auto write_file = [&](const Scn& s) {
        const bool json = s.file == 1;
        const auto fields = [&](size_t k) {
            const auto& e = s.events[k];
            return std::array<std::string, 3>{sp.sims[static_cast<size_t>(e.tgt.sim)].name, var(e.tgt).name, e.mod.kind == 0 ? "reset" : e.mod.kind == 1 ? "override" : "bias"};
        };
        static const char* const keys[3] = {"model", "variable", "action"};
        std::string t = json ? "{\n" : "";
        if (s.defaults) {
            const auto d = fields(0);
            t += json ? "\"defaults\": {" : "defaults:\n";
            bool first = true;
            for (size_t f = 0; f < 3; ++f)
                if (s.defaults & (1 << f)) {
                    if (json)
                        t += std::string(first ? "" : ", ") + "\"" + keys[f] + "\": \"" + d[f] + "\"";
                    else
                        t += std::string("  ") + keys[f] + ": " + d[f] + "\n";
                    first = false;
                }
            if (json) t += "},\n";
        }
        t += json ? "\"events\": [\n" : s.events.empty() ? "events: []\n" : "events:\n";
        for (size_t k = 0; k < s.events.size(); ++k) {
            const auto& e = s.events[k];
            const bool last = k + 1 == s.events.size();
            const int bad = last ? s.badFile : 0;
            auto f = fields(k);
            const auto d = fields(0);
            if (bad == 1) f[0] = "nobody";
            if (bad == 2) f[1] = "nothing";
            if (bad == 3) f[2] = "explode";
            char num[64];
            snprintf(num, sizeof num, "%.17g", static_cast<double>(e.at.count()) * 1e-9);
            std::vector<std::pair<std::string, std::string>> kv;
            const std::string q = json ? "\"" : "";
            if (bad != 10) kv.emplace_back("time", num);
            for (size_t n = 0; n < 3; ++n)
                if (bad != 5 + static_cast<int>(n) && !((s.defaults & (1 << n)) && f[n] == d[n] && bad != static_cast<int>(n) + 1 && (k + id) % 4)) kv.emplace_back(keys[n], q + f[n] + q);
            if (bad != 8 && (e.mod.kind || bad == 3)) kv.emplace_back("value", bad == 9 ? q + "plenty" + q : show(e.mod.v));
            if (kv.empty()) kv.emplace_back(keys[0], q + f[0] + q);
            std::string line;
            for (const auto& [key, val] : kv)
                if (json)
                    line += (line.empty() ? "{\"" : ", \"") + key + "\": " + val;
                else
                    line += (line.empty() ? "  - " : "    ") + key + ": " + val + "\n";
            t += json ? line + (last ? "}\n" : "},\n") : line;
        }
        if (json) t += "]";
        if (s.end) {
            char num[64];
            snprintf(num, sizeof num, "%.17g", static_cast<double>(s.end->count()) * 1e-9);
            t += std::string(json ? ",\n\"end\": " : "end: ") + num;
        }
        t += json ? "\n}\n" : "\n";
        const std::string p = std::string(scratch()) + "/scenario" + std::to_string(fileNo++) + (json ? ".json" : ".yaml");
        if (s.badFile != 4) {
            std::ofstream f(p);
            f << t;
        }
        return p;
    };

    Model model;
    RefModel ref(sp);
    std::vector<std::vector<std::vector<scalar_value>>> outs(sp.sims.size()); // expected outputs per slave and own step
    bool initialized = false;
    // Advances the model by up to n steps; returns how many can be made before an event cannot be applied
    auto advance_model = [&](int n) {
        NoSim ns;
        if (!initialized) ref.initialize();
        initialized = true;
        for (int s = 0; s < n; ++s) {
            if (!model.commence(ref.t)) return s;
            for (size_t i = 0; i < sp.sims.size(); ++i) {
                auto& r = ref.sims[i];
                if (ref.c % r.df) continue;
                const auto dt = sp.base * r.df;
                for (size_t k = 0; k < r.in.size(); ++k) {
                    const auto it = model.mods.find({static_cast<int>(i), false, k});
                    r.in[k] = it == model.mods.end() ? r.last[k] : apply_any(it->second, r.last[k], dt);
                    if (it != model.mods.end()) count("modified inputs");
                }
                r.steps.push_back({ref.t, r.in});
                r.h = next_state(r.h, r.in, ref.t, dt);
                for (size_t k = 0; k < r.out.size(); ++k) {
                    const auto plain = sim_output(sp.sims[i], k, r.h, r.in);
                    const auto it = model.mods.find({static_cast<int>(i), true, k});
                    r.out[k] = it == model.mods.end() ? plain : apply_any(it->second, plain, dt);
                    if (it != model.mods.end()) count("modified outputs");
                }
                outs[i].push_back(r.out);
            }
            ++ref.c;
            ref.t += sp.base;
            ref.transfer();
        }
        return n;
    };
    auto check_state = [&] {
        const bool r = sm->is_scenario_running();
        const auto got = ex.get_modified_variables();
        NoSim n;
        if (r != model.running) fail("wrong-state", "after %lld steps is_scenario_running() is %d", static_cast<long long>(ref.c), r);
        std::set<std::tuple<int, int, value_reference>> a, b;
        for (const auto& v : got) a.insert({v.simulator, static_cast<int>(v.type), v.reference});
        for (const auto& m : model.mods) b.insert({m.first.sim, var(m.first).type, var(m.first).ref});
        if (a != b || a.size() != got.size()) fail("wrong-modified", "after %lld steps %zu variables are reported as modified instead of %zu", static_cast<long long>(ref.c), got.size(), b.size());
        count("states checked");
    };
    nontrivial();
    for (const auto& b : batches) {
        for (const auto& op : b.ops) {
            if (op.kind == 2) {
                sm->abort_scenario();
                model.abort();
                count("aborts");
            } else {
                const auto at = ex.current_time() + op.scn.offset;
                if (model.running) count("scenarios replaced");
                if (!op.scn.file) {
                    sm->load_scenario(in_memory(op.scn), at);
                    model.load(op.scn, ref.t);
                } else {
                    std::string p;
                    {
                        NoSim n;
                        p = write_file(op.scn);
                    }
                    const auto before = faults_fired(F_READ_FAIL) + faults_fired(F_OPEN_FAIL);
                    bool threw = false;
                    try {
                        sm->load_scenario(cosim::filesystem::path(p), at);
                    } catch (const std::exception& e) {
                        NoSim n;
                        dsim::log("loading: %s", e.what());
                        threw = true;
                    }
                    const bool faulty = faults_fired(F_READ_FAIL) + faults_fired(F_OPEN_FAIL) != before;
                    if (threw && !op.scn.badFile && !faulty) fail("file-refused", "a valid scenario file was refused");
                    if (!threw && op.scn.badFile) fail("bad-file-accepted", "an invalid scenario file (%d) was accepted", op.scn.badFile);
                    if (!threw && faulty) fail("unread-file-accepted", "a scenario file that could not be read was accepted");
                    count(threw ? "files refused" : "files loaded");
                    if (!threw) model.load(op.scn, ref.t);
                }
            }
            check_state();
        }
        const int expected = advance_model(b.n);
        const bool throws = expected < b.n;
        int made = 0;
        bool threw = false;
        try {
            if (b.kind == 0)
                for (int k = 0; k < b.n; ++k) {
                    ex.step();
                    ++made;
                }
            else {
                const auto from = ex.current_time();
                const auto target = from + sp.base * b.n;
                try {
                    if (b.kind == 1)
                        ex.simulate_until(target);
                    else
                        ex.simulate_until_async(target).get();
                } catch (...) {
                    made = static_cast<int>((ex.current_time() - from) / sp.base);
                    throw;
                }
                made = static_cast<int>((ex.current_time() - from) / sp.base);
            }
        } catch (const std::exception& e) {
            threw = true;
            NoSim n;
            dsim::log("stepping: %s", e.what());
            if (!throws) fail("unexpected-exception", "a step ended with %s", e.what());
        }
        if (throws && !threw) fail("no-exception", "an event for an unknown variable did not cause an exception");
        if (made != expected) fail("wrong-step-count", "%d steps were made instead of %d", made, expected);
        check_state();
        if (threw) {
            count("events that cannot be applied");
            sm->abort_scenario();
            model.abort();
            check_state();
        }
    }
    // the end of a scenario is followed by steps without it
    if (model.running) {
        sm->abort_scenario();
        model.abort();
    }
    const int more = 3;
    advance_model(more);
    for (int k = 0; k < more; ++k) ex.step();
    check_state();
    NoSim n;
    check_slave_histories(sys.slaves, ref, sp);
    std::vector<size_t> seen(sp.sims.size());
    for (const auto& e : watch->ev)
        if (e.kind == Event::SIM) {
            const size_t i = static_cast<size_t>(e.sim), k = seen[i]++;
            if (k >= outs[i].size()) fail("wrong-step-count", "slave %zu: too many steps reported", i);
            for (size_t j = 0; j < e.vals.size(); ++j)
                if (!Probe::was_seen(e.vals[j]))
                    count("outputs not looked at");
                else if (e.vals[j] != outs[i][k][j]) fail("wrong-output", "slave %zu step %zu: output %s was seen as %s instead of %s", i, k, sp.sims[i].out[j].name.c_str(), show(e.vals[j]).c_str(), show(outs[i][k][j]).c_str());
        }
    fold(static_cast<uint64_t>(ref.c));
}
