// C26: an execution works with any co-simulation algorithm, whatever step lengths it chooses.
#include "cosim/algorithm/algorithm.hpp"
#include "cosim/manipulator/scenario_manager.hpp"
#include "cosim/observer/file_observer.hpp"
#include "cosim/observer/last_value_observer.hpp"
#include "cosim/observer/time_series_observer.hpp"

#include "common.hpp"

#include <dirent.h>

#include <cmath>
#include <fstream>
#include <thread>

using namespace hx;
namespace dsim
{
const char* property_id = "C26";
}
void dsim_setup() { quiet(); }

namespace
{
struct Macro // one step of the algorithm
{
    duration len;
    std::vector<bool> finish; // the slaves that complete a step of their own
};
struct Failure
{
    int step = -2; // -2: none, -1: in initialize(), otherwise in this step
    int how = 0; // 0 std::runtime_error, 1 something that isn't an exception
};

// A user's algorithm with variable steps
class VAlgo : public cosim::algorithm
{
public:
    VAlgo(const std::vector<Macro>& p, const Failure& f, time_point start)
        : plan(p)
        , failure(f)
        , start_(start)
    { }
    void add_simulator(cosim::simulator_index i, cosim::simulator* s, duration hint) override
    {
        touch = touch + 1;
        NoSim n;
        if (!setups) fail("protocol", "a simulator was added before setup()");
        if (sims.count(i)) fail("protocol", "simulator %d was added twice", i);
        sims[i] = {s, start_};
        hints.push_back(hint);
    }
    void remove_simulator(cosim::simulator_index) override { fail("protocol", "remove_simulator() called"); }
    void add_function(cosim::function_index, cosim::function*) override { fail("protocol", "add_function() called"); }
    void connect_variables(cosim::variable_id o, cosim::variable_id i) override
    {
        touch = touch + 1;
        sims.at(o.simulator).sim->expose_for_getting(o.type, o.reference);
        sims.at(i.simulator).sim->expose_for_setting(i.type, i.reference);
        conns.push_back({o, i});
    }
    void connect_variables(cosim::variable_id, cosim::function_io_id) override { fail("protocol", "function connected"); }
    void connect_variables(cosim::function_io_id, cosim::variable_id) override { fail("protocol", "function connected"); }
    void disconnect_variable(cosim::variable_id) override { fail("protocol", "disconnect_variable() called"); }
    void disconnect_variable(cosim::function_io_id) override { fail("protocol", "disconnect_variable() called"); }
    void setup(time_point t, std::optional<time_point> stop) override
    {
        NoSim n;
        if (setups++) fail("protocol", "setup() called twice");
        if (t != start_) fail("protocol", "setup() called with the start time %lld ns", static_cast<long long>(t.time_since_epoch().count()));
        if (stop && *stop < t) fail("protocol", "setup() called with a stop time before the start time");
    }
    void initialize() override
    {
        touch = touch + 1;
        {
            NoSim n;
            if (inits++) fail("protocol", "initialize() called twice");
        }
        if (failure.step == -1) raise();
        for (auto& s : sims) s.second.sim->setup(start_, std::nullopt, std::nullopt);
        for (size_t k = 0; k <= sims.size(); ++k) {
            for (auto& s : sims) s.second.sim->do_iteration();
            transfer();
        }
        for (auto& s : sims) s.second.sim->start_simulation();
    }
    std::pair<duration, std::unordered_set<cosim::simulator_index>> do_step(time_point t) override
    {
        touch = touch + 1;
        const Macro* m;
        {
            NoSim n;
            if (!inits) fail("protocol", "do_step() called before initialize()");
            if (failed) fail("called-after-failure", "do_step() called after the algorithm had failed");
            if (t != next) fail("protocol", "step %zu begins at %lld ns, but the previous one ended at %lld ns", steps, static_cast<long long>((t - start_).count()), static_cast<long long>((next - start_).count()));
            m = &plan[steps % plan.size()];
            if (pace > 0) {
                const double sim = static_cast<double>((t - paceStart).count()), real = static_cast<double>(now() - paceSince);
                if (sim / pace > real + 100000. + 1e-6 * real) fail("too-early", "step %zu began %.0f ns after the start of pacing, but %.0f ns were simulated at a factor of %g", steps, real, sim, pace);
                count("steps paced");
            }
            if (stepAt.size() <= steps) stepAt.resize(steps + 1);
            stepAt[steps] = now();
        }
        advance(steps - batchBegan > 300 ? 50000000 : 1000 + 5000 * (steps % 7));
        if (failure.step == static_cast<int>(steps)) raise();
        std::unordered_set<cosim::simulator_index> fin;
        for (auto& s : sims)
            if (m->finish[static_cast<size_t>(s.first)]) {
                if (s.second.sim->do_step(s.second.last, t + m->len - s.second.last) != cosim::step_result::complete) fail("step-result", "a step was not complete");
                s.second.last = t + m->len;
                fin.insert(s.first);
            }
        transfer();
        NoSim n;
        next = t + m->len;
        ++steps;
        stepEnd = now();
        return {m->len, fin};
    }
    // oracle data
    std::vector<Macro> plan;
    Failure failure;
    time_point start_, next = start_;
    size_t steps = 0, batchBegan = 0;
    int setups = 0, inits = 0;
    bool failed = false;
    std::vector<duration> hints;
    double pace = 0;
    time_point paceStart;
    uint64_t paceSince = 0, stepEnd = 0;
    std::vector<uint64_t> stepAt;

private:
    struct Sim
    {
        cosim::simulator* sim;
        time_point last;
    };
    void raise()
    {
        {
            NoSim n;
            failed = true;
            count("algorithm failures");
        }
        if (failure.how) throw odd_exception{3};
        throw std::runtime_error("algorithm gave up");
    }
    void transfer()
    {
        for (const auto& [o, i] : conns) {
            auto& a = *sims.at(o.simulator).sim;
            auto& b = *sims.at(i.simulator).sim;
            switch (o.type) {
                case variable_type::real: b.set_real(i.reference, a.get_real(o.reference)); break;
                case variable_type::integer: b.set_integer(i.reference, a.get_integer(o.reference)); break;
                case variable_type::boolean: b.set_boolean(i.reference, a.get_boolean(o.reference)); break;
                default: b.set_string(i.reference, a.get_string(o.reference));
            }
        }
    }
    std::map<int, Sim> sims;
    std::vector<std::pair<cosim::variable_id, cosim::variable_id>> conns;
    long touch = 0;
};

struct Scn // a scenario: constants for some outputs and inputs
{
    struct Ev
    {
        int sim;
        bool out;
        size_t idx;
        duration at;
        double v;
    };
    std::vector<Ev> events;
    std::optional<duration> end;
};
std::string slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), {});
}
} // namespace

void dsim_run()
{
    GenOptions o;
    o.maxSims = 4;
    o.maxFuns = 0;
    o.maxVars = 2;
    o.minOut = 1;
    Spec sp = generate(o);
    for (auto& m : sp.sims) m.df = 1;
    const size_t ns = sp.sims.size();
    std::vector<Macro> plan(1 + draw(12));
    for (auto& m : plan) {
        static const int64_t unit[] = {1, 1000, 1000000, 10000000, 333333};
        m.len = duration(unit[draw(5)] * draw_range(1, 40));
        const bool all = draw_bool(40);
        for (size_t i = 0; i < ns; ++i) m.finish.push_back(all || draw_bool(60));
    }
    Failure failure;
    if (draw_bool(20)) {
        failure.step = static_cast<int>(draw(25)) - 1;
        failure.how = static_cast<int>(draw(2));
    }
    auto len = [&](size_t k) { return plan[k % plan.size()].len; };
    auto at = [&](size_t k) { // beginning of step k
        time_point t = sp.start;
        for (size_t j = 0; j < k; ++j) t += len(j);
        return t;
    };
    struct Batch
    {
        int kind, n;
        int target; // 0 exact, 1 a little before, 2 a little after, 3 half a step after, 4 in the past
        double factor; // real-time factor, 0: none
    };
    std::vector<Batch> batches(1 + draw(5));
    for (auto& b : batches) {
        static const double f[] = {0.5, 1, 3, 100};
        b = {static_cast<int>(draw(4)), static_cast<int>(1 + draw(8)), draw_bool(50) ? 0 : static_cast<int>(draw(5)), draw_bool(40) ? f[draw(4)] : 0};
    }
    const bool watched = draw_bool(80), series = draw_bool(60), latest = draw_bool(50), logged = draw_bool(25);
    const size_t bufSize = draw_bool(50) ? 1 + draw(6) : 10000;
    // a scenario, loaded before the first step or a later batch
    Scn scn;
    const int scnAt = draw_bool(50) ? static_cast<int>(draw(batches.size())) : -1;
    if (scnAt >= 0) {
        const size_t n = draw(5);
        for (size_t k = 0; k < n; ++k) {
            Scn::Ev e;
            e.sim = static_cast<int>(draw(ns));
            const auto& m = sp.sims[static_cast<size_t>(e.sim)];
            std::vector<std::pair<bool, size_t>> reals;
            for (size_t j = 0; j < m.out.size(); ++j)
                if (m.out[j].type == 0) reals.push_back({true, j});
            for (size_t j = 0; j < m.in.size(); ++j)
                if (m.in[j].type == 0) reals.push_back({false, j});
            std::tie(e.out, e.idx) = reals[draw(reals.size())];
            const size_t k0 = draw(14);
            e.at = at(k0) - sp.start + (draw_bool(30) ? len(k0) / 2 : duration(static_cast<int64_t>(draw(3)) - 1));
            if (e.at < duration::zero()) e.at = duration::zero();
            e.v = 5000000. + static_cast<double>(k);
            scn.events.push_back(e);
        }
        if (draw_bool(60)) scn.end = at(draw(18)) - sp.start + duration(static_cast<int64_t>(draw(3)) - 1);
    }
    usual_faults();
    if (draw_bool(50)) enable_fault(F_LATE_SLEEP, 100000);
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    start(cfg);
    const std::string logs = std::string(scratch()) + "/logs";
    {
        NoSim n;
        dsim::log("%s, %zu lengths, failure %d, %zu batches, scenario %d (%zu events)", describe(sp).c_str(), plan.size(), failure.step, batches.size(), scnAt, scn.events.size());
    }
    auto algo = std::make_shared<VAlgo>(plan, failure, sp.start);
    auto exec = std::make_unique<cosim::execution>(sp.start, algo);
    auto& ex = *exec;
    auto probe = std::make_shared<Probe>(sp, watched);
    auto tso = std::make_shared<cosim::time_series_observer>(bufSize);
    auto lvo = std::make_shared<cosim::last_value_observer>();
    auto scm = std::make_shared<cosim::scenario_manager>();
    std::shared_ptr<cosim::file_observer> fo;
    if (logged) fo = std::make_shared<cosim::file_observer>(cosim::filesystem::path(logs));
    ex.add_observer(probe);
    ex.add_manipulator(probe);
    if (series) ex.add_observer(tso);
    if (latest) ex.add_observer(lvo);
    if (logged) ex.add_observer(fo);
    ex.add_manipulator(scm);
    std::vector<std::shared_ptr<MSlave>> slaves;
    for (size_t i = 0; i < ns; ++i) {
        slaves.push_back(std::make_shared<MSlave>(sp.sims[i], static_cast<int>(i)));
        if (ex.add_slave(slaves[i], sp.sims[i].name, sp.sims[i].hint) != static_cast<int>(i)) fail("index", "wrong index");
        if (algo->hints.back() != sp.sims[i].hint) fail("wrong-hint", "slave %zu was added with a step size hint of %lld ns instead of %lld", i, static_cast<long long>(algo->hints.back().count()), static_cast<long long>(sp.sims[i].hint.count()));
    }
    for (const auto& c : sp.conns) {
        const auto &s = sp.sims[static_cast<size_t>(c.src)].out[static_cast<size_t>(c.srcVar)], &d = sp.sims[static_cast<size_t>(c.dst)].in[static_cast<size_t>(c.dstVar)];
        ex.connect_variables(cosim::variable_id{c.src, static_cast<variable_type>(s.type), s.ref}, cosim::variable_id{c.dst, static_cast<variable_type>(d.type), d.ref});
    }
    for (const auto& i : sp.inits) {
        const auto& v = sp.sims[static_cast<size_t>(i.sim)].in[static_cast<size_t>(i.var)];
        switch (v.type) {
            case 0: ex.set_real_initial_value(i.sim, v.ref, std::get<0>(i.v)); break;
            case 1: ex.set_integer_initial_value(i.sim, v.ref, std::get<1>(i.v)); break;
            case 2: ex.set_boolean_initial_value(i.sim, v.ref, std::get<2>(i.v)); break;
            default: ex.set_string_initial_value(i.sim, v.ref, std::get<3>(i.v));
        }
    }
    if (series)
        for (size_t i = 0; i < ns; ++i)
            for (const auto& v : sp.sims[i].out)
                if (v.type < 2) tso->start_observing({static_cast<int>(i), static_cast<variable_type>(v.type), v.ref});
    nontrivial();

    // ---- the reference ----
    RefModel ref(sp);
    struct Done
    {
        long long step;
        time_point t;
        std::vector<scalar_value> out;
    };
    std::vector<std::vector<Done>> done(ns); // step 0 included
    std::vector<time_point> last(ns, sp.start);
    bool refInit = false;
    int scnState = 0; // 1 running
    time_point scnStart;
    std::vector<bool> fired(scn.events.size());
    auto ref_commence = [&](time_point t) {
        if (scnState != 1) return;
        const auto rel = t - scnStart;
        if (std::find(fired.begin(), fired.end(), false) == fired.end() && (!scn.end || rel >= *scn.end)) {
            scnState = 2;
            for (auto& s : ref.sims) {
                for (auto& x : s.ovIn) x.reset();
                for (auto& x : s.ovOut) x.reset();
            }
            count("scenarios ended");
            return;
        }
        for (size_t k = 0; k < fired.size(); ++k)
            if (!fired[k] && rel >= scn.events[k].at) {
                fired[k] = true;
                const auto& e = scn.events[k];
                auto& s = ref.sims[static_cast<size_t>(e.sim)];
                (e.out ? s.ovOut : s.ovIn)[e.idx] = scalar_value(e.v);
                count("events fired");
            }
    };
    auto ref_init = [&] {
        if (refInit) return;
        refInit = true;
        ref.initialize();
        for (size_t i = 0; i < ns; ++i) done[i].push_back({0, sp.start, ref.sims[i].out});
    };
    auto ref_step = [&] {
        NoSim n;
        ref_init();
        const size_t k = static_cast<size_t>(ref.c);
        ref_commence(ref.t);
        const auto e = ref.t + len(k);
        for (size_t i = 0; i < ns; ++i) {
            if (!plan[k % plan.size()].finish[i]) continue;
            auto& r = ref.sims[i];
            const auto dt = e - last[i];
            ref.set_inputs(i, dt);
            r.steps.push_back({last[i], r.in});
            r.h = next_state(r.h, r.in, last[i], dt);
            ref.get_outputs(i, dt);
            last[i] = e;
            done[i].push_back({static_cast<long long>(k + 1), e, r.out});
        }
        ref.t = e;
        ++ref.c;
        for (const auto& cn : ref.conns) ref.sims[static_cast<size_t>(cn.dst)].last[static_cast<size_t>(cn.dstVar)] = ref.sims[static_cast<size_t>(cn.src)].out[static_cast<size_t>(cn.srcVar)];
    };
    auto check_series = [&] {
        if (!series || !refInit) return;
        for (size_t i = 0; i < ns; ++i) {
            std::vector<Done> h = done[i];
            if (h.size() > bufSize) h.erase(h.begin(), h.end() - static_cast<long>(bufSize));
            std::vector<double> d(h.size() + 3);
            std::vector<int> iv(h.size() + 3);
            std::vector<cosim::step_number> st(h.size() + 3), two(2);
            std::vector<time_point> tm(h.size() + 3);
            for (size_t k = 0; k < sp.sims[i].out.size(); ++k) {
                const auto& v = sp.sims[i].out[k];
                if (v.type > 1) continue;
                // (the samples returned are those with a number below the first plus the room for them)
                const auto from = h[draw(h.size())].step;
                size_t want = 0, first = 0;
                for (size_t j = 0; j < h.size(); ++j) {
                    if (h[j].step < from) first = j + 1;
                    if (h[j].step >= from && h[j].step < from + static_cast<long long>(d.size())) ++want;
                }
                const auto n = v.type == 0 ? tso->get_real_samples(static_cast<int>(i), v.ref, from, gsl::span<double>(d), gsl::span<cosim::step_number>(st), gsl::span<time_point>(tm))
                                           : tso->get_integer_samples(static_cast<int>(i), v.ref, from, gsl::span<int>(iv), gsl::span<cosim::step_number>(st), gsl::span<time_point>(tm));
                NoSim q;
                if (n != want) fail("wrong-series", "slave %zu: %zu samples from step %lld on instead of %zu", i, n, from, want);
                for (size_t j = 0; j < n; ++j) {
                    const auto& w = h[first + j];
                    const scalar_value x = v.type == 0 ? scalar_value(d[j]) : scalar_value(iv[j]);
                    if (st[j] != w.step || tm[j] != w.t || x != w.out[k]) fail("wrong-series", "slave %zu: sample %zu is (%lld, %lld ns, %s) instead of (%lld, %lld ns, %s)", i, j, static_cast<long long>(st[j]), static_cast<long long>(tm[j].time_since_epoch().count()), show(x).c_str(), w.step, static_cast<long long>(w.t.time_since_epoch().count()), show(w.out[k]).c_str());
                }
                count("series checked");
            }
            for (int q = 0; q < 2; ++q) {
                const auto a = h[draw(h.size())].t + duration(static_cast<int64_t>(draw(3)) - 1), b = h[draw(h.size())].t + duration(static_cast<int64_t>(draw(3)) - 1);
                const auto back = h.back().t - a;
                if (q && back < duration::zero()) continue;
                if (q)
                    tso->get_step_numbers(static_cast<int>(i), back, gsl::span<cosim::step_number>(two));
                else
                    tso->get_step_numbers(static_cast<int>(i), a, b, gsl::span<cosim::step_number>(two));
                NoSim n;
                long long lo = h.front().step, hi = h.back().step;
                for (const auto& x : h)
                    if (x.t <= a) lo = x.step;
                if (!q)
                    for (size_t j = h.size(); j-- > 0;)
                        if (h[j].t >= b) hi = h[j].step;
                if (two[0] != lo || two[1] != hi) fail("wrong-step-numbers", "slave %zu: steps %lld to %lld instead of %lld to %lld", i, static_cast<long long>(two[0]), static_cast<long long>(two[1]), lo, hi);
                count("step-number queries checked");
            }
        }
    };
    auto check_latest = [&] {
        if (!latest || !refInit) return;
        for (size_t i = 0; i < ns; ++i) {
            std::vector<value_reference> rr, ri;
            std::vector<size_t> kr, ki;
            for (size_t k = 0; k < sp.sims[i].out.size(); ++k) {
                if (sp.sims[i].out[k].type == 0) rr.push_back(sp.sims[i].out[k].ref), kr.push_back(k);
                if (sp.sims[i].out[k].type == 1) ri.push_back(sp.sims[i].out[k].ref), ki.push_back(k);
            }
            std::vector<double> d(rr.size());
            std::vector<int> v(ri.size());
            if (!rr.empty()) lvo->get_real(static_cast<int>(i), gsl::make_span(rr), gsl::make_span(d));
            if (!ri.empty()) lvo->get_integer(static_cast<int>(i), gsl::make_span(ri), gsl::make_span(v));
            NoSim n;
            for (size_t k = 0; k < rr.size(); ++k)
                if (scalar_value(d[k]) != done[i].back().out[kr[k]]) fail("wrong-last-value", "slave %zu: %s is %g instead of %s", i, sp.sims[i].out[kr[k]].name.c_str(), d[k], show(done[i].back().out[kr[k]]).c_str());
            for (size_t k = 0; k < ri.size(); ++k)
                if (scalar_value(v[k]) != done[i].back().out[ki[k]]) fail("wrong-last-value", "slave %zu: %s is %d instead of %s", i, sp.sims[i].out[ki[k]].name.c_str(), v[k], show(done[i].back().out[ki[k]]).c_str());
            count("last values checked");
        }
    };

    // ---- the run ----
    bool broken = false;
    int commenced = 0; // steps that have commenced without having been completed
    for (size_t bi = 0; bi < batches.size() && !broken; ++bi) {
        const auto& b = batches[bi];
        if (static_cast<int>(bi) == scnAt) {
            cosim::scenario::scenario s;
            for (const auto& e : scn.events) {
                const auto& m = sp.sims[static_cast<size_t>(e.sim)];
                s.events.push_back({time_point(e.at), {e.sim, (e.out ? m.out : m.in)[e.idx].ref, cosim::scenario::real_modifier{[v = e.v](double, duration) { return v; }}, !e.out}});
            }
            if (scn.end) s.end = time_point(*scn.end);
            scm->load_scenario(s, ex.current_time());
            NoSim n;
            scnState = 1;
            scnStart = ref.t;
        }
        auto rt = ex.get_real_time_config();
        rt->real_time_simulation = b.factor > 0;
        rt->real_time_factor_target = b.factor > 0 ? b.factor : 1.0;
        const size_t before = algo->steps;
        algo->batchBegan = before;
        const auto t0 = ex.current_time();
        const uint64_t called = now();
        if (b.kind > 0 && b.factor > 0) {
            algo->pace = b.factor;
            algo->paceStart = t0;
            algo->paceSince = called;
        } else
            algo->pace = 0;
        // the target: the end of the nth step from here, or thereabouts
        time_point target = at(before + static_cast<size_t>(b.n));
        const auto next = len(before + static_cast<size_t>(b.n)), prev = len(before + static_cast<size_t>(b.n) - 1);
        if (b.target == 1) target -= prev / 150;
        if (b.target == 2) target += prev / 150;
        if (b.target == 3) target += next / 2;
        if (b.target == 4) target = t0 - duration(1);
        auto reached = [&](size_t k) { // after step k (of all)
            return static_cast<double>((target - at(k + 1)).count()) < static_cast<double>(len(k).count()) * 0.01;
        };
        size_t want = before;
        if (b.kind == 0)
            want += static_cast<size_t>(b.n);
        else {
            do
                ++want;
            while (!reached(want - 1));
        }
        bool threw = false, wrongType = false, result = true;
        duration dt{0};
        try {
            if (b.kind == 0)
                for (int k = 0; k < b.n; ++k) {
                    dt = ex.step();
                    NoSim n;
                    if (dt != len(algo->steps - 1)) fail("wrong-step-size", "step() returned %lld ns instead of %lld", static_cast<long long>(dt.count()), static_cast<long long>(len(algo->steps - 1).count()));
                }
            else if (b.kind == 1)
                result = ex.simulate_until(target);
            else if (b.kind == 2)
                result = ex.simulate_until_async(target).get();
            else {
                auto f = ex.simulate_until_async(std::nullopt);
                std::this_thread::sleep_for(std::chrono::nanoseconds(1 + b.n * 30000));
                ex.stop_simulation();
                result = f.get();
            }
        } catch (const std::runtime_error& e) {
            threw = true;
            wrongType = failure.how != 0 || std::string(e.what()).find("algorithm gave up") == std::string::npos;
        } catch (const odd_exception&) {
            threw = true;
            wrongType = failure.how != 1;
        }
        const uint64_t returned = now();
        {
            NoSim n;
            if (threw != algo->failed) fail("failure-lost", "the algorithm has%s failed, but the call has%s", algo->failed ? "" : " not", threw ? "" : " not");
            if (wrongType) fail("wrong-exception", "another exception than that of the algorithm was thrown");
            if (ex.is_running()) fail("still-running", "the simulation is reported as running after the call");
            const size_t after = algo->steps;
            if (!threw) {
                if (b.kind < 3 && after != want) fail("wrong-step-count", "%zu steps were made instead of %zu (target %lld ns after %lld)", after - before, want - before, static_cast<long long>((target - sp.start).count()), static_cast<long long>((t0 - sp.start).count()));
                if (b.kind == 3 && (after == before || result)) fail("wrong-stop", "%zu steps were made, and the result was %d", after - before, result);
                if (b.kind < 3 && !result) fail("wrong-result", "the target was not reported as reached");
            }
            while (static_cast<size_t>(ref.c) < after) ref_step();
            if (ex.current_time() != ref.t) fail("wrong-time", "the time is %lld ns instead of %lld", static_cast<long long>((ex.current_time() - sp.start).count()), static_cast<long long>((ref.t - sp.start).count()));
            if (!threw && b.kind > 0) {
                const double sim = static_cast<double>((ref.t - t0).count());
                const double total = ex.get_real_time_metrics()->total_average_real_time_factor.load();
                const double most = static_cast<double>(returned - called), least = static_cast<double>(algo->stepEnd - algo->stepAt[before]);
                if (total < sim / most * (1 - 1e-9) || (least > 0 && total > sim / least * (1 + 1e-9))) fail("wrong-metric", "the total real-time factor is %g, but %.0f ns were simulated in %.0f to %.0f ns", total, sim, least, most);
                count("real-time factors checked");
            }
            if (threw) {
                broken = true;
                if (failure.step >= 0) commenced = 1;
                if (failure.step >= 0) ref_init();
            }
        }
        check_series();
        if (!broken) check_latest();
        if (!broken && scm->is_scenario_running() != (scnState == 1)) fail("wrong-scenario-state", "the scenario is%s reported as running", scnState == 1 ? " not" : "");
    }
    if (broken) {
        // it cannot go on
        bool threw = false;
        try {
            if (draw_bool(50))
                ex.step();
            else
                ex.simulate_until(ex.current_time() + duration(1000));
        } catch (const std::exception&) {
            threw = true;
        }
        if (!threw) fail("failure-ignored", "a step succeeded after the algorithm had failed");
    }

    NoSim n;
    check_slave_histories(slaves, ref, sp);
    // what observers and manipulators have been told
    {
        std::vector<size_t> nth(ns, 1);
        long long c = 0;
        int commences = 0, inits = 0;
        std::set<int> fin;
        for (const auto& e : probe->ev) {
            if (e.kind == Event::INIT) {
                if (++inits > 1 || c || commences) fail("wrong-notification", "the initialisation was reported too late or twice");
                if (e.step != 0 || e.t != sp.start) fail("wrong-notification", "the initialisation was reported with step %lld", e.step);
            }
            if (e.kind == Event::COMMENCE) {
                if (!inits) fail("wrong-notification", "a step commenced before the initialisation was reported");
                ++commences;
                if (commences > c + 1 && !broken) fail("wrong-notification", "a step commenced twice");
                if (e.t != at(static_cast<size_t>(c))) fail("wrong-notification", "step %lld was said to commence at %lld ns", c, static_cast<long long>((e.t - sp.start).count()));
            }
            if (e.kind == Event::SIM || e.kind == Event::STEP) {
                if (commences != c + 1) fail("wrong-notification", "step %lld was reported, but has not commenced", c + 1);
                if (e.step != c + 1 || e.t != at(static_cast<size_t>(c) + 1) || e.dt != len(static_cast<size_t>(c))) fail("wrong-notification", "step %lld (%lld ns) was reported as step %lld at %lld ns, of %lld ns", c + 1, static_cast<long long>(len(static_cast<size_t>(c)).count()), e.step, static_cast<long long>((e.t - sp.start).count()), static_cast<long long>(e.dt.count()));
            }
            if (e.kind == Event::SIM) {
                const auto i = static_cast<size_t>(e.sim);
                if (!fin.insert(e.sim).second) fail("wrong-notification", "slave %d was reported twice in step %lld", e.sim, c + 1);
                if (!plan[static_cast<size_t>(c) % plan.size()].finish[i]) fail("wrong-notification", "slave %d was reported in step %lld, but has not completed a step", e.sim, c + 1);
                if (watched)
                    for (size_t k = 0; k < e.vals.size(); ++k)
                        if (e.vals[k] != done[i][nth[i]].out[k]) fail("wrong-output", "slave %d in step %lld: %s was seen as %s instead of %s", e.sim, c + 1, sp.sims[i].out[k].name.c_str(), show(e.vals[k]).c_str(), show(done[i][nth[i]].out[k]).c_str());
                ++nth[i];
                count("slave notifications checked");
            }
            if (e.kind == Event::STEP) {
                size_t w = 0;
                for (bool x : plan[static_cast<size_t>(c) % plan.size()].finish) w += x;
                if (fin.size() != w) fail("wrong-notification", "%zu slaves were reported in step %lld instead of %zu", fin.size(), c + 1, w);
                fin.clear();
                ++c;
            }
        }
        if (c != ref.c) fail("wrong-notification", "%lld steps were reported instead of %lld", c, static_cast<long long>(ref.c));
        (void)commenced;
    }
    if (logged) {
        fo.reset();
        // (the files are complete when both have gone)
    }
    exec.reset();
    if (logged && refInit) {
        std::map<std::string, std::string> files;
        if (DIR* d = opendir(logs.c_str())) {
            while (dirent* e = readdir(d))
                if (e->d_name[0] != '.') files[e->d_name] = slurp(logs + "/" + e->d_name);
            closedir(d);
        }
        for (size_t i = 0; i < ns; ++i) {
            const std::string* text = nullptr;
            for (const auto& f : files)
                if (f.first.compare(0, sp.sims[i].name.size() + 1, sp.sims[i].name + "_") == 0 && f.first.find(".csv") != std::string::npos) text = &f.second;
            if (!text) fail("no-log", "there is no log file of slave %zu", i);
            std::vector<std::string> lines;
            size_t p = 0;
            for (size_t q; (q = text->find('\n', p)) != std::string::npos; p = q + 1) lines.push_back(text->substr(p, q - p));
            if (lines.size() != done[i].size() + 1) fail("wrong-log", "the log of slave %zu has %zu rows instead of %zu", i, lines.size() - 1, done[i].size());
            for (size_t k = 0; k < done[i].size(); ++k) {
                double t = -1;
                long long s = -1;
                sscanf(lines[k + 1].c_str(), "%lf,%lld", &t, &s);
                const double want = static_cast<double>(done[i][k].t.time_since_epoch().count()) * 1e-9;
                if (s != done[i][k].step || std::fabs(t - want) > 1e-5 * want + 1e-9) fail("wrong-log", "row %zu of slave %zu is '%s' instead of step %lld at %.9f s", k, i, lines[k + 1].c_str(), done[i][k].step, want);
                count("log rows checked");
            }
        }
    }
    fold(static_cast<uint64_t>(ref.c));
}
