// C10: time series are the exact recent history of the observed variables.
#include "cosim/observer/time_series_observer.hpp"

#include "common.hpp"

#include <thread>

using namespace hx;
namespace dsim
{
const char* property_id = "C10";
}
void dsim_setup() { quiet(); }

namespace
{
struct VarSel
{
    int sim;
    bool out;
    size_t idx;
    int type;
    value_reference ref;
    bool operator==(const VarSel& o) const { return sim == o.sim && type == o.type && ref == o.ref; }
};
struct Ev // something that changes what the observer holds for one slave
{
    enum
    {
        START,
        STOP,
        SAMPLE
    } kind;
    VarSel var; // START, STOP
    long long step = 0; // SAMPLE
    uint64_t b = 0, e = ~0ull; // it takes effect in between
};
struct Query
{
    int kind; // 0 samples, 1 step numbers by duration, 2 by range, 3 synchronised
    VarSel a, b;
    int sim;
    long long from;
    int n;
    int64_t t0, t1; // ns relative to the start
    uint64_t pause;
};
struct Result
{
    uint64_t b, e;
    bool threw = false;
    size_t n = 0;
    std::vector<scalar_value> v;
    std::vector<double> v2;
    std::vector<long long> steps;
    std::vector<int64_t> times;
};
struct State // what should be held for one slave
{
    std::map<std::pair<int, value_reference>, std::pair<VarSel, std::vector<long long>>> vars;
    std::vector<long long> times;
};
} // namespace

void dsim_run()
{
    GenOptions o;
    o.maxSims = 3;
    o.maxFuns = 1;
    o.minOut = 1;
    Spec sp = generate(o);
    static const size_t sizes[] = {1, 2, 3, 5, 8, 12, 10000};
    const size_t bufSize = sizes[draw(7)];
    std::vector<VarSel> all;
    for (size_t i = 0; i < sp.sims.size(); ++i)
        for (int dir = 0; dir < 2; ++dir) {
            const auto& vs = dir ? sp.sims[i].out : sp.sims[i].in;
            for (size_t k = 0; k < vs.size(); ++k)
                if (vs[k].type < 2) all.push_back({static_cast<int>(i), dir == 1, k, vs[k].type, vs[k].ref});
        }
    struct Ctl
    {
        bool start;
        VarSel v;
    };
    struct Batch
    {
        std::vector<Ctl> ctl;
        int kind, n;
    };
    const bool late = draw_bool(20);
    std::vector<Batch> batches(1 + draw(4));
    int total = 0;
    std::vector<VarSel> on;
    for (auto& b : batches) {
        const size_t nc = draw(5);
        for (size_t k = 0; k < nc; ++k) {
            const auto v = all[draw(all.size())];
            const bool start = draw_bool(75);
            b.ctl.push_back({start, v});
        }
        if (&b == &batches[0]) b.ctl.push_back({true, all[draw(all.size())]});
        b.kind = static_cast<int>(draw(3));
        b.n = static_cast<int>(1 + draw(8));
        total += b.n;
        for (const auto& c : b.ctl) on.push_back(c.v);
    }
    auto query = [&] {
        Query q{};
        q.kind = draw_bool(50) ? 0 : static_cast<int>(draw(4));
        q.a = draw_bool(85) ? on[draw(on.size())] : all[draw(all.size())];
        q.b = draw_bool(85) ? on[draw(on.size())] : all[draw(all.size())];
        if (q.kind == 3 && (q.a.type || q.b.type)) q.kind = 0;
        q.sim = static_cast<int>(draw(sp.sims.size()));
        q.from = draw_range(0, total + 2);
        if (draw_bool(40)) q.from = draw_range(0, 1);
        q.n = static_cast<int>(1 + draw(static_cast<uint64_t>(draw_bool(50) ? total + 3 : 4)));
        const int64_t base = sp.base.count();
        q.t0 = draw_range(-1, total + 1) * base + (draw_bool(30) ? base / 2 : 0);
        q.t1 = draw_range(-1, total + 1) * base + (draw_bool(30) ? base / 2 : 0);
        q.pause = draw_bool(50) ? 0 : 1 + draw(2000000);
        return q;
    };
    std::vector<std::vector<Query>> plans(draw(4));
    for (auto& p : plans) {
        const size_t n = 2 + draw(10);
        for (size_t k = 0; k < n; ++k) p.push_back(query());
    }
    std::vector<Query> mainPlan;
    for (size_t k = 0; k < 6; ++k) mainPlan.push_back(query());
    usual_faults();
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    start(cfg);
    // the values at each step of each slave
    std::vector<std::map<long long, std::pair<std::vector<scalar_value>, std::vector<scalar_value>>>> hist(sp.sims.size());
    RefModel ref(sp);
    {
        NoSim n;
        dsim::log("%s, buffer %zu, %zu readers, %d steps%s", describe(sp).c_str(), bufSize, plans.size(), total, late ? ", late" : "");
        ref.initialize();
        auto keep = [&](size_t i, long long c) { hist[i][c] = {ref.sims[i].in, ref.sims[i].out}; };
        for (size_t i = 0; i < sp.sims.size(); ++i) keep(i, 0);
        for (int c = 1; c <= total; ++c) {
            const auto fin = ref.step();
            for (size_t i = 0; i < sp.sims.size(); ++i)
                if (fin.count(static_cast<int>(i)))
                    keep(i, c);
                else
                    hist[i][c] = {ref.sims[i].in, ref.sims[i].out}; // seen by an observer that arrives in the middle of its step
        }
    }
    System sys(sp);
    auto tso = std::make_shared<cosim::time_series_observer>(bufSize);
    auto probe = std::make_shared<Probe>(sp, false);
    if (!late) sys.exec->add_observer(tso);
    sys.exec->add_observer(probe);
    sys.exec->add_manipulator(probe);
    sys.build_all();
    auto& ex = *sys.exec;
    std::vector<std::vector<Ev>> evs(sp.sims.size());
    auto value = [&](const VarSel& v, long long step) -> const scalar_value& {
        const auto& h = hist[static_cast<size_t>(v.sim)].at(step);
        return v.out ? h.second[v.idx] : h.first[v.idx];
    };
    // Completes the windows of the events from the commencements seen so far
    size_t commences = 0;
    std::vector<uint64_t> at;
    auto refresh = [&] {
        at.clear();
        for (const auto& e : probe->ev)
            if (e.kind == Event::COMMENCE) at.push_back(e.at);
        commences = at.size();
        for (auto& l : evs)
            for (auto& e : l)
                if (e.kind == Ev::SAMPLE && e.step >= 1) {
                    const auto k = static_cast<size_t>(e.step);
                    if (k <= commences) e.b = at[k - 1];
                    if (k < commences) e.e = std::min(e.e, at[k]);
                } else if (e.kind == Ev::SAMPLE && commences)
                    e.e = std::min(e.e, at[0]);
    };
    auto state_after = [&](size_t i, size_t n) {
        State s;
        if (!late) s.times.push_back(0);
        auto trim = [&](std::vector<long long>& v) {
            if (v.size() > bufSize) v.erase(v.begin(), v.begin() + static_cast<long>(v.size() - bufSize));
        };
        for (size_t k = 0; k < n; ++k) {
            const auto& e = evs[i][k];
            const auto key = std::make_pair(e.var.type, e.var.ref);
            if (e.kind == Ev::START)
                s.vars[key] = {e.var, {}};
            else if (e.kind == Ev::STOP)
                s.vars.erase(key);
            else {
                for (auto& v : s.vars) {
                    v.second.second.push_back(e.step);
                    trim(v.second.second);
                }
                if (s.times.empty() || s.times.back() != e.step) s.times.push_back(e.step);
                trim(s.times);
            }
        }
        return s;
    };
    auto ask = [&](const Query& q) {
        Result r{};
        const size_t n = static_cast<size_t>(q.n);
        std::vector<double> d(n, 1e300), d2(n, 1e300);
        std::vector<int> iv(n, -7777777);
        std::vector<cosim::step_number> st(n, -1), two(2, -1);
        std::vector<time_point> tm(n);
        {
            NoSim ns;
            r.b = seq();
        }
        try {
            switch (q.kind) {
                case 0:
                    r.n = q.a.type == 0 ? tso->get_real_samples(q.a.sim, q.a.ref, q.from, gsl::span<double>(d), gsl::span<cosim::step_number>(st), gsl::span<time_point>(tm))
                                        : tso->get_integer_samples(q.a.sim, q.a.ref, q.from, gsl::span<int>(iv), gsl::span<cosim::step_number>(st), gsl::span<time_point>(tm));
                    break;
                case 1: tso->get_step_numbers(q.sim, duration(std::max<int64_t>(0, q.t0)), gsl::span<cosim::step_number>(two)); break;
                case 2: tso->get_step_numbers(q.sim, sp.start + duration(q.t0), sp.start + duration(q.t1), gsl::span<cosim::step_number>(two)); break;
                case 3: r.n = tso->get_synchronized_real_series(q.a.sim, q.a.ref, q.b.sim, q.b.ref, q.from, gsl::span<double>(d), gsl::span<double>(d2)); break;
            }
        } catch (const std::out_of_range&) {
            r.threw = true;
        }
        NoSim ns;
        r.e = seq();
        if (r.n > n) fail("too-many", "%zu samples returned where there was room for %zu", r.n, n);
        for (size_t k = 0; k < r.n; ++k) {
            if (q.a.type == 0)
                r.v.push_back(d[k]);
            else
                r.v.push_back(iv[k]);
            r.v2.push_back(d2[k]);
            r.steps.push_back(st[k]);
            r.times.push_back(tm[k].time_since_epoch().count());
        }
        if (q.kind == 1 || q.kind == 2) r.steps.assign(two.begin(), two.end());
        return r;
    };
    auto held = [&](const State& s, const VarSel& v) -> const std::vector<long long>* {
        const auto it = s.vars.find({v.type, v.ref});
        return it == s.vars.end() ? nullptr : &it->second.second;
    };
    auto check = [&](const Query& q, const Result& r) {
        NoSim n;
        refresh();
        auto range = [&](int i) {
            const auto& l = evs[static_cast<size_t>(i)];
            std::pair<size_t, size_t> x{0, 0};
            for (size_t k = 0; k < l.size(); ++k) {
                if (l[k].e < r.b) x.first = k + 1;
                if (l[k].b < r.e && x.second == k) x.second = k + 1;
            }
            if (x.second < x.first) x.second = x.first;
            return x;
        };
        const int sim = q.kind == 1 || q.kind == 2 ? q.sim : q.a.sim;
        const auto ra = range(sim);
        std::string want;
        char b[200];
        auto list = [](const std::vector<long long>& v) {
            std::string s;
            for (auto x : v) s += std::to_string(x) + " ";
            return s;
        };
        if (q.kind == 0) {
            for (size_t m = ra.first; m <= ra.second; ++m) {
                const State s = state_after(static_cast<size_t>(sim), m);
                const auto* h = held(s, q.a);
                std::vector<long long> e;
                if (h)
                    for (auto x : *h)
                        if (x >= q.from && x < q.from + q.n) e.push_back(x);
                if (r.threw) {
                    if (!h || h->empty()) return;
                } else if (e == r.steps) {
                    for (size_t k = 0; k < e.size(); ++k) {
                        if (r.times[k] != (sp.start + sp.base * e[k]).time_since_epoch().count()) fail("wrong-time", "slave %d: time of step %lld is %lld ns", sim, e[k], static_cast<long long>(r.times[k]));
                        if (r.v[k] != value(q.a, e[k])) fail("wrong-sample", "slave %d (step factor %d), %s variable %u: sample of step %lld is %s instead of %s", sim, sp.sims[static_cast<size_t>(sim)].df, q.a.out ? "output" : "input", q.a.ref, e[k], show(r.v[k]).c_str(), show(value(q.a, e[k])).c_str());
                    }
                    count("series checked");
                    if (e.size() == bufSize) count("full buffers");
                    return;
                }
                want += "{" + list(e) + "}";
            }
            snprintf(b, sizeof b, "buffer %zu, from %lld, room for %d: ", bufSize, q.from, q.n);
            fail("wrong-series", "slave %d (step factor %d), variable %u: %ssteps %s%s instead of %s", sim, sp.sims[static_cast<size_t>(sim)].df, q.a.ref, b, list(r.steps).c_str(), r.threw ? "(exception)" : "", want.c_str());
        }
        if (q.kind == 1 || q.kind == 2) {
            for (size_t m = ra.first; m <= ra.second; ++m) {
                const State s = state_after(static_cast<size_t>(sim), m);
                if (s.times.empty()) continue;
                const int64_t base = sp.base.count();
                const int64_t t0 = q.kind == 1 ? s.times.back() * base - std::max<int64_t>(0, q.t0) : q.t0;
                long long first = s.times.front(), last = s.times.back();
                for (auto x : s.times)
                    if (x * base <= t0) first = x;
                if (q.kind == 2)
                    for (size_t k = s.times.size(); k-- > 0;)
                        if (s.times[k] * base >= q.t1) last = s.times[k];
                if (!r.threw && r.steps[0] == first && r.steps[1] == last) {
                    count("step-number queries checked");
                    return;
                }
                want += "{" + std::to_string(first) + " " + std::to_string(last) + "}";
            }
            fail("wrong-step-numbers", "slave %d (step factor %d), buffer %zu, range %lld..%lld ns (kind %d): %s instead of %s", sim, sp.sims[static_cast<size_t>(sim)].df, bufSize, static_cast<long long>(q.t0), static_cast<long long>(q.t1), q.kind, r.threw ? "exception" : list(r.steps).c_str(), want.c_str());
        }
        if (q.kind == 3) {
            const auto rb = range(q.b.sim);
            for (size_t m = ra.first; m <= ra.second; ++m)
                for (size_t k = rb.first; k <= rb.second; ++k) {
                    const State sa = state_after(static_cast<size_t>(q.a.sim), m), sb = state_after(static_cast<size_t>(q.b.sim), k);
                    const auto *ha = held(sa, q.a), *hb = held(sb, q.b);
                    if (!ha || !hb || ha->empty() || hb->empty()) {
                        if (r.threw) return;
                        continue;
                    }
                    if (r.threw) continue;
                    std::vector<long long> e;
                    for (auto x : *ha)
                        if (x >= q.from && x < q.from + q.n && std::find(hb->begin(), hb->end(), x) != hb->end()) e.push_back(x);
                    bool same = e.size() == r.n;
                    for (size_t j = 0; same && j < e.size(); ++j) same = r.v[j] == value(q.a, e[j]) && scalar_value(r.v2[j]) == value(q.b, e[j]);
                    if (same) {
                        count("synchronised series checked");
                        return;
                    }
                    want += "{" + list(e) + "}";
                }
            fail("wrong-synchronised", "slaves %d and %d, from %lld, room for %d: %zu pairs%s instead of those of steps %s", q.a.sim, q.b.sim, q.from, q.n, r.n, r.threw ? " (exception)" : "", want.c_str());
        }
    };
    nontrivial();
    std::vector<std::thread> th;
    auto readers = [&] {
        for (size_t k = 0; k < plans.size(); ++k)
            th.emplace_back([&, k] {
                name_thread("reader");
                for (;;) {
                    bool go;
                    {
                        NoSim n;
                        refresh();
                        go = commences > 0;
                    }
                    if (go) break;
                    std::this_thread::sleep_for(std::chrono::microseconds(1));
                }
                for (const auto& q : plans[k]) {
                    check(q, ask(q));
                    count("concurrent queries");
                    if (q.pause) std::this_thread::sleep_for(std::chrono::nanoseconds(q.pause));
                }
            });
    };
    if (!late) readers();
    int64_t c = 0;
    auto steps = [&](int64_t n) { // announces the samples of the next n steps
        NoSim ns;
        const uint64_t b = seq();
        for (size_t i = 0; i < sp.sims.size(); ++i) {
            if (c == 0) {
                Ev e{Ev::SAMPLE, {}, 0, b, ~0ull};
                evs[i].push_back(e);
            }
            for (int64_t k = c + 1; k <= c + n; ++k)
                if (k % sp.sims[i].df == 0) {
                    Ev e{Ev::SAMPLE, {}, k, ~0ull, ~0ull}; // begins when the step commences
                    evs[i].push_back(e);
                }
        }
    };
    auto over = [&] {
        NoSim ns;
        refresh();
        const uint64_t e = seq();
        for (auto& l : evs)
            for (auto& x : l) x.e = std::min(x.e, e);
    };
    for (size_t bi = 0; bi < batches.size(); ++bi) {
        const auto& b = batches[bi];
        const bool have = !late || bi > 0;
        if (have)
            for (const auto& x : b.ctl) {
                size_t p;
                auto& l = evs[static_cast<size_t>(x.v.sim)];
                {
                    NoSim n;
                    Ev e{x.start ? Ev::START : Ev::STOP, x.v, 0, seq(), ~0ull};
                    p = l.size();
                    l.push_back(e);
                }
                const cosim::variable_id id{x.v.sim, static_cast<variable_type>(x.v.type), x.v.ref};
                if (x.start)
                    tso->start_observing(id);
                else
                    tso->stop_observing(id);
                NoSim n;
                l[p].e = seq();
            }
        if (b.kind == 0) {
            for (int k = 0; k < b.n; ++k) {
                if (have) steps(1);
                ex.step();
                over();
                ++c;
            }
        } else {
            if (have) steps(b.n);
            const auto target = ex.current_time() + sp.base * b.n;
            if (b.kind == 1)
                ex.simulate_until(target);
            else
                ex.simulate_until_async(target).get();
            over();
            c += b.n;
        }
        if (have)
            for (const auto& q : mainPlan) check(q, ask(q));
        if (late && bi == 0) {
            // the observer is added to a running simulation
            {
                NoSim n;
                for (size_t i = 0; i < sp.sims.size(); ++i) evs[i].push_back({Ev::SAMPLE, {}, c, seq(), ~0ull});
            }
            ex.add_observer(tso);
            over();
            readers();
            count("late observers");
        }
    }
    for (auto& t : th) t.join();
    check_slave_histories(sys.slaves, ref, sp);
    fold(static_cast<uint64_t>(c) * 31 + bufSize);
}
