// C07 and C08: a nondeterministic model of pacing and its metrics. The exact moments at which the timer
// reads the clock and the settings are not observable, so the model keeps every candidate state that is
// consistent with what was seen; a violation is a state in which none is left.
#include "common.hpp"

#include <cmath>
#include <thread>

using namespace hx;

void dsim_setup() { quiet(); }

namespace
{
struct Cfg
{
    bool rt = false;
    double f = 1.0;
    int steps = 5;
    int64_t period = -1; // ms
    bool operator==(const Cfg& o) const { return rt == o.rt && f == o.f && steps == o.steps && period == o.period; }
};
template<typename T>
struct Field
{
    struct W
    {
        T v;
        uint64_t b, e;
    };
    std::vector<W> h; // writes in order
    std::vector<T> possible(uint64_t p1, uint64_t p2) const
    {
        std::vector<T> r;
        for (size_t i = 0; i < h.size(); ++i) {
            if (h[i].b > p2) break;
            if (h[i].e < p1) r.clear();
            bool dup = false;
            for (const auto& x : r) dup = dup || x == h[i].v;
            if (!dup) r.push_back(h[i].v);
        }
        return r;
    }
};
struct Cand
{
    Cfg c;
    int64_t s0 = 0; // simulated time at the start of measurement
    uint64_t lo = 0, hi = 0; // real time of it
    int64_t ws = 0; // the same for the current window
    uint64_t wlo = 0, whi = 0;
    int n = 0;
    bool operator==(const Cand& o) const { return c == o.c && s0 == o.s0 && lo == o.lo && hi == o.hi && ws == o.ws && wlo == o.wlo && whi == o.whi && n == o.n; }
};
struct Change
{
    uint64_t delay;
    int field;
    int64_t v;
};
struct Mark
{
    uint64_t seq, t, idle, injected, until;
};
Mark mark()
{
    return {dsim::seq(), dsim::now(), dsim::idle_time(), dsim::injected_delay(), dsim::injected_until()};
}
struct World
{
    Field<bool> rt;
    Field<double> f;
    Field<int> steps;
    Field<int64_t> period;
    std::shared_ptr<cosim::real_time_config> cfg;
    std::shared_ptr<const cosim::real_time_metrics> met;
    std::vector<Cand> cands;
    bool inRun = false, inPhase = false, first = false;
    Mark begin{};
    int64_t simNow = 0, start = 0;
    double lastTotal = 1.0, lastRolling = 1.0;
    std::vector<std::pair<double, double>> published;
    struct Read
    {
        uint64_t b, e;
        double total, rolling;
    };
    std::vector<Read> reads;
    std::vector<std::pair<uint64_t, double>> totals, rollings; // (seq seen at, value)
    double waitedMax = 0;
};
World* w;

const double factors[] = {1.0, 0.5, 2.0, 10.0, 1000.0, 0.01, 0.0, -1.0, 3.7};
const int stepCounts[] = {5, 1, 2, 3, 0, -2, 7};
const int64_t periods[] = {-1, 1, 5, 20, 100, 0, 1000};

void change(int field, int64_t v)
{
    uint64_t b;
    {
        NoSim n;
        b = seq();
        dsim::log("setting %d := %lld", field, static_cast<long long>(v));
    }
    switch (field) {
        case 0: w->cfg->real_time_simulation = v != 0; break;
        case 1: w->cfg->real_time_factor_target = factors[v % 9]; break;
        case 2: w->cfg->steps_to_monitor = stepCounts[v % 7]; break;
        case 3: w->cfg->sampling_period_to_monitor = std::chrono::milliseconds(periods[v % 7]); break;
    }
    NoSim n;
    const uint64_t e = seq();
    switch (field) {
        case 0: w->rt.h.push_back({v != 0, b, e}); break;
        case 1: w->f.h.push_back({factors[v % 9], b, e}); break;
        case 2: w->steps.h.push_back({stepCounts[v % 7], b, e}); break;
        case 3: w->period.h.push_back({periods[v % 7], b, e}); break;
    }
}
std::vector<Cfg> configs(uint64_t p1, uint64_t p2)
{
    std::vector<Cfg> r;
    for (bool a : w->rt.possible(p1, p2))
        for (double b : w->f.possible(p1, p2))
            for (int c : w->steps.possible(p1, p2))
                for (int64_t d : w->period.possible(p1, p2)) r.push_back({a, b, c, d});
    return r;
}
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
bool within(double v, double lo, double hi) { return v >= lo - std::fabs(lo) * 1e-9 && v <= hi + std::fabs(hi) * 1e-9; }

void add(std::vector<Cand>& v, const Cand& c)
{
    for (const auto& x : v)
        if (x == c) return;
    if (v.size() < 4000) v.push_back(c);
}

void end_start_phase()
{
    // pacing and measurement begin somewhere between the request and the first step
    const Mark m = mark();
    w->cands.clear();
    for (const auto& c : configs(w->begin.seq, m.seq)) {
        Cand x;
        x.c = c;
        x.s0 = x.ws = w->simNow;
        x.lo = x.wlo = w->begin.t;
        x.hi = x.whi = m.t;
        add(w->cands, x);
    }
}

// The timer did its work between `w->begin` and now.
void end_phase(bool stepFollows)
{
    const Mark m = mark();
    const int64_t S = w->simNow;
    const double total = w->met->total_average_real_time_factor.load(), rolling = w->met->rolling_average_real_time_factor.load();
    const uint64_t idle = m.idle - w->begin.idle, injected = m.injected - w->begin.injected + (w->begin.until > w->begin.t ? w->begin.until - w->begin.t : 0);
    const uint64_t wait = idle > injected ? idle - injected : 0; // what the timer has waited of its own accord, at least
    const uint64_t busy = m.t - w->begin.t - idle;
    // when the timer read the clock at last
    const uint64_t rlo = std::max<int64_t>(static_cast<int64_t>(w->begin.t), static_cast<int64_t>(m.t - busy) - static_cast<int64_t>(std::min(injected, m.t)));
    const uint64_t rhi = m.t;
    std::vector<Cand> next;
    char why[600] = "";
    bool pacing = false;
    for (const auto& cfg : configs(w->begin.seq, m.seq))
        for (const auto& c0 : w->cands) {
            Cand c = c0;
            if (!(cfg == c.c)) {
                // settings have changed: pacing and measurement start anew
                if (CHECK_PACING && wait > 100000) {
                    snprintf(why, sizeof why, "after a change of the settings the timer waited for %.6f ms", wait * 1e-6);
                    pacing = true;
                    continue;
                }
                if (CHECK_METRICS && !(same(total, w->lastTotal) || total == 0.0)) {
                    snprintf(why, sizeof why, "after a change of the settings the total average became %.9g", total);
                    continue;
                }
                if (CHECK_METRICS && !(same(rolling, w->lastRolling) || rolling == 0.0)) {
                    snprintf(why, sizeof why, "after a change of the settings the rolling average became %.9g", rolling);
                    continue;
                }
                c.c = cfg;
                c.s0 = c.ws = S;
                c.lo = c.wlo = w->begin.t;
                c.hi = c.whi = m.t;
                c.n = 0;
                add(next, c);
                continue;
            }
            const bool on = cfg.rt && cfg.f > 0;
            if (CHECK_PACING) {
                const double dueLo = static_cast<double>(c.lo) + static_cast<double>(S - c.s0) / (on ? cfg.f : 1);
                const double dueHi = static_cast<double>(c.hi) + static_cast<double>(S - c.s0) / (on ? cfg.f : 1);
                if (on && stepFollows && static_cast<double>(m.t) < dueLo - 100010) {
                    snprintf(why, sizeof why, "a step began %.6f ms before it was due (factor %g, %.3f ms simulated since the start of pacing)", (dueLo - static_cast<double>(m.t)) * 1e-6, cfg.f, static_cast<double>(S - c.s0) * 1e-6);
                    pacing = true;
                    continue;
                }
                const double allowed = on ? std::max(0.0, dueHi - static_cast<double>(w->begin.t)) : 0.0;
                if (static_cast<double>(wait) > allowed + (on ? 100010 : 10)) {
                    snprintf(why, sizeof why, "the timer waited for %.6f ms where %.6f ms were needed (real time %s, factor %g)", wait * 1e-6, allowed * 1e-6, cfg.rt ? "on" : "off", cfg.f);
                    pacing = true;
                    continue;
                }
            }
            ++c.n;
            if (CHECK_METRICS) {
                const double num = static_cast<double>(S - c.s0);
                const double lo = num / static_cast<double>(rhi - c.lo), hi = num / std::max(1.0, static_cast<double>(rlo) - static_cast<double>(c.hi));
                if (!within(total, lo, hi)) {
                    snprintf(why, sizeof why, "total average %.9g, but %.6f ms were simulated in between %.6f and %.6f ms", total, num * 1e-6, static_cast<double>(rhi - c.lo) * 1e-6, (static_cast<double>(rlo) - static_cast<double>(c.hi)) * 1e-6);
                    continue;
                }
                // the rolling average
                const double wnum = static_cast<double>(S - c.ws);
                const double welHi = static_cast<double>(rhi - c.wlo), welLo = std::max(1.0, static_cast<double>(rlo) - static_cast<double>(c.whi));
                bool must, may;
                if (cfg.period > 0) {
                    must = welLo > static_cast<double>(cfg.period) * 1e6;
                    may = welHi > static_cast<double>(cfg.period) * 1e6;
                } else
                    must = may = c.n >= cfg.steps;
                const bool fits = within(rolling, wnum / welHi, wnum / welLo);
                bool kept = false;
                if (!must && same(rolling, w->lastRolling)) {
                    add(next, c);
                    kept = true;
                }
                if (may && fits) {
                    Cand d = c;
                    d.ws = S;
                    d.wlo = rlo;
                    d.whi = rhi;
                    d.n = 0;
                    add(next, d);
                    kept = true;
                }
                if (!kept)
                    snprintf(why, sizeof why, "rolling average %.9g (before: %.9g) %d steps into the window (%d configured, period %lld ms), %.6f ms simulated in %.6f to %.6f ms", rolling, w->lastRolling, c.n, cfg.steps, static_cast<long long>(cfg.period), wnum * 1e-6, welLo * 1e-6, welHi * 1e-6);
            } else
                add(next, c);
        }
    if (next.empty()) fail(CHECK_PACING ? "pacing" : "metrics", "at simulated time %.6f ms: %s", static_cast<double>(S - w->start) * 1e-6, why);
    (void)pacing;
    w->cands = std::move(next);
    if (!same(total, w->lastTotal)) count("total averages published");
    if (!same(rolling, w->lastRolling)) count("rolling averages published");
    w->totals.push_back({m.seq, total});
    w->rollings.push_back({m.seq, rolling});
    w->lastTotal = total;
    w->lastRolling = rolling;
    if (wait > 100000) count("waits");
    note_max("candidates", w->cands.size());
}

class Obs : public Probe
{
public:
    using Probe::Probe;
    void step_commencing(time_point) override
    {
        NoSim n;
        if (!w->inRun) return;
        if (w->first)
            end_start_phase();
        else
            end_phase(true);
        w->first = false;
    }
    void step_complete(cosim::step_number, duration, time_point t) override
    {
        NoSim n;
        w->simNow = t.time_since_epoch().count();
        w->begin = mark();
        count("paced steps");
    }
};
} // namespace

void dsim_run()
{
    World world;
    w = &world;
    Spec sp;
    static const int64_t bases[] = {10000000, 1000000, 100000000, 50000, 1000000000, 3333333};
    sp.base = duration(bases[draw(6)]);
    sp.start = time_point(duration(draw_bool(30) ? draw_range(0, 50) * 1000000000 : 0));
    sp.workers = 0u;
    SimSpec m;
    m.name = "slave0";
    m.h0 = 5;
    if (draw_bool(60)) m.stepCost = 1 + draw(static_cast<uint64_t>(sp.base.count()) * (draw_bool(20) ? 3 : 1));
    sp.sims.push_back(m);
    const bool pre = draw_bool(70);
    std::vector<Change> before;
    if (pre) {
        before.push_back({0, 0, draw_bool(80) ? 1 : 0});
        if (draw_bool(60)) before.push_back({0, 1, static_cast<int64_t>(draw(9))});
        if (draw_bool(50)) before.push_back({0, 2, static_cast<int64_t>(draw(7))});
        if (draw_bool(30)) before.push_back({0, 3, static_cast<int64_t>(draw(7))});
    }
    struct Round
    {
        int kind, n;
        uint64_t pause;
        uint64_t stopAfter;
    };
    std::vector<Round> rounds(1 + draw(3));
    for (auto& r : rounds) r = {static_cast<int>(draw(3)), static_cast<int>(1 + draw(14)), draw_bool(50) ? draw(50000000) : 0, draw_bool(20) ? 1 + draw(static_cast<uint64_t>(sp.base.count()) * 6) : 0};
    std::vector<Change> changes(draw_bool(60) ? 1 + draw(8) : 0);
    for (auto& c : changes) {
        c.delay = draw_bool(25) ? 0 : draw(static_cast<uint64_t>(sp.base.count()) * 4);
        c.field = static_cast<int>(draw(4));
        c.v = static_cast<int64_t>(c.field == 0 ? draw(2) : draw(7));
    }
    const int nReaders = CHECK_METRICS ? static_cast<int>(draw(3)) : 0;
    if (draw_bool(40)) enable_fault(F_LATE_SLEEP, 150000);
    if (draw_bool(30)) enable_fault(F_EINTR, 150000);
    if (draw_bool(30)) enable_fault(F_WALL_JUMP, 30000);
    if (draw_bool(30)) enable_fault(F_STALL, 3000);
    if (draw_bool(20)) enable_fault(F_SLOW, 100000);
    sched_config cfg;
    start(cfg);
    {
        NoSim n;
        dsim::log("base %lld ns, step cost %llu ns, %zu settings before, %zu changes, %zu rounds", static_cast<long long>(sp.base.count()), static_cast<unsigned long long>(m.stepCost), before.size(), changes.size(), rounds.size());
    }
    System sys(sp);
    sys.build_all();
    auto obs = std::make_shared<Obs>(sp, false);
    sys.exec->add_observer(obs);
    sys.exec->add_manipulator(obs);
    auto& ex = *sys.exec;
    w->cfg = ex.get_real_time_config();
    w->met = ex.get_real_time_metrics();
    w->rt.h.push_back({false, 0, 0});
    w->f.h.push_back({1.0, 0, 0});
    w->steps.h.push_back({5, 0, 0});
    w->period.h.push_back({-1, 0, 0});
    w->simNow = w->start = sp.start.time_since_epoch().count();
    for (const auto& c : before) change(c.field, c.v);
    nontrivial();
    std::vector<std::thread> th;
    bool done = false;
    if (!changes.empty())
        th.emplace_back([&] {
            name_thread("settings");
            for (const auto& c : changes) {
                if (c.delay) std::this_thread::sleep_for(std::chrono::nanoseconds(c.delay));
                change(c.field, c.v);
                count("changes");
            }
        });
    for (int i = 0; i < nReaders; ++i)
        th.emplace_back([&] {
            name_thread("reader");
            for (int k = 0; k < 20; ++k) {
                World::Read r{};
                {
                    NoSim n;
                    r.b = seq();
                    if (done) break;
                }
                r.total = w->met->total_average_real_time_factor;
                r.rolling = w->met->rolling_average_real_time_factor;
                {
                    NoSim n;
                    r.e = seq();
                    w->reads.push_back(r);
                }
                std::this_thread::sleep_for(std::chrono::nanoseconds(sp.base.count() / 2 + 1));
            }
        });
    for (const auto& r : rounds) {
        const auto target = ex.current_time() + sp.base * r.n;
        std::thread stopper;
        {
            NoSim n;
            w->begin = mark();
            w->inRun = w->first = true;
        }
        if (r.kind == 2) {
            auto f = ex.simulate_until_async(target);
            if (r.stopAfter)
                stopper = std::thread([&] {
                    name_thread("stopper");
                    std::this_thread::sleep_for(std::chrono::nanoseconds(r.stopAfter));
                    ex.stop_simulation();
                });
            f.get();
        } else
            ex.simulate_until(target);
        {
            NoSim n;
            end_phase(false);
            w->inRun = false;
            dsim::log("run returned");
        }
        if (stopper.joinable()) stopper.join();
        if (r.pause) std::this_thread::sleep_for(std::chrono::nanoseconds(r.pause));
        if (r.kind == 1 && CHECK_PACING) ex.step(); // single steps are not paced
    }
    {
        NoSim n;
        done = true;
    }
    for (auto& t : th) t.join();
    if (CHECK_METRICS) {
        NoSim n;
        auto valid = [&](const std::vector<std::pair<uint64_t, double>>& p, uint64_t b, uint64_t e, double v) {
            // the value in force at the beginning of the read, or one published meanwhile
            double cur = 1.0;
            size_t i = 0;
            for (; i < p.size() && p[i].first < b; ++i) cur = p[i].second;
            if (same(cur, v)) return true;
            for (; i < p.size(); ++i) {
                if (same(p[i].second, v)) return true;
                if (p[i].first > e) break; // it may have been seen between its publication and our notice
            }
            return false;
        };
        for (const auto& r : w->reads) {
            if (!valid(w->totals, r.b, r.e, r.total)) fail("reader", "a reader saw the total average %.9g, which was not valid at any completed step", r.total);
            if (!valid(w->rollings, r.b, r.e, r.rolling)) fail("reader", "a reader saw the rolling average %.9g, which was not valid at any completed step", r.rolling);
        }
        count("reads", w->reads.size());
    }
    fold(w->totals.size());
}
