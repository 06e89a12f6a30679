// C09: reads of last values are consistent snapshots of completed steps.
#include "cosim/observer/last_value_observer.hpp"

#include "common.hpp"

#include <thread>

using namespace hx;
namespace dsim
{
const char* property_id = "C09";
}
void dsim_setup() { quiet(); }

namespace
{
struct VarRef
{
    bool out;
    size_t idx;
};
struct ReadPlan
{
    int sim, type;
    std::vector<VarRef> vars;
    uint64_t pause; // ns; 0: none
};
struct Version // what there is to see after a completed step of the slave
{
    std::vector<scalar_value> in, out;
};
struct Record
{
    uint64_t b, e;
    std::vector<scalar_value> got;
};
} // namespace

void dsim_run()
{
    GenOptions o;
    o.maxSims = 3;
    o.maxFuns = 1;
    o.maxVars = 3;
    o.minOut = 2;
    Spec sp = generate(o);
    struct Batch
    {
        int kind, n;
        bool readAfter;
    };
    std::vector<Batch> batches(1 + draw(3));
    int total = 0;
    for (auto& b : batches) {
        b = {static_cast<int>(draw(3)), static_cast<int>(1 + draw(6)), draw_bool(50)};
        total += b.n;
    }
    auto plan = [&] {
        ReadPlan r;
        r.sim = static_cast<int>(draw(sp.sims.size()));
        r.type = draw_bool(55) ? 0 : static_cast<int>(draw(4));
        const auto& m = sp.sims[static_cast<size_t>(r.sim)];
        std::vector<VarRef> c;
        for (size_t k = 0; k < m.out.size(); ++k)
            if (m.out[k].type == r.type) c.push_back({true, k});
        for (size_t k = 0; k < m.in.size(); ++k)
            if (m.in[k].type == r.type) c.push_back({false, k});
        if (!c.empty()) {
            const size_t n = 1 + draw(c.size() + 2);
            for (size_t k = 0; k < n; ++k) r.vars.push_back(c[draw(c.size())]);
        }
        r.pause = draw_bool(50) ? 0 : 1 + draw(2000000);
        return r;
    };
    std::vector<std::vector<ReadPlan>> plans(1 + draw(4));
    for (auto& p : plans) {
        const size_t n = 2 + draw(12);
        for (size_t k = 0; k < n; ++k) p.push_back(plan());
    }
    std::vector<ReadPlan> mainPlans;
    for (size_t k = 0; k < 4; ++k) mainPlans.push_back(plan());
    const bool late = draw_bool(20); // the observer joins a running simulation, when no slave is in the middle of a step
    if (late) {
        int l = 1;
        for (const auto& m : sp.sims) l = std::lcm(l, m.df);
        total += l - batches[0].n;
        batches[0].n = l;
    }
    usual_faults();
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    start(cfg);
    std::vector<std::vector<Version>> versions(sp.sims.size());
    RefModel ref(sp);
    {
        NoSim n;
        dsim::log("%s, %zu readers, %d steps", describe(sp).c_str(), plans.size(), total);
        ref.initialize();
        auto keep = [&](size_t i) { versions[i].push_back({ref.sims[i].in, ref.sims[i].out}); };
        for (size_t i = 0; i < sp.sims.size(); ++i) keep(i);
        // Decimated slaves publish when their own step is over
        for (int c = 1; c <= total; ++c)
            for (int i : ref.step()) keep(static_cast<size_t>(i));
    }
    System sys(sp);
    auto lvo = std::make_shared<cosim::last_value_observer>();
    auto probe = std::make_shared<Probe>(sp, false);
    if (!late) sys.exec->add_observer(lvo);
    sys.exec->add_observer(probe);
    sys.exec->add_manipulator(probe);
    sys.build_all();
    nontrivial();
    bool started = false;
    std::vector<std::pair<uint64_t, int64_t>> returned;
    auto read = [&](const ReadPlan& p) {
        Record r;
        std::vector<value_reference> refs;
        {
            NoSim n;
            const auto& m = sp.sims[static_cast<size_t>(p.sim)];
            for (const auto& v : p.vars) refs.push_back(v.out ? m.out[v.idx].ref : m.in[v.idx].ref);
            r.b = seq();
        }
        const gsl::span<const value_reference> rs(refs);
        const size_t n = refs.size();
        switch (p.type) {
            case 0: {
                std::vector<double> v(n, 1e300);
                lvo->get_real(p.sim, rs, gsl::span<double>(v));
                NoSim ns;
                for (auto x : v) r.got.push_back(x);
                break;
            }
            case 1: {
                std::vector<int> v(n, -7777777);
                lvo->get_integer(p.sim, rs, gsl::span<int>(v));
                NoSim ns;
                for (auto x : v) r.got.push_back(x);
                break;
            }
            case 2: {
                auto v = std::make_unique<bool[]>(n);
                lvo->get_boolean(p.sim, rs, gsl::span<bool>(v.get(), n));
                NoSim ns;
                for (size_t k = 0; k < n; ++k) r.got.push_back(v[k]);
                break;
            }
            default: {
                std::vector<std::string> v(n, "?");
                lvo->get_string(p.sim, rs, gsl::span<std::string>(v));
                NoSim ns;
                for (auto& x : v) r.got.push_back(x);
            }
        }
        NoSim ns;
        r.e = seq();
        return r;
    };
    // Checks one read; `seen` is the reader's latest version of each slave
    auto check = [&](const ReadPlan& p, const Record& r, std::vector<size_t>& seen) {
        NoSim n;
        const size_t i = static_cast<size_t>(p.sim);
        const int df = sp.sims[i].df;
        std::vector<uint64_t> commence;
        for (const auto& e : probe->ev)
            if (e.kind == Event::COMMENCE) commence.push_back(e.at);
        int64_t atLeast = 0; // base steps fully announced before the read
        for (size_t k = 0; k < commence.size(); ++k)
            if (commence[k] < r.b) atLeast = static_cast<int64_t>(k);
        for (const auto& x : returned)
            if (x.first < r.b && x.second > atLeast) atLeast = x.second;
        size_t lo = static_cast<size_t>(atLeast / df);
        size_t hi = 0;
        for (size_t v = 1; v < versions[i].size(); ++v) {
            const size_t c = v * static_cast<size_t>(df) - 1; // commencement of its last base step
            if (c < commence.size() && commence[c] < r.e && v <= sys.slaves[i]->steps.size() && sys.slaves[i]->steps[v - 1].end && sys.slaves[i]->steps[v - 1].end < r.e) hi = v;
        }
        auto matches = [&](size_t v) {
            for (size_t k = 0; k < p.vars.size(); ++k) {
                const auto& x = p.vars[k].out ? versions[i][v].out[p.vars[k].idx] : versions[i][v].in[p.vars[k].idx];
                if (x != r.got[k]) return false;
            }
            return true;
        };
        for (size_t v = std::max(lo, seen[i]); v <= hi; ++v)
            if (matches(v)) {
                seen[i] = v;
                count("reads checked");
                if (hi > lo) count("reads with a choice");
                return;
            }
        const char* cls = "mixed-read";
        char why[100] = "values of no single completed step";
        for (size_t v = 0; v < versions[i].size(); ++v)
            if (!p.vars.empty() && matches(v)) {
                cls = v > hi ? "future-read" : v < lo ? "stale-read" : "read-went-back";
                snprintf(why, sizeof why, "the values of its step %zu", v);
            }
        std::string g;
        for (const auto& x : r.got) g += show(x) + " ";
        fail(cls, "reading %zu variables of slave %d (step factor %d) gave %s: %s; the step had to be %zu to %zu, and the reader had seen %zu", p.vars.size(), p.sim, df, why, g.c_str(), lo, hi, seen[i]);
    };
    std::vector<std::thread> th;
    auto readers = [&] {
        for (size_t q = 0; q < plans.size(); ++q)
            th.emplace_back([&, q] {
                name_thread("reader");
                std::vector<size_t> seen(sp.sims.size(), 0);
                for (;;) {
                    {
                        NoSim n;
                        if (!started && !late)
                            for (const auto& e : probe->ev)
                                if (e.kind == Event::COMMENCE) started = true;
                        if (started) break;
                    }
                    std::this_thread::sleep_for(std::chrono::microseconds(1));
                }
                for (const auto& p : plans[q]) {
                    if (!p.vars.empty()) check(p, read(p), seen);
                    if (p.pause) std::this_thread::sleep_for(std::chrono::nanoseconds(p.pause));
                }
            });
    };
    if (!late) readers();
    auto& ex = *sys.exec;
    std::vector<size_t> seen(sp.sims.size(), 0);
    int64_t c = 0;
    for (const auto& b : batches) {
        bool readersNow = false;
        if (late && &b == &batches[0]) {
            for (int k = 0; k < b.n; ++k) ex.step();
            sys.exec->add_observer(lvo);
            NoSim n;
            c += b.n;
            returned.push_back({seq(), c});
            started = true;
            readersNow = true;
        } else if (b.kind == 0) {
            for (int k = 0; k < b.n; ++k) {
                ex.step();
                NoSim n;
                returned.push_back({seq(), ++c});
            }
        } else {
            const auto target = ex.current_time() + sp.base * b.n;
            if (b.kind == 1)
                ex.simulate_until(target);
            else
                ex.simulate_until_async(target).get();
            NoSim n;
            c += b.n;
            returned.push_back({seq(), c});
        }
        if (readersNow) readers();
        if (b.readAfter)
            for (const auto& p : mainPlans)
                if (!p.vars.empty()) check(p, read(p), seen);
    }
    for (auto& t : th) t.join();
    check_slave_histories(sys.slaves, ref, sp);
    fold(static_cast<uint64_t>(c));
}
