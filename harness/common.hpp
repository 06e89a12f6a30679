// Shared by the harnesses: generated co-simulation systems, mock slaves and functions with a
// protocol monitor, and a sequential reference model of the data exchange.
#ifndef HARNESS_COMMON_HPP
#define HARNESS_COMMON_HPP
#include "cosim/algorithm/fixed_step_algorithm.hpp"
#include "cosim/execution.hpp"
#include "cosim/function/function.hpp"
#include "cosim/manipulator/manipulator.hpp"
#include "cosim/observer/observer.hpp"
#include "cosim/slave.hpp"
#include "dsim.hpp"

#include <boost/log/core.hpp>

#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace hx
{
using namespace dsim;
using cosim::duration;
using cosim::scalar_value;
using cosim::time_point;
using cosim::value_reference;
using cosim::variable_type;

inline uint64_t mix(uint64_t h, uint64_t x)
{
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 30;
    h *= 0xbf58476d1ce4e5b9ull;
    h ^= h >> 27;
    h *= 0x94d049bb133111ebull;
    h ^= h >> 31;
    return h;
}
inline uint64_t hash_value(const scalar_value& v)
{
    switch (v.index()) {
        case 0: {
            uint64_t u;
            const double d = std::get<0>(v);
            std::memcpy(&u, &d, 8);
            return mix(1, u);
        }
        case 1: return mix(2, static_cast<uint64_t>(std::get<1>(v)));
        case 2: return mix(3, std::get<2>(v) ? 1 : 0);
        default: {
            uint64_t h = 4;
            for (char c : std::get<3>(v)) h = mix(h, static_cast<unsigned char>(c));
            return h;
        }
    }
}
inline scalar_value make_value(int type, uint64_t h)
{
    switch (type) {
        case 0: return static_cast<double>(static_cast<int64_t>(h % 2000003) - 1000000) * 0.125;
        case 1: return static_cast<int>(h % 200003) - 100000;
        case 2: return (h & 4) != 0;
        default: return "s" + std::to_string(h % 100000) + std::string(h % 23, 'x');
    }
}
inline scalar_value zero_value(int type)
{
    switch (type) {
        case 0: return 0.0;
        case 1: return 0;
        case 2: return false;
        default: return std::string();
    }
}
inline std::string show(const scalar_value& v)
{
    char b[64];
    switch (v.index()) {
        case 0: snprintf(b, sizeof b, "%.17g", std::get<0>(v)); return b;
        case 1: snprintf(b, sizeof b, "%d", std::get<1>(v)); return b;
        case 2: return std::get<2>(v) ? "true" : "false";
        default: return "\"" + std::get<3>(v) + "\"";
    }
}

struct Var
{
    int type; // 0 real, 1 integer, 2 boolean, 3 string
    value_reference ref;
    std::string name;
    bool hasStart = false; // inputs: start value in the model description
    scalar_value start;
    int io = 0; // functions: instance index
    int parameter = 0; // 1: declared as a (calculated) parameter
};

struct SimSpec
{
    std::string name;
    std::vector<Var> in, out;
    std::vector<std::vector<int>> ft; // per output: indices of the inputs that feed through
    uint64_t h0 = 1;
    duration hint{0};
    int df = 1;
    uint64_t stepCost = 0; // virtual ns per step
    int enums = 0; // variables of a type that is not supported: 1 an output, 2 an input, 3 a parameter, 4 a local variable
};
struct FunSpec
{
    std::vector<Var> in, out;
    uint64_t h0 = 1;
    int kind = 0; // 0 mock, 1 linear transformation, 2 sum, 3 vector sum
    double factor = 1, offset = 0;
    int count = 1, dim = 1;
};
struct Conn
{
    bool fromFun = false, toFun = false;
    int src = 0, srcVar = 0; // index into out
    int dst = 0, dstVar = 0; // index into in
};
struct InitVal
{
    int sim, var;
    scalar_value v;
};
struct Spec
{
    duration base{1000000};
    time_point start{};
    std::vector<SimSpec> sims;
    std::vector<FunSpec> funs;
    std::vector<Conn> conns;
    std::vector<InitVal> inits;
    std::optional<unsigned> workers;
    unsigned ncpu = 4;
};

struct GenOptions
{
    int minSims = 1, maxSims = 4, maxFuns = 2;
    int maxVars = 2; // per type and direction
    int maxDf = 4;
    bool slow = true;
    int minOut = 0; // real outputs
    int connPct = 75;
};

inline void add_vars(std::vector<Var>& v, bool input, int maxVars, int minReal, value_reference (&next)[4])
{
    for (int t = 0; t < 4; ++t) {
        int n = static_cast<int>(draw(static_cast<uint64_t>(maxVars + 1)));
        if (t == 0 && n < minReal) n = minReal;
        for (int k = 0; k < n; ++k) {
            Var x;
            x.type = t;
            x.ref = next[t]++;
            x.io = k;
            x.name = std::string(input ? "in" : "out") + "RIBS"[t] + std::to_string(k);
            if (input && draw_bool(50)) {
                x.hasStart = true;
                x.start = make_value(t, draw(1u << 30));
            } else {
                x.start = zero_value(t);
            }
            v.push_back(x);
        }
    }
}

inline Spec generate(const GenOptions& o)
{
    Spec s;
    static const int64_t bases[] = {1000000, 100000000, 1000000000, 333333, 1, 7};
    s.base = duration(bases[draw(6)]);
    s.start = time_point(duration(draw_bool(30) ? draw_range(0, 5) * 1000000000 : 0));
    const int n = static_cast<int>(draw_range(o.minSims, o.maxSims));
    const int nf = static_cast<int>(draw(static_cast<uint64_t>(o.maxFuns + 1)));
    for (int i = 0; i < n; ++i) {
        SimSpec m;
        m.name = "slave" + std::to_string(i);
        value_reference next[4] = {0, 0, 0, 0};
        add_vars(m.in, true, o.maxVars, 0, next);
        add_vars(m.out, false, o.maxVars, o.minOut, next);
        m.h0 = mix(77, static_cast<uint64_t>(i)) ^ draw(1000);
        if (draw_bool(60)) {
            m.df = static_cast<int>(draw_range(1, o.maxDf));
            m.hint = s.base * m.df;
            if (s.base.count() > 3 && draw_bool(20)) m.hint += s.base / 3; // not a multiple: rounded down
        } else if (draw_bool(30) && s.base.count() > 3) {
            m.hint = s.base / 2; // shorter than the base step
        }
        if (o.slow && draw_bool(40)) m.stepCost = 1 + draw(3000000);
        if (draw_bool(15)) m.enums = static_cast<int>(1 + draw(4));
        s.sims.push_back(std::move(m));
    }
    for (int i = 0; i < nf; ++i) {
        FunSpec f;
        value_reference next[4] = {0, 0, 0, 0};
        add_vars(f.in, true, o.maxVars, 1, next);
        add_vars(f.out, false, o.maxVars, 1, next);
        for (auto& x : f.in) x.start = zero_value(x.type), x.hasStart = false;
        f.h0 = mix(99, static_cast<uint64_t>(i)) ^ draw(1000);
        s.funs.push_back(std::move(f));
    }
    // ranks: value feed-through only runs from lower to higher rank, so that there are no algebraic loops
    std::vector<int> rank(static_cast<size_t>(n + nf));
    std::iota(rank.begin(), rank.end(), 0);
    for (size_t i = rank.size(); i > 1; --i) std::swap(rank[i - 1], rank[draw(i)]);
    std::vector<bool> hasFt(static_cast<size_t>(n));
    for (int i = 0; i < n; ++i) hasFt[static_cast<size_t>(i)] = draw_bool(60);
    struct Src
    {
        bool fun;
        int e, v;
    };
    std::vector<Src> srcs[4];
    for (int i = 0; i < n; ++i)
        for (size_t k = 0; k < s.sims[i].out.size(); ++k) srcs[s.sims[i].out[k].type].push_back({false, i, static_cast<int>(k)});
    for (int i = 0; i < nf; ++i)
        for (size_t k = 0; k < s.funs[i].out.size(); ++k) srcs[s.funs[i].out[k].type].push_back({true, i, static_cast<int>(k)});
    for (int i = 0; i < n; ++i) {
        auto& m = s.sims[static_cast<size_t>(i)];
        std::vector<int> forward;
        for (size_t k = 0; k < m.in.size(); ++k) {
            auto& c = srcs[m.in[k].type];
            bool fwd = true;
            if (!c.empty() && draw_bool(static_cast<unsigned>(o.connPct))) {
                const auto& x = c[draw(c.size())];
                Conn cn;
                cn.fromFun = x.fun;
                cn.src = x.e;
                cn.srcVar = x.v;
                cn.dst = i;
                cn.dstVar = static_cast<int>(k);
                s.conns.push_back(cn);
                fwd = rank[static_cast<size_t>(x.fun ? n + x.e : x.e)] < rank[static_cast<size_t>(i)];
            }
            if (fwd) forward.push_back(static_cast<int>(k));
        }
        m.ft.resize(m.out.size());
        if (hasFt[static_cast<size_t>(i)])
            for (auto& f : m.ft)
                for (int k : forward)
                    if (draw_bool(50)) f.push_back(k);
    }
    for (int i = 0; i < nf; ++i) {
        auto& f = s.funs[static_cast<size_t>(i)];
        for (size_t k = 0; k < f.in.size(); ++k) {
            std::vector<Src> c;
            for (const auto& x : srcs[f.in[k].type])
                if (!x.fun && (!hasFt[static_cast<size_t>(x.e)] || rank[static_cast<size_t>(x.e)] < rank[static_cast<size_t>(n + i)])) c.push_back(x);
            if (!c.empty() && draw_bool(static_cast<unsigned>(o.connPct))) {
                const auto& x = c[draw(c.size())];
                Conn cn;
                cn.toFun = true;
                cn.src = x.e;
                cn.srcVar = x.v;
                cn.dst = i;
                cn.dstVar = static_cast<int>(k);
                s.conns.push_back(cn);
            }
        }
    }
    for (size_t i = s.conns.size(); i > 1; --i) std::swap(s.conns[i - 1], s.conns[draw(i)]);
    for (int i = 0; i < n; ++i)
        for (size_t k = 0; k < s.sims[i].in.size(); ++k)
            if (draw_bool(30)) s.inits.push_back({i, static_cast<int>(k), make_value(s.sims[i].in[k].type, draw(1u << 30))});
    const int w = static_cast<int>(draw(6));
    if (w < 5) s.workers = static_cast<unsigned>(w);
    s.ncpu = static_cast<unsigned>(1 + draw(5));
    return s;
}

// ---- dynamics shared by mock and reference -------------------------------------
inline uint64_t next_state(uint64_t h, const std::vector<scalar_value>& in, time_point t, duration dt)
{
    h = mix(h, static_cast<uint64_t>(t.time_since_epoch().count()));
    h = mix(h, static_cast<uint64_t>(dt.count()));
    for (const auto& v : in) h = mix(h, hash_value(v));
    return h;
}
inline scalar_value sim_output(const SimSpec& s, size_t k, uint64_t h, const std::vector<scalar_value>& in)
{
    uint64_t x = mix(h, 1000 + k);
    for (int i : s.ft[k]) x = mix(x, hash_value(in[static_cast<size_t>(i)]));
    return make_value(s.out[k].type, x);
}
inline scalar_value fun_output(const FunSpec& f, size_t k, const std::vector<scalar_value>& in)
{
    if (f.kind == 1) return f.offset + f.factor * std::get<0>(in[0]);
    if (f.kind > 1) {
        double sum = 0;
        for (int i = 0; i < f.count; ++i) sum += std::get<0>(in[static_cast<size_t>(i * f.dim) + k]);
        return sum;
    }
    uint64_t x = mix(f.h0, 2000 + k);
    for (const auto& v : in) x = mix(x, hash_value(v));
    return make_value(f.out[k].type, x);
}

// ---- reference model -------------------------------------------------------------
struct RefSim
{
    uint64_t h = 0;
    int df = 1;
    bool removed = false;
    std::vector<scalar_value> last; // value last set for each input (or its start value)
    std::vector<scalar_value> in; // inputs as the slave has them
    std::vector<scalar_value> out; // outputs as others see them
    std::vector<std::optional<scalar_value>> ovIn, ovOut;
    std::vector<std::function<scalar_value(const scalar_value&, duration)>> modIn, modOut; // (instead of overrides)
    std::vector<std::pair<time_point, std::vector<scalar_value>>> steps; // time and inputs of each step
};
struct RefFun
{
    std::vector<scalar_value> in, out;
};
struct RefModel
{
    const Spec* sp;
    std::vector<RefSim> sims;
    std::vector<RefFun> funs;
    std::vector<Conn> conns;
    int64_t c = 0;
    time_point t;
    // Order-independent: called for a subset of sims
    explicit RefModel(const Spec& s)
        : sp(&s)
        , conns(s.conns)
        , t(s.start)
    {
        for (const auto& m : s.sims) {
            RefSim r;
            r.h = m.h0;
            r.df = m.df;
            for (const auto& v : m.in) r.last.push_back(v.start);
            r.in = r.last;
            r.out.resize(m.out.size());
            r.ovIn.resize(m.in.size());
            r.ovOut.resize(m.out.size());
            r.modIn.resize(m.in.size());
            r.modOut.resize(m.out.size());
            sims.push_back(r);
        }
        for (const auto& f : s.funs) {
            RefFun r;
            for (const auto& v : f.in) r.in.push_back(v.start);
            for (size_t k = 0; k < f.out.size(); ++k) r.out.push_back(zero_value(f.out[k].type));
            funs.push_back(r);
        }
        for (const auto& i : s.inits) sims[static_cast<size_t>(i.sim)].last[static_cast<size_t>(i.var)] = i.v;
    }
    void set_inputs(size_t i, duration dt = duration::zero())
    {
        auto& r = sims[i];
        for (size_t k = 0; k < r.in.size(); ++k) r.in[k] = r.modIn[k] ? r.modIn[k](r.last[k], dt) : r.ovIn[k] ? *r.ovIn[k] : r.last[k];
    }
    void get_outputs(size_t i, duration dt = duration::zero())
    {
        auto& r = sims[i];
        for (size_t k = 0; k < r.out.size(); ++k) {
            r.out[k] = r.ovOut[k] ? *r.ovOut[k] : sim_output(sp->sims[i], k, r.h, r.in);
            if (r.modOut[k]) r.out[k] = r.modOut[k](r.out[k], dt);
        }
    }
    int fun_df(int f) const
    {
        int d = 1;
        for (const auto& cn : conns)
            if (cn.fromFun && cn.src == f) d = std::lcm(d, sims[static_cast<size_t>(cn.dst)].df);
        return d;
    }
    void transfer()
    {
        for (const auto& cn : conns) {
            if (cn.fromFun) continue;
            const int sdf = sims[static_cast<size_t>(cn.src)].df;
            const int tdf = cn.toFun ? fun_df(cn.dst) : sims[static_cast<size_t>(cn.dst)].df;
            if (c % std::lcm(sdf, tdf)) continue;
            auto& v = sims[static_cast<size_t>(cn.src)].out[static_cast<size_t>(cn.srcVar)];
            if (cn.toFun)
                funs[static_cast<size_t>(cn.dst)].in[static_cast<size_t>(cn.dstVar)] = v;
            else
                sims[static_cast<size_t>(cn.dst)].last[static_cast<size_t>(cn.dstVar)] = v;
        }
        for (size_t f = 0; f < funs.size(); ++f) {
            const int df = fun_df(static_cast<int>(f));
            if (c % df) continue;
            for (size_t k = 0; k < funs[f].out.size(); ++k) funs[f].out[k] = fun_output(sp->funs[f], k, funs[f].in);
            for (const auto& cn : conns)
                if (cn.fromFun && cn.src == static_cast<int>(f) && c % std::lcm(df, sims[static_cast<size_t>(cn.dst)].df) == 0)
                    sims[static_cast<size_t>(cn.dst)].last[static_cast<size_t>(cn.dstVar)] = funs[f].out[static_cast<size_t>(cn.srcVar)];
        }
    }
    void remove(size_t i)
    {
        sims[i].removed = true;
        const auto k = static_cast<int>(i);
        conns.erase(std::remove_if(conns.begin(), conns.end(), [&](const Conn& x) { return (!x.fromFun && x.src == k) || (!x.toFun && x.dst == k); }), conns.end());
    }
    void initialize()
    {
        size_t alive = 0;
        for (const auto& s : sims) alive += !s.removed;
        for (size_t i = 0; i < sims.size(); ++i)
            if (!sims[i].removed) get_outputs(i);
        for (size_t n = 0; n <= alive + funs.size(); ++n) {
            for (size_t i = 0; i < sims.size(); ++i) {
                if (sims[i].removed) continue;
                set_inputs(i);
                get_outputs(i);
            }
            transfer();
        }
    }
    std::set<int> step() // returns the slaves that have finished a step of their own
    {
        std::set<int> fin;
        for (size_t i = 0; i < sims.size(); ++i) {
            if (c % sims[i].df || sims[i].removed) continue;
            const duration dt = sp->base * sims[i].df;
            set_inputs(i, dt);
            sims[i].steps.push_back({t, sims[i].in});
            sims[i].h = next_state(sims[i].h, sims[i].in, t, dt);
            get_outputs(i, dt);
        }
        ++c;
        t += sp->base;
        for (size_t i = 0; i < sims.size(); ++i)
            if (c % sims[i].df == 0 && !sims[i].removed) fin.insert(static_cast<int>(i));
        transfer();
        return fin;
    }
};

// ---- mock slave ------------------------------------------------------------------
enum Phase
{
    P_SETUP,
    P_START,
    P_STEP,
    P_SET_SETUP, // set_*_variables before the simulation was started
    P_GET_SETUP,
    P_SET,
    P_GET,
    PHASES
};
inline const char* phase_name(int p)
{
    static const char* const n[] = {"setup", "start_simulation", "do_step", "set (before start)", "get (before start)", "set", "get"};
    return n[p];
}
struct StepRec
{
    time_point t;
    duration dt;
    std::vector<scalar_value> in;
    uint64_t begin, end;
};
struct Plan // planned misbehaviour of one slave
{
    int phase = -1;
    int nth = 0; // which call of that phase (0-based; set/get calls counted over all types)
    int how = 0; // 0 std::runtime_error, 1 failed, 2 canceled, 3 cosim::error, 4 logic_error-derived, 5 non-std exception
    std::string what;
};
struct odd_exception
{
    int x;
};

class MSlave : public cosim::slave
{
public:
    MSlave(const SimSpec& s, int index)
        : sp(s)
        , index_(index)
        , h(s.h0)
    {
        for (const auto& v : sp.in) in.push_back(v.start);
    }
    ~MSlave() override
    {
        NoSim n;
        if (busy) fail("slave-destroyed", "slave %d was destroyed during a call (%s)", index_, busy);
        if (state == 2 && !failed) fail("not-ended", "slave %d was released without being told that the simulation has ended", index_);
        if (destroyed) *destroyed = true;
    }
    cosim::model_description model_description() const override
    {
        NoAllocFaults na;
        cosim::model_description md;
        md.name = sp.name;
        md.uuid = "00000000-0000-0000-0000-00000000000" + std::to_string(index_);
        if (sp.enums) {
            using vc = cosim::variable_causality;
            static const vc causality[] = {vc::local, vc::output, vc::input, vc::parameter, vc::local};
            md.variables.push_back({"an enumeration", 0, variable_type::enumeration, causality[sp.enums], cosim::variable_variability::discrete, std::nullopt});
        }
        for (int dir = 0; dir < 2; ++dir)
            for (const auto& v : dir ? sp.out : sp.in) {
                cosim::variable_description d{v.name, v.ref, static_cast<variable_type>(v.type), dir ? (v.parameter ? cosim::variable_causality::calculated_parameter : cosim::variable_causality::output) : v.parameter ? cosim::variable_causality::parameter : cosim::variable_causality::input,
                    v.type == 0 ? cosim::variable_variability::continuous : cosim::variable_variability::discrete, std::nullopt};
                if (v.hasStart) d.start = v.start;
                md.variables.push_back(d);
            }
        return md;
    }
    void setup(time_point st, std::optional<time_point>, std::optional<double>) override
    {
        Call c(*this, "setup");
        {
            NoSim n;
            if (state != 0) fail("protocol", "slave %d: setup called %s", index_, state == 9 ? "after it had failed" : "a second time");
            startTime = st;
            nextTime = st;
            state = 1;
        }
        misbehave(P_SETUP);
        touch = 1;
    }
    void start_simulation() override
    {
        Call c(*this, "start_simulation");
        {
            NoSim n;
            if (state != 1) fail("protocol", "slave %d: start_simulation called in state %d", index_, state);
            state = 2;
        }
        misbehave(P_START);
        touch = 2;
    }
    void end_simulation() override
    {
        Call c(*this, "end_simulation");
        {
            NoSim n;
            if (state != 2) fail("protocol", "slave %d: end_simulation called in state %d", index_, state);
            state = 3;
            ++ends;
        }
        touch = 3;
        if (endHow == 1) throw std::runtime_error("cannot end");
        if (endHow == 2) throw odd_exception{2};
    }
    cosim::step_result do_step(time_point t, duration dt) override
    {
        Call c(*this, "do_step");
        uint64_t b;
        {
            NoSim n;
            b = seq();
            if (state != 2) fail("protocol", "slave %d: do_step called in state %d", index_, state);
            if (t != nextTime)
                fail("protocol", "slave %d: step begins at %lld ns, but the previous one ended at %lld ns", index_, static_cast<long long>(t.time_since_epoch().count()), static_cast<long long>(nextTime.time_since_epoch().count()));
            if (stepSize.count() && dt != stepSize)
                fail("protocol", "slave %d: step size %lld ns instead of %lld ns", index_, static_cast<long long>(dt.count()), static_cast<long long>(stepSize.count()));
            steps.push_back({t, dt, in, b, 0});
            nextTime = t + dt;
        }
        if (sp.stepCost) advance(sp.stepCost);
        if (uint64_t f = fault(F_SLOW, 3000000)) advance(f);
        const int r = misbehave(P_STEP);
        touch = touch + 1;
        {
            NoSim n;
            h = next_state(h, in, t, dt);
            steps.back().end = seq();
        }
        return r == 1 ? cosim::step_result::failed : r == 2 ? cosim::step_result::canceled : cosim::step_result::complete;
    }

    void get_real_variables(gsl::span<const value_reference> r, gsl::span<double> v) const override { get_all<double>(0, r, v); }
    void get_integer_variables(gsl::span<const value_reference> r, gsl::span<int> v) const override { get_all<int>(1, r, v); }
    void get_boolean_variables(gsl::span<const value_reference> r, gsl::span<bool> v) const override { get_all<bool>(2, r, v); }
    void get_string_variables(gsl::span<const value_reference> r, gsl::span<std::string> v) const override { get_all<std::string>(3, r, v); }
    void set_real_variables(gsl::span<const value_reference> r, gsl::span<const double> v) override { set_all<double>(0, r, v); }
    void set_integer_variables(gsl::span<const value_reference> r, gsl::span<const int> v) override { set_all<int>(1, r, v); }
    void set_boolean_variables(gsl::span<const value_reference> r, gsl::span<const bool> v) override { set_all<bool>(2, r, v); }
    void set_string_variables(gsl::span<const value_reference> r, gsl::span<const std::string> v) override { set_all<std::string>(3, r, v); }

    // oracle data
    SimSpec sp;
    int index_;
    uint64_t h;
    std::vector<scalar_value> in;
    int state = 0; // 0 created, 1 set up, 2 started, 3 ended, 9 failed
    time_point startTime, nextTime;
    duration stepSize{0}; // expected (0: any)
    std::vector<StepRec> steps;
    std::vector<Plan> plans;
    bool failed = false; // it has misbehaved
    std::vector<std::string> failures; // texts
    int failPhase = -1;
    mutable const char* busy = nullptr;
    mutable int calls[PHASES] = {};
    int endHow = 0; // 1, 2: end_simulation() throws
    int ends = 0;
    bool incomplete = false; // it has not thrown, but reported an incomplete step
    bool* destroyed = nullptr;

private:
    long touch = 0; // plain memory: unordered calls are data races
    struct Call
    {
        NoAllocFaults na;
        const MSlave& s;
        Call(const MSlave& sl, const char* what)
            : s(sl)
        {
            {
                NoSim n;
                if (s.busy) fail("concurrent-calls", "slave %d: %s called while %s is executing", s.index_, what, s.busy);
                if (s.failed && !s.incomplete) fail("called-after-failure", "slave %d: %s called after it had failed in %s", s.index_, what, phase_name(s.failPhase));
                s.busy = what;
            }
            point(what);
        }
        ~Call()
        {
            NoSim n;
            s.busy = nullptr;
        }
    };
    int misbehave(int phase) const
    {
        auto* self = const_cast<MSlave*>(this);
        int how = -1;
        std::string text;
        {
            NoSim n;
            const int k = calls[phase]++;
            for (const auto& p : plans)
                if (p.phase == phase && p.nth == k) {
                    how = p.how;
                    text = p.what;
                    self->failed = true;
                    self->failPhase = phase;
                    self->incomplete = how == 1 || how == 2;
                    self->failures.push_back(text);
                    dsim::log("slave %d misbehaves in %s (%d)", index_, phase_name(phase), how);
                    count("slave failures");
                }
        }
        switch (how) {
            case 0: throw std::runtime_error(text);
            case 3: throw std::system_error(std::make_error_code(std::errc::io_error), text);
            case 4: throw std::out_of_range(text);
            case 5: throw odd_exception{1};
            case 6: throw std::bad_alloc();
        }
        return how;
    }
    template<typename T>
    void get_all(int type, gsl::span<const value_reference> r, gsl::span<T> v) const
    {
        Call c(*this, "get variables");
        misbehave(state >= 2 ? P_GET : P_GET_SETUP);
        NoSim n;
        if (state == 0) fail("protocol", "slave %d: variables read before setup", index_);
        if (r.size() != v.size()) fail("protocol", "slave %d: %d references but %d values", index_, static_cast<int>(r.size()), static_cast<int>(v.size()));
        for (int i = 0; i < static_cast<int>(r.size()); ++i) {
            bool found = false;
            for (size_t k = 0; k < sp.out.size(); ++k)
                if (sp.out[k].type == type && sp.out[k].ref == r[i]) {
                    v[i] = std::get<T>(sim_output(sp, k, h, in));
                    found = true;
                }
            for (size_t k = 0; k < sp.in.size(); ++k)
                if (sp.in[k].type == type && sp.in[k].ref == r[i]) {
                    v[i] = std::get<T>(in[k]);
                    found = true;
                }
            if (!found) fail("protocol", "slave %d: unknown variable %u of type %d read", index_, r[i], type);
        }
    }
    template<typename T>
    void set_all(int type, gsl::span<const value_reference> r, gsl::span<const T> v)
    {
        Call c(*this, "set variables");
        misbehave(state >= 2 ? P_SET : P_SET_SETUP);
        NoSim n;
        if (state == 0) fail("protocol", "slave %d: variables set before setup", index_);
        if (r.size() != v.size()) fail("protocol", "slave %d: %d references but %d values", index_, static_cast<int>(r.size()), static_cast<int>(v.size()));
        for (int i = 0; i < static_cast<int>(r.size()); ++i) {
            bool found = false;
            for (size_t k = 0; k < sp.in.size(); ++k)
                if (sp.in[k].type == type && sp.in[k].ref == r[i]) {
                    in[k] = scalar_value(T(v[i]));
                    found = true;
                }
            if (!found) fail("wrong-variable", "slave %d: variable %u of type %d set, which is not an input", index_, r[i], type);
        }
    }
};

class MFunction : public cosim::function
{
public:
    explicit MFunction(const FunSpec& f)
        : sp(f)
    {
        for (const auto& v : sp.in) in.push_back(v.start);
        for (const auto& v : sp.out) out.push_back(zero_value(v.type));
    }
    cosim::function_description description() const override
    {
        NoAllocFaults na;
        cosim::function_description d;
        for (int g = 0; g < 2; ++g) {
            cosim::function_io_group_description gd;
            gd.name = g ? "out" : "in";
            gd.count = 1;
            for (int t = 0; t < 4; ++t) {
                cosim::function_io_description io;
                io.name = std::string(1, "RIBS"[t]);
                io.type = static_cast<variable_type>(t);
                io.causality = g ? cosim::variable_causality::output : cosim::variable_causality::input;
                io.count = 8;
                gd.ios.push_back(io);
            }
            d.io_groups.push_back(gd);
        }
        return d;
    }
    void set_real(const cosim::function_io_reference& r, double v) override { set(0, r, v); }
    void set_integer(const cosim::function_io_reference& r, int v) override { set(1, r, v); }
    void set_boolean(const cosim::function_io_reference& r, bool v) override { set(2, r, v); }
    void set_string(const cosim::function_io_reference& r, std::string_view v) override { set(3, r, std::string(v)); }
    double get_real(const cosim::function_io_reference& r) const override { return std::get<0>(get(0, r)); }
    int get_integer(const cosim::function_io_reference& r) const override { return std::get<1>(get(1, r)); }
    bool get_boolean(const cosim::function_io_reference& r) const override { return std::get<2>(get(2, r)); }
    std::string_view get_string(const cosim::function_io_reference& r) const override { return std::get<3>(get(3, r)); }
    void calculate() override
    {
        NoSim n; // (no failing allocations either)
        for (size_t k = 0; k < out.size(); ++k) out[k] = fun_output(sp, k, in);
    }
    FunSpec sp;
    std::vector<scalar_value> in, out;

private:
    void set(int t, const cosim::function_io_reference& r, scalar_value v)
    {
        NoSim n;
        if (r.group != 0 || r.group_instance != 0 || r.io != t) fail("wrong-variable", "function input (%d,%d) of the wrong kind set", r.group, r.io);
        for (size_t k = 0; k < sp.in.size(); ++k)
            if (sp.in[k].type == t && sp.in[k].io == r.io_instance) {
                in[k] = std::move(v);
                return;
            }
        fail("wrong-variable", "unknown function input set");
    }
    const scalar_value& get(int t, const cosim::function_io_reference& r) const
    {
        NoSim n;
        if (r.group != 1 || r.group_instance != 0 || r.io != t) fail("wrong-variable", "function output (%d,%d) of the wrong kind read", r.group, r.io);
        for (size_t k = 0; k < sp.out.size(); ++k)
            if (sp.out[k].type == t && sp.out[k].io == r.io_instance) return out[k];
        fail("wrong-variable", "unknown function output read");
    }
};

// ---- the system under test ---------------------------------------------------------
struct System
{
    const Spec& sp;
    std::shared_ptr<cosim::fixed_step_algorithm> algo;
    std::unique_ptr<cosim::execution> exec;
    std::vector<std::shared_ptr<MSlave>> slaves;
    std::vector<std::shared_ptr<MFunction>> funs;

    explicit System(const Spec& s)
        : sp(s)
    {
        algo = std::make_shared<cosim::fixed_step_algorithm>(s.base, s.workers);
        exec = std::make_unique<cosim::execution>(s.start, algo);
    }
    void add_slave(size_t i)
    {
        auto sl = std::make_shared<MSlave>(sp.sims[i], static_cast<int>(i));
        {
            NoSim n;
            sl->stepSize = sp.base * sp.sims[i].df;
        }
        slaves.push_back(sl);
        const auto idx = exec->add_slave(sl, sp.sims[i].name, sp.sims[i].hint);
        if (idx != static_cast<int>(i)) fail("index", "slave %zu got index %d", i, idx);
    }
    void add_function(size_t i)
    {
        auto f = std::make_shared<MFunction>(sp.funs[i]);
        funs.push_back(f);
        const auto idx = exec->add_function(f);
        if (idx != static_cast<int>(i)) fail("index", "function %zu got index %d", i, idx);
    }
    cosim::variable_id in_id(const Conn& c) const
    {
        const auto& v = sp.sims[static_cast<size_t>(c.dst)].in[static_cast<size_t>(c.dstVar)];
        return {c.dst, static_cast<variable_type>(v.type), v.ref};
    }
    cosim::variable_id out_id(const Conn& c) const
    {
        const auto& v = sp.sims[static_cast<size_t>(c.src)].out[static_cast<size_t>(c.srcVar)];
        return {c.src, static_cast<variable_type>(v.type), v.ref};
    }
    cosim::function_io_id fin_id(const Conn& c) const
    {
        const auto& v = sp.funs[static_cast<size_t>(c.dst)].in[static_cast<size_t>(c.dstVar)];
        return {c.dst, static_cast<variable_type>(v.type), {0, 0, v.type, v.io}};
    }
    cosim::function_io_id fout_id(const Conn& c) const
    {
        const auto& v = sp.funs[static_cast<size_t>(c.src)].out[static_cast<size_t>(c.srcVar)];
        return {c.src, static_cast<variable_type>(v.type), {1, 0, v.type, v.io}};
    }
    void connect(const Conn& c)
    {
        if (c.fromFun)
            exec->connect_variables(fout_id(c), in_id(c));
        else if (c.toFun)
            exec->connect_variables(out_id(c), fin_id(c));
        else
            exec->connect_variables(out_id(c), in_id(c));
    }
    void init_value(const InitVal& i)
    {
        const auto& v = sp.sims[static_cast<size_t>(i.sim)].in[static_cast<size_t>(i.var)];
        switch (v.type) {
            case 0: exec->set_real_initial_value(i.sim, v.ref, std::get<0>(i.v)); break;
            case 1: exec->set_integer_initial_value(i.sim, v.ref, std::get<1>(i.v)); break;
            case 2: exec->set_boolean_initial_value(i.sim, v.ref, std::get<2>(i.v)); break;
            case 3: exec->set_string_initial_value(i.sim, v.ref, std::get<3>(i.v)); break;
        }
    }
    void build_all()
    {
        for (size_t i = 0; i < sp.sims.size(); ++i) add_slave(i);
        for (size_t i = 0; i < sp.funs.size(); ++i) add_function(i);
        for (const auto& c : sp.conns) connect(c);
        for (const auto& i : sp.inits) init_value(i);
    }
};

inline scalar_value observe(const cosim::observable& o, int type, value_reference r)
{
    switch (type) {
        case 0: return o.get_real(r);
        case 1: return o.get_integer(r);
        case 2: return o.get_boolean(r);
        default: return std::string(o.get_string(r));
    }
}

// An observer and manipulator that records everything it is told
struct Event
{
    enum Kind
    {
        ADDED,
        INIT,
        SIM,
        STEP,
        COMMENCE
    } kind;
    int sim = -1;
    long long step = 0;
    duration dt{0};
    time_point t;
    uint64_t at = 0;
    std::vector<scalar_value> vals; // outputs (SIM events)
};
class Probe : public cosim::observer, public cosim::manipulator
{
public:
    Probe(const Spec& s, bool values)
        : sp(s)
        , values_(values)
    { }
    void simulator_added(int i, cosim::observable* o, time_point t) override
    {
        add_obs(i, o, t);
    }
    void simulator_added(int, cosim::manipulable*, time_point) override { }
    void simulator_removed(int, time_point) override { }
    void variables_connected(cosim::variable_id, cosim::variable_id, time_point) override { }
    void variable_disconnected(cosim::variable_id, time_point) override { }
    void simulation_initialized(cosim::step_number n, time_point t) override
    {
        touch = touch + 1;
        NoSim ns;
        Event e{Event::INIT};
        e.step = n;
        e.t = t;
        e.at = seq();
        ev.push_back(e);
    }
    void step_complete(cosim::step_number n, duration dt, time_point t) override
    {
        touch = touch + 1;
        point("step_complete");
        NoSim ns;
        Event e{Event::STEP};
        e.step = n;
        e.dt = dt;
        e.t = t;
        e.at = seq();
        ev.push_back(e);
    }
    void simulator_step_complete(int i, cosim::step_number n, duration dt, time_point t) override
    {
        touch = touch + 1;
        std::vector<scalar_value> v;
        if (values_)
            for (size_t k = 0; k < sp.sims[static_cast<size_t>(i)].out.size(); ++k) {
                const auto& x = sp.sims[static_cast<size_t>(i)].out[k];
                const auto h = hidden.find({i, k});
                if (h == hidden.end())
                    v.push_back(observe(*obs.at(i), x.type, x.ref));
                else {
                    v.push_back(scalar_value(std::string(unseen)));
                    if (--h->second == 0) {
                        obs.at(i)->expose_for_getting(static_cast<variable_type>(x.type), x.ref);
                        hidden.erase(h);
                    }
                }
            }
        NoSim ns;
        Event e{Event::SIM};
        e.sim = i;
        e.step = n;
        e.dt = dt;
        e.t = t;
        e.at = seq();
        e.vals = std::move(v);
        ev.push_back(e);
    }
    void step_commencing(time_point t) override
    {
        touch = touch + 1;
        NoSim ns;
        Event e{Event::COMMENCE};
        e.t = t;
        e.at = seq();
        ev.push_back(e);
    }
    const Spec& sp;
    bool values_;
    long touch = 0;
    std::map<int, cosim::observable*> obs;
    std::vector<Event> ev; // oracle data
    // outputs that are not looked at before the slave has made so many steps
    std::map<std::pair<int, size_t>, int> hidden;
    static constexpr const char* unseen = "<not seen>";
    static bool was_seen(const scalar_value& v)
    {
        const auto s = std::get_if<std::string>(&v);
        return !s || *s != unseen;
    }

private:
    void add_obs(int i, cosim::observable* o, time_point)
    {
        touch = touch + 1;
        obs[i] = o;
        if (values_)
            for (size_t k = 0; k < sp.sims[static_cast<size_t>(i)].out.size(); ++k) {
                const auto& x = sp.sims[static_cast<size_t>(i)].out[k];
                if (!hidden.count({i, k})) o->expose_for_getting(static_cast<variable_type>(x.type), x.ref);
            }
        NoSim ns;
        Event e{Event::ADDED};
        e.sim = i;
        e.at = seq();
        ev.push_back(e);
    }
};

// Compares what the slaves received with the reference model.
inline void check_slave_histories(const std::vector<std::shared_ptr<MSlave>>& slaves, const RefModel& ref, const Spec& sp)
{
    NoSim n;
    for (size_t i = 0; i < slaves.size(); ++i) {
        const auto& a = slaves[i]->steps;
        const auto& b = ref.sims[i].steps;
        for (size_t k = 0; k < a.size() && k < b.size(); ++k) {
            if (a[k].t != b[k].first)
                fail("wrong-step-time", "slave %zu step %zu began at %lld ns instead of %lld ns", i, k, static_cast<long long>(a[k].t.time_since_epoch().count()), static_cast<long long>(b[k].first.time_since_epoch().count()));
            for (size_t j = 0; j < a[k].in.size(); ++j)
                if (a[k].in[j] != b[k].second[j])
                    fail("wrong-input", "slave %zu (step factor %d), its step %zu: input %s was %s instead of %s", i, ref.sims[i].df, k, sp.sims[i].in[j].name.c_str(), show(a[k].in[j]).c_str(), show(b[k].second[j]).c_str());
        }
        if (a.size() != b.size()) fail("wrong-step-count", "slave %zu made %zu steps instead of %zu", i, a.size(), b.size());
        if (slaves[i]->h != ref.sims[i].h) fail("wrong-state", "slave %zu ended in another state than in a sequential execution", i);
    }
}

inline void quiet()
{
    boost::log::core::get()->set_logging_enabled(false);
}
inline void usual_faults()
{
    if (draw_bool(50)) enable_fault(F_SPURIOUS, 80000);
    if (draw_bool(50)) enable_fault(F_NOTIFY_PICK, 300000);
    if (draw_bool(40)) enable_fault(F_STALL, 2000);
    if (draw_bool(30)) enable_fault(F_SLOW, 100000);
}
inline std::string describe(const Spec& s)
{
    std::string d = "base " + std::to_string(s.base.count()) + " ns, workers " + (s.workers ? std::to_string(*s.workers) : "default") + ", cpus " + std::to_string(s.ncpu) + ", sims";
    for (const auto& m : s.sims) d += " " + std::to_string(m.in.size()) + ">" + std::to_string(m.out.size()) + "/" + std::to_string(m.df);
    d += ", functions " + std::to_string(s.funs.size()) + ", connections " + std::to_string(s.conns.size());
    return d;
}
} // namespace hx
#endif
