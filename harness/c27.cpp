// C27: functions, observers and manipulators of the user are driven as documented, and what they throw reaches the caller.
#include "cosim/observer/last_value_observer.hpp"
#include "cosim/observer/time_series_observer.hpp"

#include "common.hpp"

#include <thread>

using namespace hx;
namespace dsim
{
const char* property_id = "C27";
}
void dsim_setup() { quiet(); }

namespace
{
struct my_error : std::runtime_error
{
    my_error(const std::string& s, int i)
        : std::runtime_error(s)
        , id(i)
    { }
    int id;
};
[[noreturn]] void raise(int how, int id)
{
    count("failures of user code");
    if (how) throw odd_exception{id};
    throw my_error("failure-" + std::to_string(id), id);
}
enum FunCall
{
    CALC,
    SETTER,
    GETTER
};
struct FunPlan
{
    int call = -1, nth = 0, how = 0;
};
const std::vector<std::shared_ptr<MSlave>>* all_slaves; // oracle data

// A user's function that takes the interface at its word
class SFunction : public cosim::function
{
public:
    SFunction(const FunSpec& f, int index, int groups)
        : sp(f)
        , index_(index)
        , groups_(groups)
    {
        for (const auto& v : sp.in) in.push_back(v.start);
        for (const auto& v : sp.out) out.push_back(zero_value(v.type));
    }
    ~SFunction() override
    {
        NoSim n;
        if (busy) fail("function-destroyed", "function %d was destroyed during a call", index_);
    }
    // the inputs are spread over group instances, the outputs are instances of one variable
    cosim::function_io_reference in_ref(size_t k) const { return {2, static_cast<int>(k) % groups_, sp.in[k].type, sp.in[k].io}; }
    cosim::function_io_reference out_ref(size_t k) const { return {1, 0, 3 - sp.out[k].type, sp.out[k].io}; }
    cosim::function_description description() const override
    {
        cosim::function_description d;
        cosim::function_io_group_description none;
        none.name = "none";
        none.count = 1;
        d.io_groups.push_back(none);
        for (int g = 0; g < 2; ++g) {
            cosim::function_io_group_description gd;
            gd.name = g ? "in" : "out";
            gd.count = g ? groups_ : 1;
            for (int t = 0; t < 4; ++t) {
                const int type = g ? t : 3 - t;
                cosim::function_io_description io;
                io.name = std::string(1, "RIBS"[type]);
                io.type = static_cast<variable_type>(type);
                io.causality = g ? cosim::variable_causality::input : cosim::variable_causality::output;
                io.count = 8;
                gd.ios.push_back(io);
            }
            d.io_groups.push_back(gd);
        }
        return d;
    }
    void set_real(const cosim::function_io_reference& r, double v) override { set(0, r, v); }
    void set_integer(const cosim::function_io_reference& r, int v) override { set(1, r, v); }
    void set_boolean(const cosim::function_io_reference& r, bool v) override { set(2, r, v); }
    void set_string(const cosim::function_io_reference& r, std::string_view v) override { set(3, r, std::string(v)); }
    double get_real(const cosim::function_io_reference& r) const override { return std::get<0>(get(0, r)); }
    int get_integer(const cosim::function_io_reference& r) const override { return std::get<1>(get(1, r)); }
    bool get_boolean(const cosim::function_io_reference& r) const override { return std::get<2>(get(2, r)); }
    std::string_view get_string(const cosim::function_io_reference& r) const override
    {
        const auto v = std::get<3>(get(3, r));
        text = std::make_unique<std::string>(v + std::string(20, '.')); // (on the heap)
        return std::string_view(*text).substr(0, v.size());
    }
    void calculate() override
    {
        Call c(*this, "calculate", CALC);
        NoSim n;
        for (size_t k = 0; k < out.size(); ++k) out[k] = fun_output(sp, k, in);
        calculated = true;
        ++calcs;
        count("calculations");
    }
    FunSpec sp;
    int index_, groups_;
    std::vector<scalar_value> in, out;
    std::vector<FunPlan> plans;
    bool failed = false, calculated = false, expected = false;
    int failedHow = 0, failedId = 0;
    long calcs = 0;
    mutable const char* busy = nullptr;
    mutable int calls[3] = {}; // oracle data
    bool forbidden = false;

private:
    long touch = 0; // plain memory: unordered calls are data races
    mutable std::unique_ptr<std::string> text;
    struct Call
    {
        const SFunction& f;
        Call(const SFunction& s, const char* what, int call)
            : f(s)
        {
            auto* self = const_cast<SFunction*>(&f);
            self->touch = self->touch + 1;
            self->text.reset();
            const FunPlan* plan = nullptr;
            {
                NoSim n;
                if (f.busy) fail("concurrent-calls", "function %d: %s called while %s is executing", f.index_, what, f.busy);
                if (f.failed) fail("called-after-failure", "function %d: %s called after it had failed", f.index_, what);
                if (f.forbidden) fail("unexpected-call", "function %d: %s called outside a step", f.index_, what);
                for (const auto& s : *all_slaves)
                    if (s->busy) fail("unexpected-call", "function %d: %s called while slave %d executes %s", f.index_, what, s->index_, s->busy);
                const int k = f.calls[call]++;
                for (const auto& p : f.plans)
                    if (p.call == call && p.nth == k) {
                        plan = &p;
                        self->failed = true;
                        self->failedHow = p.how;
                        self->failedId = 100 + f.index_ * 10 + call;
                        dsim::log("function %d fails in %s (%d)", f.index_, what, p.how);
                    }
                f.busy = what;
            }
            point(what);
            if (plan) {
                f.busy = nullptr;
                raise(f.failedHow, f.failedId);
            }
        }
        ~Call() { f.busy = nullptr; }
    };
    void set(int t, const cosim::function_io_reference& r, scalar_value v)
    {
        Call c(*this, "set", SETTER);
        NoSim n;
        calculated = false; // the outputs are not valid any more
        for (size_t k = 0; k < sp.in.size(); ++k)
            if (in_ref(k) == r && sp.in[k].type == t) {
                in[k] = std::move(v);
                return;
            }
        fail("wrong-variable", "function %d: input (%d,%d,%d,%d) set, which does not exist", index_, r.group, r.group_instance, r.io, r.io_instance);
    }
    scalar_value get(int t, const cosim::function_io_reference& r) const
    {
        Call c(*this, "get", GETTER);
        NoSim n;
        if (!calculated) fail("too-early", "function %d: an output is read when it has not been calculated", index_);
        for (size_t k = 0; k < sp.out.size(); ++k)
            if (out_ref(k) == r && sp.out[k].type == t) return out[k];
        fail("wrong-variable", "function %d: output (%d,%d,%d,%d) read, which does not exist", index_, r.group, r.group_instance, r.io, r.io_instance);
    }
};

enum Hook
{
    ON_INIT,
    ON_SIM,
    ON_STEP,
    ON_COMMENCE
};
// An observer and manipulator that fails
class Thrower : public cosim::observer, public cosim::manipulator
{
public:
    struct Item
    {
        int hook, nth, how;
    };
    explicit Thrower(int i)
        : id(i)
    { }
    void simulator_added(int, cosim::observable*, time_point) override { touch = touch + 1; }
    void simulator_added(int, cosim::manipulable*, time_point) override { touch = touch + 1; }
    void simulator_removed(int, time_point) override { }
    void variables_connected(cosim::variable_id, cosim::variable_id, time_point) override { }
    void variable_disconnected(cosim::variable_id, time_point) override { }
    void simulation_initialized(cosim::step_number, time_point) override { hit(ON_INIT); }
    void simulator_step_complete(int, cosim::step_number, duration, time_point) override { hit(ON_SIM); }
    void step_complete(cosim::step_number, duration, time_point) override { hit(ON_STEP); }
    void step_commencing(time_point) override { hit(ON_COMMENCE); }
    std::vector<Item> items;
    int id, calls[4] = {};
    struct Thrown
    {
        int hook = -1, how = 0, id = 0;
    } thrown; // since the beginning of the call
private:
    long touch = 0;
    void hit(int hook)
    {
        touch = touch + 1;
        point("user code");
        const int k = calls[hook]++;
        for (const auto& it : items)
            if (it.hook == hook && it.nth == k) {
                {
                    NoSim n;
                    if (thrown.hook >= 0) fail("called-after-failure", "the call went on after user code had failed");
                    thrown = {hook, it.how, 1000 + id * 100 + k};
                    dsim::log("observer/manipulator %d fails (hook %d, %d)", id, hook, it.how);
                }
                raise(it.how, thrown.id);
            }
    }
};
} // namespace

void dsim_run()
{
    GenOptions o;
    o.maxSims = 4;
    o.maxFuns = 3;
    o.maxVars = 2;
    Spec sp = generate(o);
    const size_t ns = sp.sims.size(), nf = sp.funs.size();
    const int groups = static_cast<int>(1 + draw(3));
    std::vector<std::vector<FunPlan>> plans(nf);
    if (nf && draw_bool(35)) {
        FunPlan p;
        p.call = static_cast<int>(draw(3));
        p.nth = static_cast<int>(draw(p.call == CALC ? 15 : 40));
        p.how = draw_bool(30);
        plans[draw(nf)].push_back(p);
    }
    struct Where // an observer/manipulator that fails
    {
        bool obs;
        std::vector<Thrower::Item> items;
    };
    std::vector<Where> where(draw_bool(60) ? 1 + draw(2) : 0);
    for (auto& w : where) {
        w.obs = draw_bool(60);
        const size_t n = 1 + draw(3);
        for (size_t i = 0; i < n; ++i) {
            const int hook = w.obs ? static_cast<int>(draw(4)) % 3 : static_cast<int>(ON_COMMENCE);
            w.items.push_back({hook, hook == ON_INIT ? 0 : static_cast<int>(draw(hook == ON_SIM ? 12 : 8)), static_cast<int>(draw_bool(30))});
        }
    }
    // a modifier that fails
    const bool modFails = draw_bool(15);
    const int modSim = static_cast<int>(draw(ns)), modAt = static_cast<int>(draw(5)), modHow = draw_bool(30);
    struct Batch
    {
        int kind, n;
    };
    std::vector<Batch> batches(1 + draw(6));
    for (auto& b : batches) b = {static_cast<int>(draw(4)), static_cast<int>(1 + draw(5))};
    const bool early = draw_bool(50); // whether observers are added before the slaves
    usual_faults();
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    start(cfg);
    {
        NoSim n;
        dsim::log("%s, %zu failing observers/manipulators, modifier %d", describe(sp).c_str(), where.size(), modFails);
    }
    System sys(sp);
    auto& ex = *sys.exec;
    all_slaves = &sys.slaves;
    // the first observer and manipulator are told of everything
    auto probe = std::make_shared<Probe>(sp, true);
    auto lvo = std::make_shared<cosim::last_value_observer>();
    auto tso = std::make_shared<cosim::time_series_observer>();
    std::vector<std::shared_ptr<Thrower>> throwers;
    for (size_t i = 0; i < where.size(); ++i) {
        throwers.push_back(std::make_shared<Thrower>(static_cast<int>(i)));
        throwers.back()->items = where[i].items;
    }
    auto watch = [&] {
        ex.add_observer(probe);
        ex.add_manipulator(probe);
        ex.add_observer(lvo);
        ex.add_observer(tso);
        for (size_t i = 0; i < where.size(); ++i)
            if (where[i].obs)
                ex.add_observer(throwers[i]);
            else
                ex.add_manipulator(throwers[i]);
    };
    // (what the library shall report is remembered here)
    struct ModGrabber : cosim::manipulator
    {
        std::map<int, cosim::manipulable*> m;
        void simulator_added(int i, cosim::manipulable* x, time_point) override { m[i] = x; }
        void simulator_removed(int, time_point) override { }
        void step_commencing(time_point) override { }
    };
    auto grab = std::make_shared<ModGrabber>();
    ex.add_manipulator(grab);
    if (early) watch();
    for (size_t i = 0; i < ns; ++i) sys.add_slave(i);
    std::vector<std::shared_ptr<SFunction>> funs;
    for (size_t i = 0; i < nf; ++i) {
        funs.push_back(std::make_shared<SFunction>(sp.funs[i], static_cast<int>(i), groups));
        funs.back()->plans = plans[i];
        if (ex.add_function(funs.back()) != static_cast<int>(i)) fail("index", "wrong function index");
    }
    for (const auto& c : sp.conns) {
        if (c.fromFun) {
            const auto& f = *funs[static_cast<size_t>(c.src)];
            const auto k = static_cast<size_t>(c.srcVar);
            ex.connect_variables(cosim::function_io_id{c.src, static_cast<variable_type>(f.sp.out[k].type), f.out_ref(k)}, sys.in_id(c));
        } else if (c.toFun) {
            const auto& f = *funs[static_cast<size_t>(c.dst)];
            const auto k = static_cast<size_t>(c.dstVar);
            ex.connect_variables(sys.out_id(c), cosim::function_io_id{c.dst, static_cast<variable_type>(f.sp.in[k].type), f.in_ref(k)});
        } else
            ex.connect_variables(sys.out_id(c), sys.in_id(c));
    }
    for (const auto& i : sp.inits) sys.init_value(i);
    if (!early) watch();
    for (size_t i = 0; i < ns; ++i)
        for (const auto& v : sp.sims[i].out)
            if (v.type < 2) tso->start_observing({static_cast<int>(i), static_cast<variable_type>(v.type), v.ref});
    for (auto& f : funs) f->forbidden = true;

    RefModel ref(sp);
    bool refInit = false, dead = false, inited = false;
    std::vector<long> calcs(nf);
    bool modFailed = false;
    int modCalls = 0;
    if (modFails && !sp.sims[static_cast<size_t>(modSim)].in.empty()) {
        const auto& v = sp.sims[static_cast<size_t>(modSim)].in[0];
        auto* m = grab->m.at(modSim);
        m->expose_for_setting(static_cast<variable_type>(v.type), v.ref);
        auto maybe = [&modCalls, &modFailed, modAt, modHow](duration d) {
            if (d == duration::zero()) return;
            NoSim n;
            if (modFailed) fail("called-after-failure", "a modifier was called after it had failed");
            if (modCalls++ != modAt) return;
            modFailed = true;
            raise(modHow, 7);
        };
        switch (v.type) {
            case 0: m->set_real_input_modifier(v.ref, [maybe](double x, duration d) { maybe(d); return x; }); break;
            case 1: m->set_integer_input_modifier(v.ref, [maybe](int x, duration d) { maybe(d); return x; }); break;
            case 2: m->set_boolean_input_modifier(v.ref, [maybe](bool x, duration d) { maybe(d); return x; }); break;
            default: m->set_string_input_modifier(v.ref, [maybe](std::string_view x, duration d) { maybe(d); return std::string(x); });
        }
    }
    nontrivial();
    int fails = 0;
    for (const auto& b : batches) {
        for (auto& t : throwers) t->thrown = {};
        for (auto& f : funs) f->forbidden = false;
        const auto t0 = ex.current_time();
        const long long before = ref.c;
        bool threw = false, std_error = false;
        int id = -1;
        std::string msg;
        auto caught = [&](bool own, int i, const char* m) {
            threw = true;
            std_error = own;
            id = i;
            msg = m;
        };
        bool result = true;
        long long singles = 0;
        try {
            if (b.kind == 0)
                for (int k = 0; k < b.n; ++k) {
                    if (ex.step() != sp.base) fail("wrong-step-size", "step() returned another step size");
                    ++singles;
                }
            else if (b.kind == 1)
                result = ex.simulate_until(t0 + sp.base * b.n);
            else if (b.kind == 2)
                result = ex.simulate_until_async(t0 + sp.base * b.n).get();
            else {
                auto f = ex.simulate_until_async(std::nullopt);
                std::this_thread::sleep_for(std::chrono::microseconds(300 * b.n));
                ex.stop_simulation();
                result = f.get();
            }
        } catch (const my_error& e) {
            caught(true, e.id, e.what());
        } catch (const odd_exception& e) {
            caught(true, e.x, "");
        } catch (const std::exception& e) {
            caught(false, -1, e.what());
        }
        NoSim n;
        for (auto& f : funs) f->forbidden = true;
        if (ex.is_running()) fail("still-running", "the simulation is reported as running after the call");
        const Thrower::Thrown* t = nullptr;
        for (const auto& x : throwers)
            if (x->thrown.hook >= 0) t = &x->thrown;
        const SFunction* ff = nullptr;
        for (const auto& f : funs)
            if (f->failed) ff = f.get();
        const bool wasDead = dead;
        if (wasDead) {
            if (!threw) fail("failure-ignored", "the simulation went on after a function or modifier had failed");
            if (ex.current_time() != t0) fail("wrong-time", "time has changed in a failed simulation");
            count("attempts to go on refused");
        } else {
            if (threw != (t || ff || modFailed)) fail("failure-lost", "user code has%s failed, but the call has%s%s", t || ff || modFailed ? "" : " not", threw ? ": " : " not", msg.c_str());
            if (t && ff) fail("called-after-failure", "the call went on after user code had failed");
            if (t && (!std_error || id != t->id)) fail("wrong-exception", "the exception of the observer or manipulator did not reach the caller, but: %s", msg.c_str());
            if (ff && (!std_error || id != ff->failedId)) fail("wrong-exception", "the exception of the function did not reach the caller, but: %s", msg.c_str());
            if (modFailed && (std_error || msg.find(sp.sims[static_cast<size_t>(modSim)].name) == std::string::npos || (!modHow && msg.find("failure-7") == std::string::npos))) fail("wrong-exception", "the failure of the modifier of slave %d was reported as: %s", modSim, msg.c_str());
            if (ff || modFailed) dead = true;
            if (threw) ++fails;
        }
        // the steps that must have been made
        const auto passed = ex.current_time() - t0;
        if (passed.count() % sp.base.count()) fail("wrong-time", "time is not at a communication point");
        const long long made = passed.count() / sp.base.count();
        if (!threw && b.kind < 3 && (made != b.n || !result)) fail("wrong-step-count", "%lld steps were made instead of %d", made, b.n);
        if (!threw && b.kind == 3 && (made < 1 || result)) fail("wrong-step-count", "%lld steps were made until the simulation was stopped", made);
        if (threw && b.kind == 0 && made != singles + (t && (t->hook == ON_SIM || t->hook == ON_STEP))) fail("wrong-step-count", "%lld steps were made, of which %lld have returned", made, singles);
        if (!refInit && (made || (t && t->hook <= ON_COMMENCE) || modFailed)) {
            refInit = true;
            ref.initialize();
        }
        for (long long k = 0; k < made; ++k) ref.step();
        if (ref.t != ex.current_time()) fail("wrong-time", "the time is wrong after the call");
        // what has been reported
        long long steps = 0, inits = 0, commences = 0;
        time_point ct;
        for (const auto& e : probe->ev) {
            if (e.kind == Event::INIT && (++inits > 1 || steps || commences)) fail("wrong-notification", "the initialisation was reported late or twice");
            if (e.kind == Event::COMMENCE) {
                if (!inits) fail("wrong-notification", "a step commenced before the initialisation was reported");
                if (e.t != sp.start + sp.base * steps) fail("wrong-notification", "the step after %lld steps was announced for another time", steps);
                ++commences;
            }
            if (e.kind == Event::STEP && (e.step != steps + 1 || e.t != sp.start + sp.base * (steps + 1) || !commences)) fail("wrong-notification", "step %lld was reported as step %lld", steps + 1, e.step);
            if (e.kind == Event::STEP) ++steps, commences = 0;
            if (e.kind == Event::COMMENCE && commences > 1 && !fails) fail("wrong-notification", "a step was announced twice");
            if (e.kind == Event::SIM && (e.step != steps + 1 || e.step % sp.sims[static_cast<size_t>(e.sim)].df)) fail("wrong-notification", "a step of slave %d was reported as step %lld", e.sim, e.step);
        }
        if (steps != ref.c) fail("wrong-notification", "%lld steps were reported instead of %lld", steps, static_cast<long long>(ref.c));
        // functions are calculated once in each step in which one of their targets is due
        for (size_t f = 0; f < nf; ++f) {
            const int df = ref.fun_df(static_cast<int>(f));
            long due = 0;
            for (long long k = before + 1; k <= ref.c; ++k) due += k % df == 0;
            const long done = funs[f]->calcs - calcs[f];
            calcs[f] = funs[f]->calcs;
            if (inited && !dead && done != due) fail("wrong-calculations", "function %zu was calculated %ld times in %lld steps instead of %ld times", f, done, made, due);
            if (wasDead && done) fail("called-after-failure", "function %zu was calculated in a failed simulation", f);
        }
        if (inits) inited = true;
        if (dead) continue;
        // everything is as without the failures
        for (size_t i = 0; i < ns; ++i) {
            if (sys.slaves[i]->h != ref.sims[i].h) fail("wrong-state", "slave %zu is in another state than without failures", i);
            if (sys.slaves[i]->steps.size() != ref.sims[i].steps.size()) fail("wrong-step-count", "slave %zu made %zu steps instead of %zu", i, sys.slaves[i]->steps.size(), ref.sims[i].steps.size());
        }
        for (size_t f = 0; f < nf; ++f)
            if (refInit && funs[f]->in != ref.funs[f].in) fail("wrong-input", "function %zu has other inputs than without failures", f);
        if (!inits) continue;
        for (size_t i = 0; i < ns; ++i)
            for (size_t k = 0; k < sp.sims[i].out.size(); ++k) {
                const auto& v = sp.sims[i].out[k];
                if (v.type > 0 || sp.sims[i].df != 1 || !made) continue;
                double x = 0;
                const auto& want = ref.sims[i].out[k];
                {
                    value_reference r = v.ref;
                    const_cast<cosim::last_value_observer&>(*lvo).get_real(static_cast<int>(i), gsl::make_span(&r, 1), gsl::make_span(&x, 1));
                }
                if (scalar_value(x) != want) fail("wrong-value", "the last value observer has another value than without failures");
                std::vector<double> d(static_cast<size_t>(ref.c) + 2);
                std::vector<cosim::step_number> st(d.size());
                std::vector<time_point> tm(d.size());
                const auto got = tso->get_real_samples(static_cast<int>(i), v.ref, before + 1, gsl::span<double>(d), gsl::span<cosim::step_number>(st), gsl::span<time_point>(tm));
                if (got != static_cast<size_t>(made) || scalar_value(d[got - 1]) != want) fail("wrong-series", "the time series of slave %zu is incomplete after failures", i);
                count("observed values checked");
            }
    }
    NoSim n;
    if (!dead) {
        check_slave_histories(sys.slaves, ref, sp);
        if (fails) count("simulations continued after failures");
    }
    fold(static_cast<uint64_t>(ref.c));
    fold(static_cast<uint64_t>(fails));
}
