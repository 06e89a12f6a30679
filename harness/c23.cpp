// C23: executions in one process neither affect nor depend on one another, with every feature in use.
#include "cosim/manipulator/override_manipulator.hpp"
#include "cosim/manipulator/scenario_manager.hpp"
#include "cosim/observer/file_observer.hpp"
#include "cosim/observer/last_value_observer.hpp"
#include "cosim/observer/time_series_observer.hpp"

#include "common.hpp"

#include <dirent.h>
#include <sys/stat.h>

#include <deque>
#include <fstream>
#include <thread>

using namespace hx;
namespace dsim
{
const char* property_id = "C23";
}
void dsim_setup() { quiet(); }

namespace
{
struct Target
{
    int sim;
    bool out;
    size_t idx;
};
struct Ev
{
    Target tgt;
    int kind; // 0 reset, 1 constant, 2 depends on the value
    int64_t at; // half steps
    int id;
};
struct Op
{
    enum Kind
    {
        STEP,
        RUN,
        ASYNC,
        OVERRIDE,
        RESET,
        LOAD,
        ABORT,
        REAL_TIME,
        START_RECORDING,
        STOP_RECORDING,
        OBSERVE,
        UNOBSERVE,
        DISCONNECT
    } kind;
    uint64_t a = 0;
    int n = 0;
    std::vector<Ev> events;
};
// What one user does with one execution
struct Job
{
    int number = 0;
    Spec sp;
    std::vector<Plan> plans;
    std::vector<int> planned; // the slaves
    std::vector<Op> ops;
    bool files = false, stamped = false, config = false, early = true;
    int decimation = 1, precision = -1;
    size_t buffer = 0;
    uint64_t delay = 0;
};
using Transcript = std::vector<std::string>;

scalar_value override_value(int type, int id)
{
    switch (type) {
        case 0: return 1e6 + id * 0.5;
        case 1: return 1000000 + id;
        case 2: return id % 2 == 1;
        default: return "override" + std::to_string(id);
    }
}
Job make_job(int number)
{
    Job j;
    j.number = number;
    GenOptions o;
    o.maxSims = 3;
    o.maxFuns = 1;
    o.maxVars = 2;
    o.minOut = 1;
    o.maxDf = 3;
    j.sp = generate(o);
    std::vector<Target> hot;
    for (size_t i = 0; i < j.sp.sims.size(); ++i)
        for (int dir = 0; dir < 2; ++dir) {
            auto& vs = dir ? j.sp.sims[i].out : j.sp.sims[i].in;
            for (size_t k = 0; k < vs.size(); ++k) hot.push_back({static_cast<int>(i), dir == 1, k});
        }
    if (draw_bool(25)) {
        Plan p;
        p.phase = static_cast<int>(draw(PHASES));
        p.nth = static_cast<int>(draw(p.phase >= P_STEP && p.phase != P_SET_SETUP && p.phase != P_GET_SETUP ? 12 : 2));
        p.how = static_cast<int>(draw(5));
        if (p.phase != P_STEP && (p.how == 1 || p.how == 2)) p.how = 0;
        if (p.how == 2) p.how = 0; // a cancelled step is followed by nothing
        p.what = "failure of job " + std::to_string(number);
        j.plans.push_back(p);
        j.planned.push_back(static_cast<int>(draw(j.sp.sims.size())));
    }
    j.files = draw_bool(50);
    j.stamped = draw_bool(50);
    j.config = draw_bool(40);
    j.early = draw_bool(50);
    j.decimation = static_cast<int>(1 + draw(3));
    if (draw_bool(30)) j.precision = static_cast<int>(draw(8));
    j.buffer = draw_bool(30) ? 1 + draw(5) : 0;
    j.delay = draw_bool(50) ? 0 : draw(20000);
    const int n = static_cast<int>(2 + draw(10));
    int id = number * 1000;
    for (int k = 0; k < n; ++k) {
        Op op{};
        static const Op::Kind KINDS[] = {Op::STEP, Op::STEP, Op::STEP, Op::RUN, Op::RUN, Op::ASYNC, Op::OVERRIDE, Op::OVERRIDE, Op::RESET, Op::LOAD, Op::LOAD, Op::ABORT, Op::REAL_TIME, Op::START_RECORDING, Op::STOP_RECORDING, Op::OBSERVE, Op::UNOBSERVE, Op::DISCONNECT};
        op.kind = k + 1 == n ? Op::STEP : KINDS[draw(sizeof KINDS / sizeof KINDS[0])];
        op.a = draw(1000);
        op.n = static_cast<int>(1 + draw(5));
        if (op.kind == Op::OVERRIDE) op.n = ++id;
        if (op.kind == Op::LOAD)
            for (int e = static_cast<int>(1 + draw(5)); e > 0; --e) op.events.push_back({hot[draw(hot.size())], static_cast<int>(draw(3)), static_cast<int64_t>(draw(10)), ++id});
        if (op.kind == Op::OVERRIDE || op.kind == Op::RESET || op.kind == Op::OBSERVE || op.kind == Op::UNOBSERVE) op.events.push_back({hot[draw(hot.size())], 0, 0, 0});
        j.ops.push_back(std::move(op));
    }
    return j;
}
std::string slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), {});
}
// The log files; those of a slave in the order of their names, that is, of time
void read_logs(const Job& j, const std::string& dir, Transcript& t)
{
    std::set<std::string> names;
    if (DIR* d = opendir(dir.c_str())) {
        while (dirent* e = readdir(d))
            if (e->d_name[0] != '.') names.insert(e->d_name);
        closedir(d);
    }
    for (const auto& s : j.sp.sims)
        for (int meta = 0; meta < 2; ++meta)
            for (const auto& n : names) {
                if (n.compare(0, s.name.size(), s.name) || (n.find("_metadata.yaml") != std::string::npos) != (meta == 1)) continue;
                t.push_back("log file of " + s.name + ": " + slurp(dir + "/" + n));
            }
}
template<typename F>
void attempt(Transcript& t, const char* what, F&& f)
{
    std::string r;
    try {
        r = f();
    } catch (const std::exception& e) {
        r = std::string("exception: ") + e.what();
    }
    NoSim n;
    t.push_back(std::string(what) + ": " + r);
}
// Returns what the user has seen
Transcript perform(const Job& job, std::optional<unsigned> workers, const std::string& dir, bool together)
{
    Transcript t;
    const auto say = [&](std::string s) {
        NoSim n;
        if (together) dsim::log("job %d: %s", job.number, s.substr(0, 80).c_str());
        t.push_back(std::move(s));
    };
    Spec sp;
    {
        NoSim n;
        sp = job.sp;
        sp.workers = workers;
    }
    std::vector<std::shared_ptr<MSlave>> slaves;
    {
        System sys(sp);
        auto& ex = *sys.exec;
        auto probe = std::make_shared<Probe>(sp, true);
        auto last = std::make_shared<cosim::last_value_observer>();
        auto series = job.buffer ? std::make_shared<cosim::time_series_observer>(job.buffer) : std::make_shared<cosim::time_series_observer>();
        auto om = std::make_shared<cosim::override_manipulator>();
        auto sm = std::make_shared<cosim::scenario_manager>();
        std::shared_ptr<cosim::file_observer> file;
        if (job.files) {
            cosim::file_observer_config c;
            c.set_timestamped_filenames(job.stamped);
            for (const auto& s : sp.sims) c.log_all_simulator_variables(s.name, static_cast<size_t>(job.decimation));
            if (job.precision >= 0) c.fixed_precision(job.precision);
            if (!job.config && job.stamped)
                file = std::make_shared<cosim::file_observer>(dir);
            else
                file = std::make_shared<cosim::file_observer>(dir, c);
        }
        const auto add = [&] {
            ex.add_observer(last);
            ex.add_observer(series);
            if (file) ex.add_observer(file);
            ex.add_observer(probe);
            ex.add_manipulator(om);
            ex.add_manipulator(sm);
        };
        if (job.early) add();
        sys.build_all();
        {
            NoSim n;
            slaves = sys.slaves;
            for (size_t i = 0; i < job.plans.size(); ++i) slaves[static_cast<size_t>(job.planned[i])]->plans.push_back(job.plans[i]);
        }
        if (!job.early) add();
        auto var = [&](const Target& x) -> const Var& { return (x.out ? sp.sims[static_cast<size_t>(x.sim)].out : sp.sims[static_cast<size_t>(x.sim)].in)[x.idx]; };
        std::vector<cosim::variable_id> observed;
        std::vector<Conn> conns = sp.conns;
        bool broken = false;
        const auto look = [&] {
            // all the observers must agree
            const auto mods = ex.get_modified_variables();
            const bool run = sm->is_scenario_running();
            {
                NoSim n;
                std::set<std::string> m;
                for (const auto& v : mods) m.insert(std::to_string(v.simulator) + "/" + std::to_string(static_cast<int>(v.type)) + "/" + std::to_string(v.reference));
                std::string s = run ? "scenario running; modified:" : "no scenario; modified:";
                for (const auto& x : m) s += " " + x;
                s += "; time " + std::to_string(ex.current_time().time_since_epoch().count()) + (ex.is_running() ? " running" : "");
                t.push_back(std::move(s));
            }
            for (size_t i = 0; i < sp.sims.size(); ++i) {
                const std::vector<scalar_value>* seen = nullptr;
                for (const auto& e : probe->ev)
                    if (e.kind == Event::SIM && e.sim == static_cast<int>(i)) seen = &e.vals;
                std::string s = "last values of " + sp.sims[i].name + ":";
                if (!seen) continue;
                for (size_t k = 0; k < sp.sims[i].out.size(); ++k) {
                    const auto& v = sp.sims[i].out[k];
                    const auto ref = v.ref;
                    scalar_value got = zero_value(v.type);
                    switch (v.type) {
                        case 0: {
                            double x = 0;
                            last->get_real(static_cast<int>(i), gsl::make_span(&ref, 1), gsl::make_span(&x, 1));
                            got = x;
                            break;
                        }
                        case 1: {
                            int x = 0;
                            last->get_integer(static_cast<int>(i), gsl::make_span(&ref, 1), gsl::make_span(&x, 1));
                            got = x;
                            break;
                        }
                        case 2: {
                            bool x = false;
                            last->get_boolean(static_cast<int>(i), gsl::make_span(&ref, 1), gsl::make_span(&x, 1));
                            got = x;
                            break;
                        }
                        default: {
                            std::string x;
                            last->get_string(static_cast<int>(i), gsl::make_span(&ref, 1), gsl::make_span(&x, 1));
                            got = x;
                        }
                    }
                    NoSim n;
                    if (!broken && got != (*seen)[k]) fail("observers", "output %s of %s is %s for one observer and %s for another", v.name.c_str(), sp.sims[i].name.c_str(), show(got).c_str(), show((*seen)[k]).c_str());
                    s += " " + show(got);
                }
                NoSim n;
                t.push_back(std::move(s));
            }
        };
        for (const auto& op : job.ops) {
            switch (op.kind) {
                case Op::STEP:
                case Op::RUN:
                case Op::ASYNC: {
                    std::string r;
                    if (broken) break;
                    try {
                        if (op.kind == Op::STEP)
                            r = "step of " + std::to_string(ex.step().count());
                        else if (op.kind == Op::RUN)
                            r = ex.simulate_until(ex.current_time() + sp.base * op.n) ? "target reached" : "stopped";
                        else
                            r = ex.simulate_until_async(ex.current_time() + sp.base * op.n).get() ? "target reached" : "stopped";
                    } catch (const std::exception& e) {
                        r = std::string("exception: ") + e.what();
                        broken = true;
                    }
                    say(r);
                    nontrivial();
                    look();
                    break;
                }
                case Op::OVERRIDE: {
                    const auto& x = op.events[0].tgt;
                    const auto& v = var(x);
                    const auto value = override_value(v.type, op.n);
                    attempt(t, "override", [&] {
                        switch (v.type) {
                            case 0: om->override_real_variable(x.sim, v.ref, std::get<0>(value)); break;
                            case 1: om->override_integer_variable(x.sim, v.ref, std::get<1>(value)); break;
                            case 2: om->override_boolean_variable(x.sim, v.ref, std::get<2>(value)); break;
                            default: om->override_string_variable(x.sim, v.ref, std::get<3>(value));
                        }
                        return "done";
                    });
                    break;
                }
                case Op::RESET: {
                    const auto& x = op.events[0].tgt;
                    attempt(t, "reset", [&] {
                        om->reset_variable(x.sim, static_cast<variable_type>(var(x).type), var(x).ref);
                        return "done";
                    });
                    break;
                }
                case Op::LOAD: {
                    cosim::scenario::scenario s;
                    for (const auto& e : op.events) {
                        const auto& v = var(e.tgt);
                        cosim::scenario::event x{time_point(sp.base * e.at / 2), {e.tgt.sim, v.ref, cosim::scenario::real_modifier{}, !e.tgt.out}};
                        const auto c = override_value(v.type, e.id);
                        const int kind = e.kind;
                        switch (v.type) {
                            case 0: {
                                cosim::scenario::real_modifier m;
                                if (kind) m.f = [=](double a, duration) { return kind == 1 ? std::get<0>(c) : a + 7; };
                                x.action.modifier = m;
                                break;
                            }
                            case 1: {
                                cosim::scenario::integer_modifier m;
                                if (kind) m.f = [=](int a, duration) { return kind == 1 ? std::get<1>(c) : a / 2 + 7; };
                                x.action.modifier = m;
                                break;
                            }
                            case 2: {
                                cosim::scenario::boolean_modifier m;
                                if (kind) m.f = [=](bool a, duration) { return kind == 1 ? std::get<2>(c) : !a; };
                                x.action.modifier = m;
                                break;
                            }
                            default: {
                                cosim::scenario::string_modifier m;
                                if (kind) m.f = [=](std::string_view a, duration) { return kind == 1 ? std::get<3>(c) : std::string(a) + "+"; };
                                x.action.modifier = m;
                            }
                        }
                        s.events.push_back(std::move(x));
                    }
                    if (op.a % 2) s.end = time_point(sp.base * static_cast<int>(op.a % 9));
                    attempt(t, "load a scenario", [&] {
                        sm->load_scenario(s, ex.current_time());
                        return "done";
                    });
                    break;
                }
                case Op::ABORT:
                    attempt(t, "abort the scenario", [&] {
                        sm->abort_scenario();
                        return "done";
                    });
                    break;
                case Op::REAL_TIME: {
                    auto c = ex.get_real_time_config();
                    static const double FACTORS[] = {1, 0.5, 100, 0, 2};
                    c->real_time_factor_target = FACTORS[op.a / 2 % 5];
                    c->real_time_simulation = op.a % 2;
                    break;
                }
                case Op::START_RECORDING:
                case Op::STOP_RECORDING:
                    if (!file) break;
                    attempt(t, op.kind == Op::START_RECORDING ? "start recording" : "stop recording", [&] {
                        if (op.kind == Op::START_RECORDING)
                            file->start_recording();
                        else
                            file->stop_recording();
                        return "done";
                    });
                    break;
                case Op::OBSERVE:
                case Op::UNOBSERVE: {
                    const auto& x = op.events[0].tgt;
                    const auto& v = var(x);
                    if (v.type > 1) break;
                    const cosim::variable_id id{x.sim, static_cast<variable_type>(v.type), v.ref};
                    bool have = false;
                    for (const auto& o : observed) have |= o == id;
                    if (have != (op.kind == Op::UNOBSERVE)) break;
                    attempt(t, have ? "stop observing" : "observe", [&] {
                        have ? series->stop_observing(id) : series->start_observing(id);
                        return "done";
                    });
                    NoSim n;
                    if (!have)
                        observed.push_back(id);
                    else
                        for (size_t k = observed.size(); k-- > 0;)
                            if (observed[k] == id) observed.erase(observed.begin() + static_cast<long>(k));
                    break;
                }
                case Op::DISCONNECT: {
                    if (conns.empty()) break;
                    const auto k = op.a % conns.size();
                    const Conn c = conns[k];
                    attempt(t, "disconnect", [&] {
                        if (c.toFun)
                            sys.algo->disconnect_variable(sys.fin_id(c));
                        else
                            sys.algo->disconnect_variable(sys.in_id(c));
                        return "done";
                    });
                    NoSim n;
                    conns.erase(conns.begin() + static_cast<long>(k));
                }
            }
        }
        for (const auto& id : observed) {
            double r[200];
            int i[200];
            cosim::step_number steps[200];
            time_point times[200];
            size_t n = 0;
            attempt(t, "series", [&] {
                if (id.type == variable_type::real)
                    n = series->get_real_samples(id.simulator, id.reference, 0, gsl::make_span(r), gsl::make_span(steps), gsl::make_span(times));
                else
                    n = series->get_integer_samples(id.simulator, id.reference, 0, gsl::make_span(i), gsl::make_span(steps), gsl::make_span(times));
                std::string s = std::to_string(id.simulator) + "/" + std::to_string(id.reference);
                for (size_t k = 0; k < n; ++k) s += " " + std::to_string(steps[k]) + "@" + std::to_string(times[k].time_since_epoch().count()) + "=" + (id.type == variable_type::real ? show(r[k]) : std::to_string(i[k]));
                return s;
            });
            NoSim ns;
            // the same as the probe has seen
            const int ty = id.type == variable_type::real ? 0 : 1;
            const auto& outs = sp.sims[static_cast<size_t>(id.simulator)].out;
            for (size_t k = 0; k < outs.size(); ++k) {
                if (outs[k].type != ty || outs[k].ref != id.reference) continue;
                for (size_t q = 0; q < n; ++q)
                    for (const auto& e : probe->ev)
                        if (e.kind == Event::SIM && e.sim == id.simulator && e.step == steps[q]) {
                            const scalar_value got = ty ? scalar_value(i[q]) : scalar_value(r[q]);
                            if (got != e.vals[k]) fail("observers", "in step %lld, output %s is %s for one observer and %s for another", static_cast<long long>(steps[q]), outs[k].name.c_str(), show(got).c_str(), show(e.vals[k]).c_str());
                        }
            }
        }
        NoSim n;
        for (const auto& e : probe->ev) {
            if (e.kind == Event::ADDED) continue;
            std::string s = "event " + std::to_string(e.kind) + " of " + std::to_string(e.sim) + ", step " + std::to_string(e.step) + " of " + std::to_string(e.dt.count()) + " at " + std::to_string(e.t.time_since_epoch().count());
            for (const auto& v : e.vals) s += " " + show(v);
            t.push_back(std::move(s));
        }
    }
    NoSim n;
    for (size_t i = 0; i < slaves.size(); ++i) {
        for (const auto& s : slaves[i]->steps) {
            std::string x = "slave " + std::to_string(i) + " from " + std::to_string(s.t.time_since_epoch().count()) + " by " + std::to_string(s.dt.count());
            for (const auto& v : s.in) x += " " + show(v);
            t.push_back(std::move(x));
        }
        t.push_back("slave " + std::to_string(i) + " has " + std::to_string(slaves[i]->ends) + " ends");
    }
    if (job.files) read_logs(job, dir, t);
    return t;
}
} // namespace

void dsim_run()
{
    const int n = static_cast<int>(1 + draw(3));
    std::deque<Job> jobs;
    for (int i = 0; i < n; ++i) jobs.push_back(make_job(i));
    // now and then, the same job several times
    if (n > 1 && draw_bool(25)) {
        const Job first = jobs[0];
        for (auto& j : jobs) j = first;
    }
    std::vector<std::optional<unsigned>> workers(static_cast<size_t>(n));
    for (auto& w : workers)
        if (draw_bool(80)) w = static_cast<unsigned>(draw(4));
    usual_faults();
    sched_config cfg;
    cfg.ncpu = 4;
    start(cfg);
    const std::string root = scratch();
    std::vector<Transcript> alone, together(static_cast<size_t>(n));
    for (int i = 0; i < n; ++i) {
        const auto& j = jobs[static_cast<size_t>(i)];
        {
            NoSim ns;
            dsim::log("job %d alone: %s", i, describe(j.sp).c_str());
        }
        alone.push_back(perform(j, j.sp.workers, root + "/alone" + std::to_string(i), false));
    }
    std::vector<std::thread> users;
    for (int i = 0; i < n; ++i)
        users.emplace_back([&, i] {
            const auto& j = jobs[static_cast<size_t>(i)];
            advance(j.delay);
            auto t = perform(j, workers[static_cast<size_t>(i)], root + "/together" + std::to_string(i), true);
            NoSim ns;
            together[static_cast<size_t>(i)] = std::move(t);
        });
    for (auto& u : users) u.join();
    NoSim ns;
    for (size_t i = 0; i < together.size(); ++i) {
        const auto &a = alone[i], &b = together[i];
        for (size_t k = 0; k < a.size() || k < b.size(); ++k) {
            const std::string x = k < a.size() ? a[k] : "(nothing)", y = k < b.size() ? b[k] : "(nothing)";
            if (x != y) fail("different", "with other executions and other worker threads, job %zu differs: \"%s\" instead of \"%s\"", i, y.c_str(), x.c_str());
        }
        uint64_t h = i;
        for (const auto& s : a) h = mix(h, std::hash<std::string>()(s));
        fold(h);
        count("lines compared", a.size());
    }
    count(n > 1 ? "concurrent executions" : "single executions", static_cast<uint64_t>(n));
}
