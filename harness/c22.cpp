// C22: FMUs on other computers (proxyfmu) behave like local ones, and losing them is an ordinary failure.
#include "../stub/fake_fmilib.hpp"
#include "common.hpp"

#include "cosim/observer/last_value_observer.hpp"
#include "cosim/orchestration.hpp"
#include "cosim/proxy/proxy_uri_sub_resolver.hpp"

#include <proxyfmu/client/proxy_fmu.hpp>

#include <sys/stat.h>

#include <thread>

namespace dsim
{
const char* property_id = "C22";
}
using namespace dsim;
using hx::quiet;
using hx::usual_faults;

namespace fake // no local FMUs here
{
const Model* parse(int, const char*, std::string& error)
{
    error = "no FMU";
    return nullptr;
}
void parsed(Import&) {}
int call(Import&, Fn, Args&) { return 0; }
void context(int) {}
} // namespace fake

namespace
{
enum Type
{
    REAL,
    INTEGER,
    BOOLEAN,
    STRING
};
enum Fn
{
    CONNECT,
    SETUP,
    ENTER,
    EXIT,
    STEP,
    TERMINATE,
    FREE,
    GET,
    SET
};
const char* const FN[] = {"connect", "set up experiment", "enter initialisation mode", "exit initialisation mode", "step", "terminate", "free", "get", "set"};

struct Value
{
    double r = 0;
    int i = 0;
    bool b = false;
    std::string s;
};
struct Var
{
    std::string name;
    unsigned vr = 0;
    Type type = REAL;
    int causality = 0; // 0 output, 1 input, 2 parameter, 3 local
    std::string variability;
    bool hasStart = false;
    Value start;
};
struct Fmu
{
    std::string ref, rel, path, host; // host empty: this computer
    int port = -1;
    bool exists = true;
    bool direct = false; // referred to by a URI that needs no base
    proxyfmu::fmi::model_description md;
    std::vector<Var> vars;
};
enum State
{
    INSTANTIATED,
    EXPERIMENT,
    INIT,
    STEPPING,
    TERMINATED,
    FREED
};
struct Inst // in the remote process
{
    int id = 0, model = -1;
    std::string name;
    State state = INSTANTIATED;
    bool error = false, lost = false, gone = false;
    bool terminateSeen = false;
    int busy = -1, steps = 0, frees = 0;
    double end = 0;
    std::map<std::pair<int, unsigned>, Value> in;
};
struct Conn
{
    int from, fvar, to, tvar;
};
struct Slave
{
    std::string name;
    int model = 0;
    std::vector<std::pair<int, Value>> init;
};
struct World
{
    std::vector<Fmu> fmus;
    unsigned mask = 0;
    std::vector<Slave> slaves;
    std::vector<Conn> conns;
    double start = 0;
    cosim::time_point t0;
    cosim::duration dt{};
    bool hasStop = false;
    double stop = 0;
    std::vector<std::unique_ptr<Inst>> insts;
    std::set<std::string> lostHosts;
    std::vector<std::string> failed; // instances whose failure has been seen by the caller
    int failures = 0, connects = 0;
    bool expectNoConnect = false;
};
World* w;

Value value(int model, const std::string& name, unsigned vr, int steps)
{
    Value v;
    const int h = static_cast<int>(vr * 7) + steps * 3 + model;
    v.r = model * 100 + vr + steps * 0.125;
    v.i = model * 1000 + static_cast<int>(vr) * 100 + steps;
    v.b = h & 1;
    v.s = h % 5 == 0 ? "" : name + "/" + std::to_string(vr) + "/" + std::to_string(steps) + (h % 3 ? "" : std::string(100, 'x'));
    return v;
}
bool same(const Value& a, const Value& b, int t)
{
    switch (t) {
        case REAL: return a.r == b.r;
        case INTEGER: return a.i == b.i;
        case BOOLEAN: return a.b == b.b;
        default: return a.s == b.s;
    }
}
std::string text(const Value& a, int t)
{
    switch (t) {
        case REAL: return std::to_string(a.r);
        case INTEGER: return std::to_string(a.i);
        case BOOLEAN: return a.b ? "true" : "false";
        default: return "\"" + a.s + "\"";
    }
}
cosim::variable_type vtype(int t)
{
    static const cosim::variable_type T[] = {cosim::variable_type::real, cosim::variable_type::integer, cosim::variable_type::boolean, cosim::variable_type::string};
    return T[t];
}
std::string host_of(int model)
{
    const auto& f = w->fmus[static_cast<size_t>(model)];
    return f.host.empty() ? "" : f.host + ":" + std::to_string(f.port);
}
struct transport_error : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

// What the remote process sees
void serve(Inst& x, Fn f, double t, double dt)
{
    auto bad = [&](const char* why) { fail("protocol", "%s is called %s (remote slave %s after %d steps)", FN[f], why, x.name.c_str(), x.steps); };
    if (x.state == FREED) bad("after the instance was freed");
    if (x.error && f != FREE) bad("after an error");
    if (f == FREE && x.state == STEPPING && !x.error && !x.terminateSeen) bad("without being terminated");
    switch (f) {
        case SETUP:
        case ENTER:
        case EXIT:
            if (x.state != (f == SETUP ? INSTANTIATED : f == ENTER ? EXPERIMENT : INIT)) bad("in the wrong state");
            break;
        case STEP:
        case TERMINATE:
            if (x.state != STEPPING) bad("in the wrong state");
            break;
        case GET:
            if (x.state < INIT || x.state > STEPPING) bad("in the wrong state");
            break;
        case SET:
            if (x.state < INSTANTIATED || x.state > STEPPING) bad("in the wrong state");
            break;
        default: break;
    }
    if (f == SETUP) {
        if (t != w->start) fail("time", "a remote slave is set up with start time %.17g instead of %.17g", t, w->start);
        x.end = t;
    }
    if (f == STEP) {
        // The times are those of the simulator's integer clock, and the end of the step is as exact as possible.
        const double begin = cosim::to_double_time_point(w->t0 + w->dt * x.steps), end = cosim::to_double_time_point(w->t0 + w->dt * (x.steps + 1));
        if (t != begin) fail("time", "step %d of a remote slave begins at %.17g instead of %.17g", x.steps, t, begin);
        if (t + dt != end && (end <= 2 * begin || std::fabs(t + dt - end) > 1e-15 * end)) fail("time", "step %d of a remote slave ends at %.17g instead of %.17g", x.steps, t + dt, end);
        x.end = t + dt;
    }
    const Slave* me = nullptr;
    for (const auto& s : w->slaves)
        if (s.name == x.name) me = &s;
    const auto& vars = w->fmus[static_cast<size_t>(x.model)].vars;
    if (me && f == EXIT)
        for (const auto& i : me->init) {
            const Var& v = vars[static_cast<size_t>(i.first)];
            const auto it = x.in.find({v.type, v.vr});
            if (it == x.in.end() || !same(it->second, i.second, v.type)) fail("initial", "the initial value of variable %s of a remote slave is %s instead of %s", v.name.c_str(), it == x.in.end() ? "not set" : text(it->second, v.type).c_str(), text(i.second, v.type).c_str());
        }
    if (me && f == STEP)
        for (const auto& c : w->conns) {
            if (&w->slaves[static_cast<size_t>(c.to)] != me) continue;
            const Slave& src = w->slaves[static_cast<size_t>(c.from)];
            const Var &fv = w->fmus[static_cast<size_t>(src.model)].vars[static_cast<size_t>(c.fvar)], &tv = vars[static_cast<size_t>(c.tvar)];
            const auto it = x.in.find({tv.type, tv.vr});
            const Value want = value(src.model, src.name, fv.vr, x.steps);
            if (it == x.in.end() || !same(it->second, want, tv.type)) fail("input", "in step %d of remote slave %s, input %s is %s instead of %s", x.steps, x.name.c_str(), tv.name.c_str(), it == x.in.end() ? "not set" : text(it->second, tv.type).c_str(), text(want, tv.type).c_str());
        }
}
void seen(const Inst& x, Fn f)
{
    if (f == TERMINATE || f == FREE) return; // nobody waits for the result
    ++w->failures;
    w->failed.push_back(x.name);
}
// A remote procedure call: request, execution, response
bool rpc(Inst& x, Fn f, double t = 0, double dt = 0)
{
    {
        NoSim n;
        dsim::log("remote slave %d (%s): %s", x.id, x.name.c_str(), FN[f]);
        if (x.busy >= 0) fail("concurrent", "%s is called for a remote slave while another thread executes %s", FN[f], FN[x.busy]);
        x.busy = f;
        if (f == FREE && x.frees++) fail("protocol", "a remote slave is freed twice");
        if (x.lost && f != FREE && f != TERMINATE) fail("protocol", "%s is called for a remote slave that is known to be lost", FN[f]);
    }
    point("request");
    advance(static_cast<uint64_t>(10 + (x.id * 7919 + x.steps * 31) % 900) * (f == STEP ? 1000 : 100));
    const uint64_t k = w->mask >> f & 1 ? fault(F_USER, 5) : 0;
    bool ok = true;
    {
        NoSim n;
        if (k == 3 || w->lostHosts.count(host_of(x.model))) x.gone = true;
        if (f == TERMINATE) x.terminateSeen = true;
        if (!x.gone) {
            serve(x, f, t, dt);
            if (k == 1 || k == 2) {
                if (f != FREE) x.error = true;
                count(k == 1 ? "bad statuses" : "remote exceptions");
                ok = false;
            } else
                switch (f) {
                    case SETUP: x.state = EXPERIMENT; break;
                    case ENTER: x.state = INIT; break;
                    case EXIT: x.state = STEPPING; break;
                    case STEP:
                        ++x.steps;
                        count("steps of remote slaves");
                        break;
                    case TERMINATE: x.state = TERMINATED; break;
                    default: break;
                }
            if (f == FREE) x.state = FREED;
            if (k >= 4) x.gone = true; // handled, but the response gets lost
        }
    }
    point("response");
    advance(static_cast<uint64_t>(5 + (x.id * 104729) % 700) * 100);
    NoSim n;
    if (w->lostHosts.count(host_of(x.model))) x.gone = true;
    x.busy = -1;
    if (x.gone) {
        x.lost = true;
        count("calls to lost processes");
        dsim::log("connection %d lost", x.id);
        seen(x, f);
        throw transport_error("connection lost");
    }
    if (!ok) {
        seen(x, f);
        if (k == 2) throw std::runtime_error("remote exception");
    }
    return ok;
}

class remote : public proxyfmu::fmi::slave
{
public:
    Inst& x;
    remote(const std::string& name, Inst& inst)
        : proxyfmu::fmi::slave(name)
        , x(inst)
    { }
    ~remote() override
    {
        // As the real one does; it must be able to rely on being freed before in case that fails.
        if (!x.frees) {
            try {
                rpc(x, FREE);
            } catch (...) {
                fail("protocol", "a remote slave is destroyed without being freed");
            }
        }
    }
    const proxyfmu::fmi::model_description& get_model_description() const override { return w->fmus[static_cast<size_t>(x.model)].md; }
    bool setup_experiment(double a, double b, double) override
    {
        {
            NoSim n;
            if (w->hasStop ? b != w->stop : b != 0) fail("time", "a remote slave is set up with stop time %g", b);
        }
        return rpc(x, SETUP, a);
    }
    bool enter_initialization_mode() override { return rpc(x, ENTER); }
    bool exit_initialization_mode() override { return rpc(x, EXIT); }
    bool step(double t, double dt) override { return rpc(x, STEP, t, dt); }
    bool reset() override { fail("protocol", "a remote slave is reset"); }
    bool terminate() override { return rpc(x, TERMINATE); }
    void freeInstance() override { rpc(x, FREE); }
    template<typename T, typename M>
    bool get(Type type, const std::vector<proxyfmu::fmi::value_ref>& vr, std::vector<T>& values, M m)
    {
        if (!rpc(x, GET)) return false;
        NoSim n;
        values.clear();
        for (auto r : vr) {
            check(type, r);
            values.push_back(value(x.model, x.name, r, x.steps).*m);
        }
        return true;
    }
    template<typename T, typename M>
    bool set(Type type, const std::vector<proxyfmu::fmi::value_ref>& vr, const std::vector<T>& values, M m)
    {
        if (!rpc(x, SET)) return false;
        NoSim n;
        if (vr.size() != values.size()) fail("values", "%zu variables are set to %zu values", vr.size(), values.size());
        for (size_t i = 0; i < vr.size(); ++i) {
            check(type, vr[i]);
            x.in[{type, vr[i]}].*m = values[i];
        }
        return true;
    }
    void check(Type type, unsigned vr)
    {
        for (const auto& v : w->fmus[static_cast<size_t>(x.model)].vars)
            if (v.type == type && v.vr == vr) return;
        fail("values", "a remote slave's unknown variable %u is accessed", vr);
    }
    bool get_integer(const std::vector<proxyfmu::fmi::value_ref>& vr, std::vector<int>& v) override { return get(INTEGER, vr, v, &Value::i); }
    bool get_real(const std::vector<proxyfmu::fmi::value_ref>& vr, std::vector<double>& v) override { return get(REAL, vr, v, &Value::r); }
    bool get_string(const std::vector<proxyfmu::fmi::value_ref>& vr, std::vector<std::string>& v) override { return get(STRING, vr, v, &Value::s); }
    bool get_boolean(const std::vector<proxyfmu::fmi::value_ref>& vr, std::vector<bool>& v) override { return get(BOOLEAN, vr, v, &Value::b); }
    bool set_integer(const std::vector<proxyfmu::fmi::value_ref>& vr, const std::vector<int>& v) override { return set(INTEGER, vr, v, &Value::i); }
    bool set_real(const std::vector<proxyfmu::fmi::value_ref>& vr, const std::vector<double>& v) override { return set(REAL, vr, v, &Value::r); }
    bool set_string(const std::vector<proxyfmu::fmi::value_ref>& vr, const std::vector<std::string>& v) override { return set(STRING, vr, v, &Value::s); }
    bool set_boolean(const std::vector<proxyfmu::fmi::value_ref>& vr, const std::vector<bool>& v) override { return set(BOOLEAN, vr, v, &Value::b); }
};
void connect(int model)
{
    point("connect");
    advance(50000);
    const uint64_t k = w->mask >> CONNECT & 1 ? fault(F_USER) : 0;
    NoSim n;
    ++w->connects;
    if (k || w->lostHosts.count(host_of(model))) {
        ++w->failures;
        count("connections refused");
        throw transport_error("connection refused");
    }
}
} // namespace

namespace proxyfmu::client
{
proxy_fmu::proxy_fmu(const filesystem::path& fmuPath, const std::optional<remote_info>& remote)
    : index_(-1)
{
    {
        NoSim n;
        if (w->expectNoConnect) fail("resolution", "an invalid reference was resolved to %s", fmuPath.c_str());
        std::error_code ec;
        int other = -1;
        for (size_t i = 0; i < w->fmus.size(); ++i) {
            const auto& f = w->fmus[i];
            if (!std::filesystem::equivalent(fmuPath, f.path, ec) || ec) continue;
            if (static_cast<bool>(remote) == !f.host.empty() && (!remote || (remote->host() == f.host && remote->port() == f.port))) index_ = static_cast<int>(i);
            else if (other < 0) other = static_cast<int>(i);
        }
        if (index_ < 0 && other >= 0) {
            const auto& f = w->fmus[static_cast<size_t>(other)];
            fail("resolution", "an FMU is looked for at %s:%d instead of %s:%d", remote ? remote->host().c_str() : "-", remote ? remote->port() : 0, f.host.c_str(), f.port);
        }
        if (index_ < 0) fail("resolution", "a reference was resolved to %s", fmuPath.c_str());
    }
    connect(index_);
}
const fmi::model_description& proxy_fmu::get_model_description() const { return w->fmus[static_cast<size_t>(index_)].md; }
std::unique_ptr<fmi::slave> proxy_fmu::new_instance(const std::string& name)
{
    connect(index_);
    NoSim n;
    auto x = std::make_unique<Inst>();
    x->id = static_cast<int>(w->insts.size());
    x->model = index_;
    x->name = name;
    w->insts.push_back(std::move(x));
    return std::make_unique<remote>(name, *w->insts.back());
}
} // namespace proxyfmu::client

namespace
{
std::string encode(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
        if (isalnum(c) || strchr("-._~/", c))
            r += static_cast<char>(c);
        else {
            char b[8];
            snprintf(b, sizeof b, "%%%02X", c);
            r += b;
        }
    return r;
}
const char* const BASES[] = {"sys", "my systems", "100%", "a+b"};
void make_fmu(int i, const std::string& base)
{
    Fmu f;
    static const char* const DIRS[] = {"", "sub/", "sub dir/", "../other/"};
    static const char* const HOSTS[] = {"", "", "", "alpha", "beta", "10.0.0.1", "localhost"};
    std::string rel = std::string(DIRS[draw(4)]) + (draw_bool(30) ? "model %" : "model") + std::to_string(i) + ".fmu";
    const int twin = draw_bool(30) ? static_cast<int>(draw(3)) : i; // the same file on another computer
    if (twin < i) rel = w->fmus[static_cast<size_t>(twin)].rel;
    f.rel = rel;
    f.path = base + "/" + rel;
    const auto h = draw(7);
    f.host = HOSTS[h];
    f.port = f.host.empty() ? -1 : static_cast<int>(9000 + draw(2));
    f.exists = !draw_bool(3);
    if (twin < i) {
        const auto& t = w->fmus[static_cast<size_t>(twin)];
        f.exists = t.exists;
        for (bool again = true; again;) {
            again = false;
            for (const auto& o : w->fmus)
                if (o.path == f.path && o.host == f.host && o.port == f.port) again = true;
            if (again) {
                f.host = f.host.empty() ? "alpha" : f.host;
                ++f.port;
            }
        }
        count("files on several computers");
    }
    f.ref = "proxyfmu://" + (f.host.empty() ? "localhost" : f.host + ":" + std::to_string(f.port)) + "?file=";
    f.direct = draw_bool(20);
    f.ref += f.direct ? encode(std::filesystem::path(f.path).lexically_normal().string()) : draw_bool(25) ? "file://" + encode(std::filesystem::path(f.path).lexically_normal().string()) : encode(rel);
    f.md.guid = "guid" + std::to_string(i);
    f.md.modelName = "model" + std::to_string(i);
    f.md.author = i % 2 ? "" : "x";
    f.md.description = "the model";
    const int nv = static_cast<int>(1 + draw(8));
    for (int k = 0; k < nv; ++k) {
        Var v;
        v.name = "v" + std::to_string(k);
        v.vr = static_cast<unsigned>(k < 4 ? k * 3 : k - 3);
        v.type = static_cast<Type>(draw(4));
        const auto c = draw(10);
        v.causality = c < 4 ? 0 : c < 8 ? 1 : c < 9 ? 2 : 3;
        v.variability = v.causality == 2 ? (k % 2 ? "fixed" : "tunable") : v.type == REAL ? "continuous" : "discrete";
        v.hasStart = draw_bool(50);
        v.start.r = k + 0.5;
        v.start.i = k + 1;
        v.start.b = k & 1;
        v.start.s = "start" + std::to_string(k);
        bool dup = false;
        for (const auto& o : f.vars) dup |= o.vr == v.vr && o.type == v.type;
        if (dup) continue;
        static const char* const C[] = {"output", "input", "parameter", "local"};
        proxyfmu::fmi::scalar_variable s;
        s.vr = v.vr;
        s.name = v.name;
        s.causality = C[v.causality];
        s.variability = v.variability;
        switch (v.type) {
            case REAL: s.typeAttribute = proxyfmu::fmi::real{v.hasStart ? std::optional<double>(v.start.r) : std::nullopt}; break;
            case INTEGER: s.typeAttribute = proxyfmu::fmi::integer{v.hasStart ? std::optional<int>(v.start.i) : std::nullopt}; break;
            case BOOLEAN: s.typeAttribute = proxyfmu::fmi::boolean{v.hasStart ? std::optional<bool>(v.start.b) : std::nullopt}; break;
            default: s.typeAttribute = proxyfmu::fmi::string{v.hasStart ? std::optional<std::string>(v.start.s) : std::nullopt};
        }
        f.md.modelVariables.push_back(s);
        f.vars.push_back(v);
    }
    NoSim n;
    std::filesystem::create_directories(std::filesystem::path(f.path).parent_path());
    if (f.exists) fclose(fopen(f.path.c_str(), "w"));
    w->fmus.push_back(f);
}
void check_description(int model, const cosim::model_description& d)
{
    NoSim n;
    const auto& f = w->fmus[static_cast<size_t>(model)];
    if (d.name != f.md.modelName || d.uuid != f.md.guid || d.description != f.md.description || d.author != f.md.author) fail("description", "the description of remote model %d is wrong", model);
    if (d.variables.size() != f.vars.size()) fail("description", "%zu variables instead of %zu are in the description of a remote model", d.variables.size(), f.vars.size());
    for (size_t k = 0; k < f.vars.size(); ++k) {
        const auto& v = f.vars[k];
        const auto& x = d.variables[k];
        static const cosim::variable_causality C[] = {cosim::variable_causality::output, cosim::variable_causality::input, cosim::variable_causality::parameter, cosim::variable_causality::local};
        const auto var = v.variability == "fixed" ? cosim::variable_variability::fixed : v.variability == "tunable" ? cosim::variable_variability::tunable : v.variability == "discrete" ? cosim::variable_variability::discrete : cosim::variable_variability::continuous;
        if (x.name != v.name || x.reference != v.vr || x.type != vtype(v.type) || x.causality != C[v.causality] || x.variability != var || static_cast<bool>(x.start) != v.hasStart) fail("description", "variable %s of a remote model is described wrongly", v.name.c_str());
        if (!x.start) continue;
        const bool same = v.type == REAL ? std::get<double>(*x.start) == v.start.r : v.type == INTEGER ? std::get<int>(*x.start) == v.start.i : v.type == BOOLEAN ? std::get<bool>(*x.start) == v.start.b : std::get<std::string>(*x.start) == v.start.s;
        if (!same) fail("description", "the start value of variable %s of a remote model is described wrongly", v.name.c_str());
    }
}
struct Held
{
    std::vector<std::shared_ptr<cosim::model>> models;
    std::vector<std::shared_ptr<cosim::slave>> slaves;
};
void simulation(cosim::model_uri_resolver& resolver, const cosim::uri& base, Held& h)
{
    const int ns = static_cast<int>(1 + draw(4));
    const int steps = static_cast<int>(draw(6));
    static const int64_t STEPS[] = {100000000, 1000000000, 10000000, 333333333};
    const auto dt = cosim::duration(STEPS[draw(4)]);
    static const double STARTS[] = {0, 1, 0.1, 1000};
    const auto t0 = cosim::to_time_point(STARTS[draw(4)]);
    std::optional<unsigned> workers;
    if (draw_bool(60)) workers = static_cast<unsigned>(draw(4));
    const bool observe = draw_bool(60), async = draw_bool(30), dropEarly = draw_bool(40);
    const bool kill = draw_bool(35);
    const uint64_t killAfter = draw(4'000'000), killWhich = draw(8);
    std::vector<Slave> slaves;
    for (int i = 0; i < ns; ++i) {
        Slave s;
        s.name = "s" + std::to_string(i);
        s.model = static_cast<int>(draw(w->fmus.size()));
        slaves.push_back(s);
    }
    std::vector<uint64_t> conns;
    for (int i = static_cast<int>(draw(6)); i > 0; --i) conns.push_back(draw(1000));
    std::vector<std::array<uint64_t, 3>> inits;
    for (int i = static_cast<int>(draw(4)); i > 0; --i) inits.push_back({draw(100), draw(100), draw(100)});
    {
        NoSim n;
        w->slaves.clear();
        w->conns.clear();
        w->failed.clear();
        w->failures = 0;
        w->lostHosts.clear(); // up again
        w->start = cosim::to_double_time_point(t0);
        w->t0 = t0;
        w->dt = dt;
    }
    std::thread killer;
    if (kill)
        killer = std::thread([&] {
            advance(killAfter);
            NoSim n;
            std::set<std::string> hosts;
            for (size_t i = 0; i < w->fmus.size(); ++i) hosts.insert(host_of(static_cast<int>(i)));
            auto it = hosts.begin();
            std::advance(it, static_cast<long>(killWhich % hosts.size()));
            dsim::log("host %s dies", it->c_str());
            w->lostHosts.insert(*it);
            count("hosts that died");
        });
    const char* what = "lookup";
    bool missing = false;
    try {
        std::vector<std::shared_ptr<cosim::model>> models(w->fmus.size());
        for (auto& s : slaves) {
            auto& m = models[static_cast<size_t>(s.model)];
            missing = !w->fmus[static_cast<size_t>(s.model)].exists;
            const auto& f = w->fmus[static_cast<size_t>(s.model)];
            if (!m) m = f.direct ? resolver.lookup_model(f.ref) : resolver.lookup_model(base, f.ref);
            if (missing) fail("resolution", "an FMU that does not exist was found");
            if (!m) fail("resolution", "the lookup gave a null pointer");
            check_description(s.model, *m->description());
        }
        h.models = models;
        what = "instantiation";
        for (auto& s : slaves) {
            h.slaves.push_back(models[static_cast<size_t>(s.model)]->instantiate(s.name));
            check_description(s.model, h.slaves.back()->model_description());
            NoSim n;
            w->slaves.push_back(s);
        }
        what = "setting up the simulation";
        auto exec = std::make_unique<cosim::execution>(t0, std::make_shared<cosim::fixed_step_algorithm>(dt, workers));
        auto obs = std::make_shared<cosim::last_value_observer>();
        if (observe) exec->add_observer(obs);
        std::vector<cosim::simulator_index> index;
        for (int i = 0; i < ns; ++i) index.push_back(exec->add_slave(h.slaves[static_cast<size_t>(i)], slaves[static_cast<size_t>(i)].name));
        auto vars = [&](int s) -> const std::vector<Var>& { return w->fmus[static_cast<size_t>(slaves[static_cast<size_t>(s)].model)].vars; };
        for (const auto c : conns) {
            std::vector<Conn> all;
            for (int i = 0; i < ns; ++i)
                for (size_t k = 0; k < vars(i).size(); ++k)
                    for (int j = 0; j < ns; ++j)
                        for (size_t l = 0; l < vars(j).size(); ++l)
                            if (vars(i)[k].causality == 0 && vars(j)[l].causality == 1 && vars(i)[k].type == vars(j)[l].type) all.push_back({i, static_cast<int>(k), j, static_cast<int>(l)});
            if (all.empty()) break;
            const auto& x = all[c % all.size()];
            bool taken = false;
            for (const auto& o : w->conns) taken |= o.to == x.to && o.tvar == x.tvar;
            if (taken) continue;
            const auto &a = vars(x.from)[static_cast<size_t>(x.fvar)], &b = vars(x.to)[static_cast<size_t>(x.tvar)];
            exec->connect_variables(cosim::variable_id{index[static_cast<size_t>(x.from)], vtype(a.type), a.vr}, cosim::variable_id{index[static_cast<size_t>(x.to)], vtype(b.type), b.vr});
            NoSim n;
            w->conns.push_back(x);
            count("connections");
        }
        for (const auto& c : inits) {
            const int s = static_cast<int>(c[0] % static_cast<uint64_t>(ns));
            const int k = static_cast<int>(c[1] % vars(s).size());
            const Var& v = vars(s)[static_cast<size_t>(k)];
            if (v.causality != 1 && v.causality != 2) continue;
            bool taken = false;
            for (const auto& o : w->conns) taken |= o.to == s && o.tvar == k;
            for (const auto& o : w->slaves[static_cast<size_t>(s)].init) taken |= o.first == k;
            if (taken) continue;
            Value x;
            x.r = static_cast<double>(c[2]) / 4;
            x.i = static_cast<int>(c[2]) - 50;
            x.b = c[2] & 1;
            x.s = c[2] ? std::string(c[2], 'z') : "";
            const auto sim = index[static_cast<size_t>(s)];
            switch (v.type) {
                case REAL: exec->set_real_initial_value(sim, v.vr, x.r); break;
                case INTEGER: exec->set_integer_initial_value(sim, v.vr, x.i); break;
                case BOOLEAN: exec->set_boolean_initial_value(sim, v.vr, x.b); break;
                default: exec->set_string_initial_value(sim, v.vr, x.s);
            }
            NoSim n;
            w->slaves[static_cast<size_t>(s)].init.push_back({k, x});
            count("initial values");
        }
        if (dropEarly) {
            h.models.clear();
            h.slaves.clear();
        }
        what = "stepping";
        if (async && steps) {
            auto r = exec->simulate_until_async(t0 + dt * steps);
            if (!r.get()) fail("no-exception", "the simulation ended early without an exception");
        }
        for (int k = async ? std::max(steps, 1) : 1; k <= steps; ++k) {
            if (!async) exec->step();
            {
                NoSim n;
                if (w->failures) fail("no-exception", "remote slave %s failed, but the step was successful", w->failed.empty() ? "?" : w->failed[0].c_str());
            }
            nontrivial();
            if (!observe) continue;
            for (int i = 0; i < ns; ++i)
                for (const auto& v : vars(i)) {
                    if (v.causality != 0) continue;
                    const Value want = value(slaves[static_cast<size_t>(i)].model, slaves[static_cast<size_t>(i)].name, v.vr, k);
                    Value got;
                    const cosim::value_reference vr = v.vr;
                    bool b = false;
                    const auto sim = index[static_cast<size_t>(i)];
                    switch (v.type) {
                        case REAL: obs->get_real(sim, gsl::make_span(&vr, 1), gsl::make_span(&got.r, 1)); break;
                        case INTEGER: obs->get_integer(sim, gsl::make_span(&vr, 1), gsl::make_span(&got.i, 1)); break;
                        case BOOLEAN:
                            obs->get_boolean(sim, gsl::make_span(&vr, 1), gsl::make_span(&b, 1));
                            got.b = b;
                            break;
                        default: obs->get_string(sim, gsl::make_span(&vr, 1), gsl::make_span(&got.s, 1));
                    }
                    if (!same(got, want, v.type)) fail("output", "after step %d, output %s of remote slave %d is seen as %s instead of %s", k, v.name.c_str(), i, text(got, v.type).c_str(), text(want, v.type).c_str());
                }
        }
    } catch (const std::exception& e) {
        NoSim n;
        dsim::log("exception in %s", what);
        if (missing) {
            count("missing files reported");
            if (w->failures) fail("exception", "a file that does not exist was looked for at another computer");
        } else if (!w->failures)
            fail("exception", "%s failed although no remote slave did: %s", what, e.what());
        else {
            count("failures reported");
            for (const auto& f : w->failed)
                if (std::string(e.what()).find(f) == std::string::npos) fail("reason", "remote slave %s failed, but the exception says: %s", f.c_str(), e.what());
        }
    }
    if (killer.joinable()) killer.join();
}
// A resolver that must not be asked for models another one has found
struct LastResolver : cosim::model_uri_sub_resolver
{
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& u) override
    {
        const std::string r(u.view());
        if (!w->expectNoConnect && w->failed.empty()) fail("resolution", "the reference %s was passed on to the next resolver", r.c_str());
        return nullptr;
    }
};
void invalid_reference(cosim::model_uri_resolver& resolver, const cosim::uri& base)
{
    static const char* const R[] = {"proxyfmu://localhost", "proxyfmu:?file=present.fmu", "proxyfmu://localhost?model=present.fmu", "proxyfmu://alpha:port?file=present.fmu", "proxyfmu://alpha:?file=present.fmu", "proxyfmu://localhost?file=nothing.fmu", "proxyfmv://localhost?file=present.fmu"};
    const auto r = R[draw(7)];
    w->expectNoConnect = true;
    bool refused = false;
    try {
        resolver.lookup_model(base, cosim::uri(r));
    } catch (const std::exception&) {
        refused = true;
    }
    w->expectNoConnect = false;
    if (!refused) fail("resolution", "the invalid reference %s was resolved", r);
    count("invalid references refused");
}
} // namespace

void dsim_setup() { quiet(); }

void dsim_run()
{
    World world;
    w = &world;
    const auto base = std::string(scratch()) + "/" + BASES[draw(4)];
    const int nf = static_cast<int>(1 + draw(3));
    for (int i = 0; i < nf; ++i) make_fmu(i, base);
    {
        NoSim n;
        std::filesystem::create_directories(base);
        fclose(fopen((base + "/present.fmu").c_str(), "a")); // an existing file for invalid references
    }
    const int rounds = static_cast<int>(1 + draw(3));
    if (draw_bool(70)) {
        static const unsigned RATES[] = {10000, 60000, 300000, 1000000};
        enable_fault(F_USER, RATES[draw(4)]);
        limit_fault(F_USER, 1 + static_cast<unsigned>(draw(3)));
        w->mask = draw_bool(40) ? ~0u : 1u << draw(9) | 1u << draw(9);
    }
    const bool invalid = draw_bool(20), local = draw_bool(30), last = draw_bool(30); // other resolvers before and after
    usual_faults();
    sched_config cfg;
    start(cfg);
    {
        cosim::model_uri_resolver resolver;
        if (local) resolver.add_sub_resolver(std::make_shared<cosim::fmu_file_uri_sub_resolver>());
        resolver.add_sub_resolver(std::make_shared<cosim::proxy::proxy_uri_sub_resolver>());
        if (last) resolver.add_sub_resolver(std::make_shared<LastResolver>());
        const auto baseUri = cosim::path_to_file_uri(base + "/system.xml");
        if (invalid) invalid_reference(resolver, baseUri);
        Held h;
        for (int r = 0; r < rounds; ++r) {
            dsim::log("simulation %d", r);
            simulation(resolver, baseUri, h);
            h.slaves.clear();
            h.models.clear();
        }
    }
    NoSim n;
    for (const auto& x : world.insts) {
        if (!x->frees) fail("leak", "remote slave %s was not freed", x->name.c_str());
        if (x->state != FREED && !x->gone) fail("leak", "remote slave %s was not freed", x->name.c_str());
    }
    fold(world.insts.size());
}
