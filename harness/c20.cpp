// C20: FMUs are driven as the FMI standard says, whatever fails.
#include "../stub/fake_fmilib.hpp"
#include "common.hpp"
#include "ziputil.hpp"

#include "cosim/file_cache.hpp"
#include "cosim/fmi/fmu.hpp"
#include "cosim/fmi/importer.hpp"
#include "cosim/observer/last_value_observer.hpp"

#include <dirent.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <deque>
#include <thread>

namespace dsim
{
const char* property_id = "C20";
}
using namespace dsim;
using namespace fake;
using hx::quiet;
using hx::usual_faults;

namespace
{
const char* const FN[] = {"free", "load", "unload", "instantiate", "free instance", "set up experiment", "enter initialization mode", "exit initialization mode", "initialize", "terminate", "step", "get", "set"};

struct Value
{
    double r = 0;
    int i = 0;
    bool b = false;
    std::string s;
    bool known = false;
};
enum State
{
    PARSED,
    LOADED,
    INSTANTIATED,
    EXPERIMENT,
    INIT,
    STEPPING,
    TERMINATED,
    INSTANCE_FREED,
    UNLOADED
};
struct Sim;
struct Inst
{
    int id = 0, model = -1;
    Sim* sim = nullptr; // the simulation it belongs to
    State state = PARSED;
    bool error = false, fatal = false, discarded = false;
    bool stepped = false;
    int busy = -1; // thread
    std::string name;
    int steps = 0;
    double start = 0, end = 0;
    std::map<std::pair<int, unsigned>, Value> in;
    std::vector<std::string> strings; // valid until the next call
    void* memory = nullptr;
};
struct Conn
{
    int from, fvar, to, tvar;
};
struct Slave
{
    std::string name;
    int model = 0;
    struct Init
    {
        int var;
        Value v;
    };
    std::vector<Init> init;
};
struct Said
{
    Sim* sim;
    std::string name, text;
};
// A simulation
struct Sim
{
    int number = 0;
    // all that is drawn
    int steps = 0;
    cosim::duration base{};
    cosim::time_point t0;
    std::optional<unsigned> workers;
    std::vector<Slave> plan;
    unsigned dropAt = 0; // before the simulation, during it, after it
    uint64_t dropOrder = 0, dropDelay = 0, delay = 0;
    bool observe = false, first = false;
    std::vector<uint64_t> links;
    std::vector<std::array<uint64_t, 3>> inits;
    // what the FMUs have to see
    std::vector<Slave> slaves;
    std::vector<Conn> conns;
    double start = 0, step = 0;
    // what has happened
    std::vector<std::string> failures; // messages; empty: not logged
    std::vector<std::string> failed; // the failed slaves
};
struct World
{
    std::vector<Model> models;
    std::vector<std::string> files;
    std::vector<int> fmi;
    std::vector<bool> unpacked;
    unsigned mask = 0; // functions that may fail
    bool statuses[5] = {};
    std::deque<Sim> sims;
    std::map<std::thread::id, Sim*> current; // the simulation that each thread runs
    // what has happened
    int ids = 0, imports = 0, contexts = 0, messages = 0;
    std::map<int, int> alive; // instances of each model
    std::vector<Said> said;
    int injected = 0;
};
World* w;
Sim* current() { return w->current[std::this_thread::get_id()]; }

Value value(const Inst& x, Type t, unsigned vr, int steps)
{
    Value v;
    const int h = static_cast<int>(vr * 7 + steps * 3 + x.model);
    v.r = x.model * 100 + vr + steps * 0.125;
    v.i = x.model * 1000 + static_cast<int>(vr) * 100 + steps;
    v.b = h & 1;
    v.s = h % 5 == 0 ? "" : x.name + "/" + std::to_string(vr) + "/" + std::to_string(steps) + (h % 3 ? "" : std::string(100, 'x'));
    v.known = true;
    (void)t;
    return v;
}
bool same(const Value& a, const Value& b, Type t)
{
    switch (t) {
        case REAL: return a.r == b.r;
        case INTEGER: return a.i == b.i;
        case BOOLEAN: return a.b == b.b;
        default: return a.s == b.s;
    }
}
std::string text(const Value& a, Type t)
{
    switch (t) {
        case REAL: return std::to_string(a.r);
        case INTEGER: return std::to_string(a.i);
        case BOOLEAN: return a.b ? "true" : "false";
        default: return "\"" + a.s + "\"";
    }
}
bool exists(const std::string& d)
{
    struct stat st;
    return ::stat((d + "/modelDescription.xml").c_str(), &st) == 0;
}
void say(Import& im, Inst& x, int status, const std::string& m)
{
    if (im.fmi == 1)
        im.cb1.logger(nullptr, x.name.c_str(), static_cast<fmi1_status_t>(status), "c", "<%s> %d%%", m.c_str(), x.id);
    else
        im.cb2.logger(im.cb2.componentEnvironment, x.name.c_str(), static_cast<fmi2_status_t>(status), "c", "<%s> %d%%", m.c_str(), x.id);
}
} // namespace

namespace fake
{
const Model* parse(int fmi, const char* dir, std::string& error)
{
    const bool bad = (w->mask >> FREE & 1) && fault(F_USER);
    NoSim n;
    if (bad) {
        ++w->injected;
        current()->failures.push_back(error = "<unreadable model " + std::to_string(++w->messages) + ">");
        return nullptr;
    }
    std::string md(3000, 0);
    FILE* f = fopen((std::string(dir) + "/modelDescription.xml").c_str(), "r");
    if (!f) fail("directory", "the directory of an FMU does not exist when it is parsed");
    md.resize(fread(&md[0], 1, md.size(), f));
    fclose(f);
    const auto at = md.find("guid=\"") + 6;
    const auto guid = md.substr(at, md.find('"', at) - at);
    for (size_t i = 0; i < w->models.size(); ++i)
        if (w->models[i].guid == guid) {
            if (w->fmi[i] != fmi) fail("version", "an FMU for FMI %d is used as FMI %d", w->fmi[i], fmi);
            return &w->models[i];
        }
    fail("harness", "unknown FMU %s", guid.c_str());
}
void parsed(Import& im)
{
    NoSim n;
    auto x = new Inst;
    x->id = ++w->ids;
    x->sim = current();
    x->model = static_cast<int>(im.model - &w->models[0]);
    im.user = x;
    ++w->imports;
}
void context(int change)
{
    NoSim n;
    w->contexts += change;
    if (!w->contexts && w->imports) fail("lifetime", "the FMI Library's context was freed before %d FMU objects", w->imports);
}
int call(Import& im, Fn f, Args& a)
{
    Inst& x = *static_cast<Inst*>(im.user);
    Sim& sim = *x.sim;
    {
        NoSim n;
        if (f == INSTANTIATE) x.name = a.name;
        dsim::log("instance %d (%s): %s", x.id, x.name.c_str(), FN[f]);
        if (x.busy >= 0) fail("concurrent", "%s is called for an FMU instance while another thread executes %s", FN[f], FN[x.busy]);
        x.busy = f;
        auto bad = [&](const char* why) { fail("protocol", "FMI %d: %s is called %s (instance of model %d after %d steps)", im.fmi, FN[f], why, x.model, x.steps); };
        if (!exists(im.dir)) fail("directory", "the directory of an FMU is gone although the FMU is still in use (%s)", FN[f]);
        if (f != FREE && f != DESTROY_DLL) {
            if (x.fatal) bad("after a fatal error");
            if (x.error && im.fmi == 2 && f != FREE_INSTANCE) bad("after an error");
        }
        switch (f) {
            case FREE:
                if (x.state != PARSED && x.state != UNLOADED) bad("while the FMU is loaded");
                break;
            case CREATE_DLL:
                if (x.state != PARSED) bad("twice");
                if (im.fmi == 2 && im.cb2.stepFinished) bad("with an unexpected callback");
                break;
            case DESTROY_DLL:
                if (x.state == PARSED || x.state == UNLOADED) bad("although the FMU is not loaded");
                if (x.state >= INSTANTIATED && x.state <= TERMINATED && !x.fatal) bad("while the instance exists");
                break;
            case INSTANTIATE: {
                if (x.state != LOADED) bad("although the FMU is not loaded");
                const Model& m = w->models[x.model];
                if (m.once && w->alive[x.model]) bad("although the FMU can only be instantiated once");
                break;
            }
            case FREE_INSTANCE:
                if (x.state < INSTANTIATED || x.state > TERMINATED) bad("although there is no instance");
                if (x.state == STEPPING && !x.error && !x.discarded) bad("without being terminated");
                break;
            case SETUP:
            case ENTER_INIT:
            case EXIT_INIT:
                if (x.state != (f == SETUP ? INSTANTIATED : f == ENTER_INIT ? EXPERIMENT : INIT)) bad("in the wrong state");
                break;
            case INITIALIZE:
                if (x.state != INSTANTIATED) bad("in the wrong state");
                break;
            case TERMINATE:
            case STEP:
                if (x.state != STEPPING) bad("in the wrong state");
                if (f == STEP && x.discarded) bad("after a step that could not be completed");
                break;
            case GET:
                if (x.state < (im.fmi == 2 ? INIT : INSTANTIATED) || x.state > STEPPING) bad("in the wrong state");
                break;
            case SET:
                if (x.state < INSTANTIATED || x.state > STEPPING) bad("in the wrong state");
                if (x.discarded) bad("after a step that could not be completed");
                break;
        }
        if (f == SETUP || f == INITIALIZE) {
            if (a.t != sim.start) fail("time", "an FMU is initialised with start time %.17g instead of %.17g", a.t, sim.start);
            if (a.stopDefined && a.stop < a.t) fail("time", "an FMU is initialised with a stop time before its start time");
            x.start = x.end = a.t;
        }
        if (f == STEP) {
            if (std::fabs(a.t - x.end) > 1e-12 * (1 + std::fabs(x.end))) fail("time", "step %d of an FMU begins at %.17g instead of %.17g", x.steps, a.t, x.end);
            if (std::fabs(a.t + a.dt - sim.start - (x.steps + 1) * sim.step) > 1e-9) fail("time", "step %d of an FMU ends at %.17g instead of %.17g", x.steps, a.t + a.dt, sim.start + (x.steps + 1) * sim.step);
            x.end = a.t + a.dt;
        }
        const Slave* me = nullptr;
        for (const auto& s : sim.slaves)
            if (s.name == x.name) me = &s;
        if (me && (f == EXIT_INIT || f == INITIALIZE))
            for (const auto& i : me->init) {
                const Var& v = w->models[x.model].vars[i.var];
                const auto it = x.in.find({v.type, v.vr});
                if (it == x.in.end() || !same(it->second, i.v, v.type)) fail("initial", "the initial value of variable %s of an FMU is %s instead of %s", v.name.c_str(), it == x.in.end() ? "not set" : text(it->second, v.type).c_str(), text(i.v, v.type).c_str());
            }
        if (me && f == STEP)
            for (const auto& c : sim.conns) {
                if (&sim.slaves[c.to] != me) continue;
                const Slave& src = sim.slaves[c.from];
                const Var &fv = w->models[src.model].vars[c.fvar], &tv = w->models[x.model].vars[c.tvar];
                const auto it = x.in.find({tv.type, tv.vr});
                Inst y;
                y.model = src.model;
                y.name = src.name;
                const Value want = value(y, fv.type, fv.vr, x.steps);
                if (it == x.in.end() || !same(it->second, want, tv.type)) fail("input", "in step %d of slave %s, input %s is %s instead of %s", x.steps, x.name.c_str(), tv.name.c_str(), it == x.in.end() ? "not set" : text(it->second, tv.type).c_str(), text(want, tv.type).c_str());
            }
    }
    // the FMU works
    point("fmu");
    if (f == STEP || f == INSTANTIATE || f == EXIT_INIT) advance(1000 + (x.id * 7919) % 3000);
    uint64_t k = 0;
    if (w->mask >> f & 1 && f != FREE && f != DESTROY_DLL && f != FREE_INSTANCE) k = fault(F_USER, 6);
    int status = 0;
    std::string m;
    {
        NoSim n;
        if (k) {
            static const int S[] = {3, 3, 2, 1, 4, 3}; // error, discard, warning, fatal
            status = S[k - 1];
            if (im.fmi == 1 && f == INITIALIZE && status == 2) status = 3;
            if (f == CREATE_DLL || f == INSTANTIATE) status = 3;
            if (status != 1) ++w->injected;
            m = "message " + std::to_string(++w->messages) + std::string(w->messages % 3 == 0 ? 300 : 0, 'y');
            if (k == 6 || f == CREATE_DLL) m.clear();
            dsim::log("instance %d (%s): %s gives status %d%s", x.id, x.name.c_str(), FN[f], status, m.empty() ? "" : " and a message");
            count(status == 1 ? "warnings" : status == 2 ? "discards" : status == 3 ? "errors" : "fatal errors");
        }
    }
    if (!m.empty()) say(im, x, status, m);
    NoSim n;
    if (!m.empty()) w->said.push_back({&sim, x.name, "<" + m + "> " + std::to_string(x.id) + "%"});
    if (status > 1 && f != TERMINATE) {
        sim.failures.push_back(m.empty() || (f == STEP && status == 2) ? "" : "<" + m + "> " + std::to_string(x.id) + "%");
        sim.failed.push_back(x.name);
    }
    if (status == 3) x.error = true;
    if (status == 4) x.fatal = true;
    x.strings.clear();
    const bool ok = status <= 1;
    switch (f) {
        case FREE:
            if (x.memory && !x.fatal) fail("leak", "an FMU object is freed before its instance");
            if (x.memory) {
                free(x.memory);
                --w->alive[x.model];
            }
            im.user = nullptr;
            --w->imports;
            delete &x;
            return 0;
        case CREATE_DLL:
            if (ok) x.state = LOADED;
            x.error = x.fatal = false;
            x.busy = -1;
            return ok ? 0 : -1;
        case DESTROY_DLL: x.state = UNLOADED; break;
        case INSTANTIATE:
            x.error = x.fatal = false;
            x.busy = -1;
            if (!ok) return -1;
            x.state = INSTANTIATED;
            x.memory = im.fmi == 1 ? im.cb1.allocateMemory(3, 8) : im.cb2.allocateMemory(3, 8);
            ++w->alive[x.model];
            break;
        case FREE_INSTANCE:
            x.state = INSTANCE_FREED;
            im.fmi == 1 ? im.cb1.freeMemory(x.memory) : im.cb2.freeMemory(x.memory);
            x.memory = nullptr;
            --w->alive[x.model];
            break;
        case SETUP:
            if (ok) x.state = EXPERIMENT;
            break;
        case ENTER_INIT:
            if (ok) x.state = INIT;
            break;
        case EXIT_INIT:
        case INITIALIZE:
            if (ok) x.state = STEPPING;
            break;
        case TERMINATE: x.state = TERMINATED; break;
        case STEP:
            if (ok) {
                ++x.steps;
                count("steps of FMUs");
            }
            if (status == 2) x.discarded = true;
            break;
        case GET:
            x.strings.resize(a.n);
            for (size_t i = 0; i < a.n; ++i) {
                const Value v = value(x, a.type, a.vr[i], x.steps);
                switch (a.type) {
                    case REAL: static_cast<double*>(a.out)[i] = v.r; break;
                    case INTEGER: static_cast<int*>(a.out)[i] = v.i; break;
                    case BOOLEAN:
                        if (im.fmi == 1)
                            static_cast<fmi1_boolean_t*>(a.out)[i] = v.b;
                        else
                            static_cast<fmi2_boolean_t*>(a.out)[i] = v.b;
                        break;
                    default:
                        x.strings[i] = v.s;
                        static_cast<const char**>(a.out)[i] = v.s.empty() && a.vr[i] % 2 ? nullptr : x.strings[i].c_str();
                }
            }
            break;
        case SET:
            for (size_t i = 0; i < a.n && ok; ++i) {
                Value v;
                switch (a.type) {
                    case REAL: v.r = static_cast<const double*>(a.in)[i]; break;
                    case INTEGER: v.i = static_cast<const int*>(a.in)[i]; break;
                    case BOOLEAN: v.b = im.fmi == 1 ? static_cast<const fmi1_boolean_t*>(a.in)[i] : static_cast<const fmi2_boolean_t*>(a.in)[i]; break;
                    default: v.s = static_cast<const char* const*>(a.in)[i];
                }
                x.in[{a.type, a.vr[i]}] = v;
            }
            break;
    }
    x.busy = -1;
    return status;
}
} // namespace fake

namespace
{
cosim::variable_type vtype(Type t)
{
    return t == REAL ? cosim::variable_type::real : t == INTEGER ? cosim::variable_type::integer : t == BOOLEAN ? cosim::variable_type::boolean : cosim::variable_type::string;
}
void make_model(int i)
{
    Model m;
    const int fmi = draw_bool(45) ? 1 : 2;
    m.name = "model" + std::to_string(i);
    m.guid = "{guid-" + std::to_string(i) + "}";
    m.description = i % 2 ? "" : "a model";
    m.author = "x";
    m.version = "1";
    m.once = draw_bool(5);
    const bool me = draw_bool(2);
    m.kind = fmi == 1 ? (me ? static_cast<int>(fmi1_fmu_kind_enu_me) : draw_bool(50) ? static_cast<int>(fmi1_fmu_kind_enu_cs_tool) : static_cast<int>(fmi1_fmu_kind_enu_cs_standalone)) : (me ? static_cast<int>(fmi2_fmu_kind_me) : draw_bool(30) ? static_cast<int>(fmi2_fmu_kind_me_and_cs) : static_cast<int>(fmi2_fmu_kind_cs));
    const int nv = static_cast<int>(1 + draw(8));
    for (int k = 0; k < nv; ++k) {
        Var v{};
        v.name = "v" + std::to_string(k);
        v.vr = static_cast<unsigned>(k < 4 ? k * 3 : k - 3);
        v.type = static_cast<Type>(draw_bool(5) ? 4 : draw(4));
        const auto c = draw(10);
        if (fmi == 1) {
            v.causality = c < 4 ? fmi1_causality_enu_output : c < 8 ? fmi1_causality_enu_input : c < 9 ? fmi1_causality_enu_internal : fmi1_causality_enu_none;
            v.variability = c == 7 ? fmi1_variability_enu_parameter : v.type == REAL ? fmi1_variability_enu_continuous : fmi1_variability_enu_discrete;
        } else {
            static const int C[] = {fmi2_causality_enu_output, fmi2_causality_enu_output, fmi2_causality_enu_output, fmi2_causality_enu_output, fmi2_causality_enu_input, fmi2_causality_enu_input, fmi2_causality_enu_input, fmi2_causality_enu_parameter, fmi2_causality_enu_local, fmi2_causality_enu_calculated_parameter};
            v.causality = C[c];
            v.variability = c == 7 ? (k % 2 ? fmi2_variability_enu_fixed : fmi2_variability_enu_tunable) : c == 9 ? fmi2_variability_enu_fixed : v.type == REAL ? fmi2_variability_enu_continuous : fmi2_variability_enu_discrete;
        }
        v.hasStart = draw_bool(50);
        v.r = k + 0.5;
        v.i = k + 1;
        v.b = k & 1;
        v.s = "start" + std::to_string(k);
        bool dup = false;
        for (const auto& o : m.vars) dup |= o.vr == v.vr && o.type == v.type;
        if (!dup) m.vars.push_back(v);
    }
    w->models.push_back(m);
    w->fmi.push_back(fmi);
    w->unpacked.push_back(draw_bool(30));
    NoSim n;
    const auto md = "<?xml version=\"1.0\"?>\n<fmiModelDescription fmiVersion=\"" + std::string(fmi == 1 ? "1.0" : "2.0") + "\" guid=\"" + m.guid + "\" modelName=\"m\"/>\n";
    std::string path = std::string(scratch()) + "/fmu" + std::to_string(i);
    if (w->unpacked.back()) {
        ::mkdir(path.c_str(), 0777);
        path += "/modelDescription.xml";
    } else
        path += ".fmu";
    FILE* f = fopen(path.c_str(), "w");
    zu::Entry e;
    e.name = e.shown = "modelDescription.xml";
    e.data = md;
    std::vector<zu::Entry> entries{e};
    const auto b = w->unpacked.back() ? md : zu::make_zip(entries, false, "");
    if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) fail("harness", "cannot write %s", path.c_str());
    if (w->unpacked.back()) path = path.substr(0, path.rfind('/'));
    w->files.push_back(path);
}
bool is_cs(int i) { return w->fmi[i] == 1 ? w->models[i].kind != fmi1_fmu_kind_enu_me : (w->models[i].kind & fmi2_fmu_kind_cs) != 0; }
bool can_set(int model, const Var& v)
{
    return w->fmi[model] == 1 ? v.causality == fmi1_causality_enu_input : v.causality == fmi2_causality_enu_input || v.causality == fmi2_causality_enu_parameter;
}
bool is_input(int model, const Var& v)
{
    return w->fmi[model] == 1 ? v.causality == fmi1_causality_enu_input && v.variability != fmi1_variability_enu_parameter : v.causality == fmi2_causality_enu_input;
}
bool is_output(int model, const Var& v)
{
    return w->fmi[model] == 1 ? v.causality == fmi1_causality_enu_output : v.causality == fmi2_causality_enu_output;
}
void check_description(int model, const cosim::model_description& d)
{
    NoSim n;
    const Model& m = w->models[model];
    if (d.name != m.name || d.uuid != m.guid || d.description != m.description || d.author != m.author || d.version != m.version) fail("description", "the model description of model %d is wrong", model);
    size_t k = 0;
    for (const auto& v : m.vars) {
        if (v.type == ENUMERATION) continue;
        if (k >= d.variables.size()) fail("description", "variable %s is missing in the model description", v.name.c_str());
        const auto& x = d.variables[k++];
        if (x.name != v.name || x.reference != v.vr || x.type != vtype(v.type)) fail("description", "variable %s is described wrongly", v.name.c_str());
        if (is_input(model, v) != (x.causality == cosim::variable_causality::input) || is_output(model, v) != (x.causality == cosim::variable_causality::output) || (can_set(model, v) && !is_input(model, v)) != (x.causality == cosim::variable_causality::parameter)) fail("description", "the causality of variable %s is described wrongly", v.name.c_str());
        if (static_cast<bool>(x.start) != v.hasStart) fail("description", "the start value of variable %s is described wrongly", v.name.c_str());
        if (x.start) {
            const bool same = v.type == REAL ? std::get<double>(*x.start) == v.r : v.type == INTEGER ? std::get<int>(*x.start) == v.i : v.type == BOOLEAN ? std::get<bool>(*x.start) == v.b : std::get<std::string>(*x.start) == v.s;
            if (!same) fail("description", "the start value of variable %s is described wrongly", v.name.c_str());
        }
    }
    if (k != d.variables.size()) fail("description", "there are too many variables in the model description");
}
struct Held // references that the user still has
{
    std::shared_ptr<cosim::file_cache> cache;
    std::shared_ptr<cosim::fmi::importer> importer;
    std::vector<std::shared_ptr<cosim::fmi::fmu>> fmus;
    std::vector<std::shared_ptr<cosim::fmi::slave_instance>> slaves;
    void drop(uint64_t order)
    {
        for (int i = 0; i < 4; ++i, order /= 4) switch ((order + i) % 4) {
                case 0: cache.reset(); break;
                case 1: importer.reset(); break;
                case 2: fmus.clear(); break;
                case 3: slaves.clear(); break;
            }
        cache.reset();
        importer.reset();
        fmus.clear();
        slaves.clear();
    }
};
bool quotes(const std::string& msg, const std::string& m) { return msg.find(m) != std::string::npos; }
// Whether the exception is explained by what was injected
void judge(Sim& sim, const char* what, const std::string& msg)
{
    NoSim n;
    dsim::log("exception in %s", what);
    count("failures reported");
    if (sim.failures.empty()) fail("exception", "%s failed although no FMU did: %s", what, msg.c_str());
    for (const auto& f : sim.failures)
        if (!f.empty() && !quotes(msg, f)) fail("reason", "an FMU failed with the message \"%s\", but the exception says: %s", f.c_str(), msg.c_str());
    for (const auto& m : w->said) {
        if (!quotes(msg, m.text)) continue;
        bool failed = false;
        for (const auto& f : sim.failed) failed |= f == m.name;
        if (!failed || m.sim != &sim) fail("reason", "the exception quotes the message of an FMU instance that has not failed: %s", msg.c_str());
    }
}
Sim& plan(int number)
{
    Sim s;
    s.number = number;
    const int ns = static_cast<int>(1 + draw(4));
    s.steps = static_cast<int>(draw(6));
    static const int64_t STEPS[] = {100000000, 1000000000, 10000000, 333333333};
    s.base = cosim::duration(STEPS[draw(4)]);
    static const double STARTS[] = {0, 1, 0.1, 1000};
    s.t0 = cosim::to_time_point(STARTS[draw(4)]);
    if (draw_bool(60)) s.workers = static_cast<unsigned>(draw(4));
    for (int i = 0; i < ns; ++i) {
        Slave x;
        x.name = "s" + std::to_string(i);
        x.model = static_cast<int>(draw(w->models.size()));
        s.plan.push_back(x);
    }
    s.dropAt = static_cast<unsigned>(draw(3));
    s.dropOrder = draw(256), s.dropDelay = draw(20000), s.delay = draw_bool(50) ? 0 : draw(20000);
    s.observe = draw_bool(60), s.first = draw_bool(50);
    for (int i = static_cast<int>(draw(6)); i > 0; --i) s.links.push_back(draw(1000));
    for (int i = static_cast<int>(draw(4)); i > 0; --i) s.inits.push_back({draw(100), draw(100), draw(100)});
    s.start = cosim::to_double_time_point(s.t0);
    s.step = cosim::to_double_duration(s.base, cosim::time_point());
    NoSim n;
    w->sims.push_back(s);
    return w->sims.back();
}
void simulation(Held& h, Sim& sim, std::vector<std::shared_ptr<cosim::fmi::fmu>>* kept)
{
    const int ns = static_cast<int>(sim.plan.size());
    auto& slaves = sim.plan;
    {
        NoSim n;
        w->current[std::this_thread::get_id()] = &sim;
    }
    const char* what = "import";
    try {
        if (!h.importer) {
            h.cache = std::make_shared<cosim::temporary_file_cache>();
            h.importer = cosim::fmi::importer::create(h.cache);
        }
        std::vector<std::shared_ptr<cosim::fmi::fmu>> fmus(w->models.size());
        for (auto& s : slaves) {
            auto& f = fmus[s.model];
            const bool cs = is_cs(s.model);
            try {
                if (!f) f = w->unpacked[s.model] ? h.importer->import_unpacked(w->files[s.model]) : h.importer->import(w->files[s.model]);
            } catch (const std::exception& e) {
                if (cs) throw;
                count("not for co-simulation");
                return;
            }
            if (!cs) fail("kind", "an FMU that is not for co-simulation was imported");
            check_description(s.model, *f->model_description());
            if (kept) kept->push_back(f);
        }
        what = "instantiation";
        for (auto& s : slaves) {
            bool second = false;
            for (auto& o : slaves) second |= &o < &s && o.model == s.model;
            {
                NoSim n;
                sim.slaves.push_back(s);
            }
            if (second && w->models[s.model].once) {
                bool refused = false;
                try {
                    h.slaves.push_back(fmus[s.model]->instantiate_slave(s.name));
                } catch (const std::exception&) {
                    refused = true;
                }
                NoSim n;
                if (!refused) fail("once", "an FMU that can only be instantiated once was instantiated twice");
                count("second instances refused");
                return;
            }
            h.slaves.push_back(fmus[s.model]->instantiate_slave(s.name));
        }
        h.fmus = std::move(fmus);
        what = "setting up the simulation";
        auto exec = std::make_unique<cosim::execution>(sim.t0, std::make_shared<cosim::fixed_step_algorithm>(sim.base, sim.workers));
        std::vector<cosim::simulator_index> index;
        auto obs = std::make_shared<cosim::last_value_observer>();
        if (sim.observe && sim.first) exec->add_observer(obs);
        for (int i = 0; i < ns; ++i) index.push_back(exec->add_slave(h.slaves[i], slaves[i].name));
        if (sim.observe && !sim.first) exec->add_observer(obs);
        for (const auto& c : sim.links) {
            // the c[1]th of all the possible connections
            int from = 0, to = 0, fv = 0, tv = 0;
            for (int pass = 0, left = -1; pass < 2; ++pass) {
                int n = 0;
                for (int i = 0; i < ns; ++i)
                    for (size_t k = 0; k < w->models[slaves[i].model].vars.size(); ++k)
                        for (int j = 0; j < ns; ++j)
                            for (size_t l = 0; l < w->models[slaves[j].model].vars.size(); ++l) {
                                const auto &x = w->models[slaves[i].model].vars[k], &y = w->models[slaves[j].model].vars[l];
                                if (!is_output(slaves[i].model, x) || !is_input(slaves[j].model, y) || x.type != y.type || x.type == ENUMERATION) continue;
                                if (n++ == left) from = i, fv = static_cast<int>(k), to = j, tv = static_cast<int>(l);
                            }
                if (!n) {
                    from = -1;
                    break;
                }
                left = static_cast<int>(c % n);
            }
            if (from < 0) break;
            const Model &a = w->models[slaves[from].model], &b = w->models[slaves[to].model];
            bool taken = false;
            for (const auto& o : sim.conns) taken |= o.to == to && o.tvar == tv;
            if (taken) continue;
            exec->connect_variables(cosim::variable_id{index[from], vtype(a.vars[fv].type), a.vars[fv].vr}, cosim::variable_id{index[to], vtype(b.vars[tv].type), b.vars[tv].vr});
            NoSim n;
            sim.conns.push_back({from, fv, to, tv});
            count("connections");
        }
        for (const auto& c : sim.inits) {
            const int s = static_cast<int>(c[0] % ns);
            const Model& m = w->models[slaves[s].model];
            const int k = static_cast<int>(c[1] % m.vars.size());
            const Var& v = m.vars[k];
            if (!can_set(slaves[s].model, v) || v.type == ENUMERATION) continue;
            bool taken = false;
            for (const auto& o : sim.conns) taken |= o.to == s && o.tvar == k;
            for (const auto& o : sim.slaves[s].init) taken |= o.var == k;
            if (taken) continue;
            Value x;
            x.r = static_cast<double>(c[2]) / 4;
            x.i = static_cast<int>(c[2]) - 50;
            x.b = c[2] & 1;
            x.s = c[2] ? std::string(c[2], 'z') : "";
            switch (v.type) {
                case REAL: exec->set_real_initial_value(index[s], v.vr, x.r); break;
                case INTEGER: exec->set_integer_initial_value(index[s], v.vr, x.i); break;
                case BOOLEAN: exec->set_boolean_initial_value(index[s], v.vr, x.b); break;
                default: exec->set_string_initial_value(index[s], v.vr, x.s);
            }
            NoSim n;
            sim.slaves[s].init.push_back({k, x});
            count("initial values");
        }
        std::thread dropper;
        if (sim.dropAt == 0)
            h.drop(sim.dropOrder);
        else if (sim.dropAt == 1)
            dropper = std::thread([&] {
                advance(sim.dropDelay);
                h.drop(sim.dropOrder);
            });
        const auto join = [&] {
            if (dropper.joinable()) dropper.join();
        };
        what = "stepping";
        try {
            for (int k = 1; k <= sim.steps; ++k) {
                exec->step();
                NoSim n;
                if (!sim.failures.empty()) fail("no-exception", "slave %s failed, but the step was successful", sim.failed.empty() ? "?" : sim.failed[0].c_str());
                nontrivial();
                if (!sim.observe) continue;
                for (int i = 0; i < ns; ++i) {
                    Inst y;
                    y.model = slaves[i].model;
                    y.name = slaves[i].name;
                    for (const auto& v : w->models[y.model].vars) {
                        if (!is_output(y.model, v) || v.type == ENUMERATION) continue;
                        const Value want = value(y, v.type, v.vr, k);
                        Value got;
                        const cosim::value_reference vr = v.vr;
                        bool b = false;
                        switch (v.type) {
                            case REAL: obs->get_real(index[i], gsl::make_span(&vr, 1), gsl::make_span(&got.r, 1)); break;
                            case INTEGER: obs->get_integer(index[i], gsl::make_span(&vr, 1), gsl::make_span(&got.i, 1)); break;
                            case BOOLEAN:
                                obs->get_boolean(index[i], gsl::make_span(&vr, 1), gsl::make_span(&b, 1));
                                got.b = b;
                                break;
                            default: obs->get_string(index[i], gsl::make_span(&vr, 1), gsl::make_span(&got.s, 1));
                        }
                        if (!same(got, want, v.type)) fail("output", "after step %d, output %s of slave %s is seen as %s instead of %s", k, v.name.c_str(), y.name.c_str(), text(got, v.type).c_str(), text(want, v.type).c_str());
                    }
                }
            }
        } catch (...) {
            join();
            throw;
        }
        join();
    } catch (const std::exception& e) {
        judge(sim, what, e.what());
    }
}
bool empty_dir(const std::string& d)
{
    bool e = true;
    if (DIR* p = opendir(d.c_str())) {
        while (auto x = readdir(p)) e &= x->d_name[0] == '.';
        closedir(p);
    }
    return e;
}
} // namespace

void dsim_setup() { quiet(); }

void dsim_run()
{
    World world;
    w = &world;
    const auto tmp = std::string(scratch()) + "/tmp";
    ::mkdir(tmp.c_str(), 0777);
    setenv("TMPDIR", tmp.c_str(), 1);
    const int nm = static_cast<int>(1 + draw(3));
    for (int i = 0; i < nm; ++i) make_model(i);
    const int rounds = static_cast<int>(1 + draw(3));
    const bool together = draw_bool(40); // the simulations run at the same time
    if (draw_bool(70)) {
        static const unsigned RATES[] = {10000, 60000, 300000, 1000000};
        enable_fault(F_USER, RATES[draw(4)]);
        limit_fault(F_USER, 1 + static_cast<unsigned>(draw(3)));
        w->mask = draw_bool(40) ? ~0u : 1u << draw(13) | 1u << draw(13);
    }
    const bool keep = draw_bool(50);
    if (together)
        for (auto& m : w->models) m.once = false;
    for (int r = 0; r < rounds; ++r) plan(r);
    usual_faults();
    sched_config cfg;
    start(cfg);
    Held h;
    std::vector<std::shared_ptr<cosim::fmi::fmu>> kept;
    if (together) {
        std::vector<std::thread> users;
        for (auto& s : w->sims)
            users.emplace_back([&] {
                advance(s.delay);
                Held own;
                std::vector<std::shared_ptr<cosim::fmi::fmu>> ownKept;
                simulation(own, s, keep ? &ownKept : nullptr);
                own.drop(s.dropOrder);
            });
        for (auto& u : users) u.join();
        if (rounds > 1) count("simulations at the same time");
    } else
        for (auto& s : w->sims) {
            dsim::log("simulation %d", s.number);
            simulation(h, s, keep ? &kept : nullptr);
            h.slaves.clear();
            h.fmus.clear();
            if (!keep) h.drop(0);
        }
    h.drop(0);
    kept.clear();
    NoSim n;
    if (w->imports) fail("leak", "%d FMU objects were not freed", w->imports);
    if (w->contexts) fail("leak", "the FMI Library's context was not freed");
    if (!empty_dir(tmp)) fail("leak", "the directory of an FMU was not removed");
    fold(w->injected);
}
