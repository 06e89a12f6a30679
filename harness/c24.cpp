// C24: connections are made or refused, at any time.
#include "common.hpp"

namespace dsim
{
const char* property_id = "C24";
}
using namespace hx;

void dsim_setup() { quiet(); }

namespace
{
enum Kind
{
    CONNECT,
    DISCONNECT, // with the algorithm's own interface, like RECONNECT
    RECONNECT,
    BAD,
    REMOVE, // a slave, with all its connections (the algorithm's interface, again)
    KINDS
};
enum BadKind
{
    B_TWICE, // another source for an input that has one
    B_TYPE, // source and target of different types
    B_CAUSALITY, // an output as the target, or an input as the source
    B_REFERENCE, // no such variable
    B_ENTITY, // no such slave or function
    B_GROUP, // no such variable of a function
    B_INSTANCE, // no such instance of a variable of a function
    B_IOTYPE, // another type for a variable of a function than it has
    B_ENUM, // variables of a type that is not supported
    B_INITIAL, // initial value given too late, or for an unknown variable
    BADKINDS
};
const char* const badNames[] = {"an input that is already connected", "variables of different types", "variables of wrong causality", "an unknown variable", "an unknown slave or function", "an unknown function variable", "an unknown instance of a function variable", "a function variable said to be of another type", "enumerations", "an initial value"};
struct Request
{
    int kind;
    int conn; // index into the specification
    int bad;
    uint64_t a, b, c; // drawn
};
struct End // one end of a connection, valid or not
{
    bool fun;
    cosim::variable_id v{};
    cosim::function_io_id f{};
};
} // namespace

void dsim_run()
{
    GenOptions o;
    o.maxSims = 4;
    o.connPct = 90;
    Spec sp = generate(o);
    struct Batch
    {
        std::vector<Request> req; // before it
        int kind, n;
    };
    std::vector<Batch> batches(1 + draw(4));
    std::vector<size_t> added(sp.funs.size()); // the batch before which each function is added
    {
        std::vector<int> live, idle, gone;
        std::vector<size_t> when(sp.conns.size());
        for (auto& x : when) x = draw_bool(50) ? 0 : draw(batches.size());
        size_t last = 0;
        for (auto& x : added) {
            if (draw_bool(30)) last = std::max<size_t>(last, draw(batches.size()));
            x = last;
        }
        for (size_t k = 0; k < when.size(); ++k) {
            const auto& c = sp.conns[k];
            if (c.fromFun) when[k] = std::max(when[k], added[static_cast<size_t>(c.src)]);
            if (c.toFun) when[k] = std::max(when[k], added[static_cast<size_t>(c.dst)]);
        }
        const size_t removal = draw_bool(30) ? draw(batches.size()) : batches.size();
        for (size_t b = 0; b < batches.size(); ++b) {
            batches[b].kind = static_cast<int>(draw(3));
            batches[b].n = static_cast<int>(1 + draw(6));
            for (size_t k = 0; k < when.size(); ++k)
                if (when[k] == b) {
                    batches[b].req.push_back({CONNECT, static_cast<int>(k), 0, 0, 0, 0});
                    live.push_back(static_cast<int>(k));
                }
            const size_t changes = draw(4);
            for (size_t k = 0; k < changes; ++k) {
                const bool again = draw_bool(50);
                auto& from = again ? gone : live;
                if (from.empty()) continue;
                const auto i = draw(from.size());
                batches[b].req.push_back({again ? RECONNECT : DISCONNECT, from[i], 0, 0, 0, 0});
                (again ? live : gone).push_back(from[i]);
                from.erase(from.begin() + static_cast<std::ptrdiff_t>(i));
            }
            if (b == removal) batches[b].req.insert(batches[b].req.begin() + static_cast<std::ptrdiff_t>(draw(batches[b].req.size() + 1)), {REMOVE, 0, 0, draw(sp.sims.size()), 0, 0});
            const size_t bad = draw(5);
            for (size_t k = 0; k < bad; ++k) {
                auto& r = batches[b].req;
                Request x{BAD, 0, static_cast<int>(draw(BADKINDS)), draw(1000), draw(1000), draw(1000)};
                r.insert(r.begin() + static_cast<std::ptrdiff_t>(draw(r.size() + 1)), x);
            }
        }
    }
    usual_faults();
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    start(cfg);
    {
        NoSim n;
        dsim::log("%s", describe(sp).c_str());
    }
    System sys(sp);
    for (size_t i = 0; i < sp.sims.size(); ++i) sys.add_slave(i);
    for (const auto& i : sp.inits) sys.init_value(i);
    if (sp.sims.size() > 1 || !sp.conns.empty()) nontrivial();
    RefModel ref(sp);
    ref.conns.clear();
    const auto funs = ref.funs;
    ref.funs.clear();
    bool started = false;
    std::vector<bool> requested(sp.conns.size());
    auto& ex = *sys.exec;

    // The ends that exist
    std::vector<End> ins, outs;
    for (size_t i = 0; i < sp.sims.size(); ++i) {
        for (const auto& v : sp.sims[i].in) ins.push_back({false, {static_cast<int>(i), static_cast<variable_type>(v.type), v.ref}, {}});
        for (const auto& v : sp.sims[i].out) outs.push_back({false, {static_cast<int>(i), static_cast<variable_type>(v.type), v.ref}, {}});
    }
    for (size_t i = 0; i < sp.funs.size(); ++i) {
        for (const auto& v : sp.funs[i].in) ins.push_back({true, {}, {static_cast<int>(i), static_cast<variable_type>(v.type), {0, 0, v.type, v.io}}});
        for (const auto& v : sp.funs[i].out) outs.push_back({true, {}, {static_cast<int>(i), static_cast<variable_type>(v.type), {1, 0, v.type, v.io}}});
    }
    const auto type = [](const End& e) { return e.fun ? e.f.type : e.v.type; };
    const auto in_end = [&](const Conn& c) { return c.toFun ? End{true, {}, sys.fin_id(c)} : End{false, sys.in_id(c), {}}; };
    const auto connected = [&](const End& e) {
        for (size_t k = 0; k < sp.conns.size(); ++k)
            if (requested[k]) {
                const auto x = in_end(sp.conns[k]);
                if (x.fun == e.fun && (e.fun ? x.f == e.f : x.v == e.v)) return true;
            }
        return false;
    };
    // Asks for a connection that must be refused; returns false if the request makes no sense here
    const auto bad_request = [&](const Request& r, bool& refused) -> bool {
        End s, t;
        {
            NoSim n;
            if (r.bad == B_INITIAL) {
                if (started ? ins.empty() : sp.sims.empty()) return false;
            } else {
                if (ins.empty() || outs.empty()) return false;
                s = outs[r.a % outs.size()];
                t = ins[r.b % ins.size()];
            }
            const auto find = [&](const std::vector<End>& v, uint64_t from, auto ok) -> const End* {
                for (size_t k = 0; k < v.size(); ++k)
                    if (ok(v[(from + k) % v.size()])) return &v[(from + k) % v.size()];
                return nullptr;
            };
            const End* p = nullptr;
            switch (r.bad) {
                case B_TWICE:
                    if (!(p = find(ins, r.b, connected))) return false;
                    t = *p;
                    if (!(p = find(outs, r.a, [&](const End& e) { return type(e) == type(t) && !(e.fun && t.fun); }))) return false;
                    s = *p;
                    break;
                case B_TYPE:
                    if (!(p = find(ins, r.b, [&](const End& e) { return type(e) != type(s) && !(e.fun && s.fun) && !connected(e); }))) return false;
                    t = *p;
                    break;
                case B_CAUSALITY:
                    if (r.c % 2) {
                        if (!(p = find(outs, r.b, [&](const End& e) { return type(e) == type(s) && !(e.fun && s.fun); }))) return false;
                        t = *p;
                    } else {
                        if (!(p = find(ins, r.a, [&](const End& e) { return type(e) == type(t) && !(e.fun && t.fun); }))) return false;
                        s = *p;
                    }
                    break;
                case B_REFERENCE:
                case B_ENTITY: {
                    if (!(p = find(ins, r.b, [&](const End& e) { return type(e) == type(s) && !(e.fun && s.fun) && !connected(e); }))) return false;
                    t = *p;
                    auto& x = r.c % 2 ? s : t;
                    if (r.bad == B_REFERENCE) {
                        if (x.fun) return false;
                        x.v.reference += 1000;
                    } else if (x.fun)
                        x.f.function = r.c % 4 < 2 ? -1 : static_cast<int>(sp.funs.size() + r.c / 4 % 3);
                    else
                        x.v.simulator = r.c % 4 < 2 ? -1 : static_cast<int>(sp.sims.size() + r.c / 4 % 3);
                    break;
                }
                case B_GROUP:
                case B_INSTANCE:
                case B_IOTYPE: {
                    if (r.c % 2) {
                        if (!(p = find(outs, r.a, [&](const End& e) { return e.fun; }))) return false;
                        s = *p;
                        if (!(p = find(ins, r.b, [&](const End& e) { return !e.fun && type(e) == type(s) && !connected(e); }))) return false;
                        t = *p;
                    } else {
                        if (!(p = find(ins, r.b, [&](const End& e) { return e.fun && !connected(e); }))) return false;
                        t = *p;
                        if (!(p = find(outs, r.a, [&](const End& e) { return !e.fun && type(e) == type(t); }))) return false;
                        s = *p;
                    }
                    auto& x = (r.c % 2 ? s : t).f;
                    if (r.bad == B_GROUP)
                        (r.c % 4 < 2 ? x.reference.group : x.reference.io) = r.c % 8 < 4 ? -1 : 4 + static_cast<int>(r.c / 8 % 3);
                    else if (r.bad == B_INSTANCE) {
                        if (r.c % 4 < 2)
                            x.reference.group_instance = r.c % 8 < 4 ? -1 : 1;
                        else
                            x.reference.io_instance = r.c % 8 < 4 ? -1 : 8;
                    } else {
                        x.reference.io = (x.reference.io + 1 + static_cast<int>(r.c / 4 % 3)) % 4; // says its old type
                    }
                    break;
                }
                case B_ENUM: {
                    int a = -1, b = -1;
                    for (size_t i = 0; i < sp.sims.size(); ++i) {
                        if (sp.sims[i].enums == 1) a = static_cast<int>(i);
                        if (sp.sims[i].enums == 2) b = static_cast<int>(i);
                    }
                    if (a < 0 || b < 0) return false;
                    s = {false, {a, variable_type::enumeration, 0}, {}};
                    t = {false, {b, variable_type::enumeration, 0}, {}};
                    break;
                }
                default: break;
            }
        }
        try {
            if (r.bad == B_INITIAL) {
                auto sim = static_cast<int>(r.a % sp.sims.size());
                value_reference v = 2000;
                auto ty = static_cast<int>(r.b % 4);
                if (started) {
                    const End* e = nullptr;
                    for (const auto& x : ins)
                        if (!x.fun) e = &x;
                    if (!e) return false;
                    sim = e->v.simulator;
                    v = e->v.reference;
                    ty = static_cast<int>(e->v.type);
                }
                switch (ty) {
                    case 0: ex.set_real_initial_value(sim, v, 1234.5); break;
                    case 1: ex.set_integer_initial_value(sim, v, 12345); break;
                    case 2: ex.set_boolean_initial_value(sim, v, true); break;
                    default: ex.set_string_initial_value(sim, v, "never"); break;
                }
            } else if (s.fun) {
                ex.connect_variables(s.f, t.v);
            } else if (t.fun) {
                ex.connect_variables(s.v, t.f);
            } else {
                ex.connect_variables(s.v, t.v);
            }
        } catch (const std::exception& e) {
            NoSim n;
            dsim::log("refused: %s", e.what());
            refused = true;
        }
        return true;
    };

    const auto removed = [&](const Conn& c) {
        return (!c.fromFun && ref.sims[static_cast<size_t>(c.src)].removed) || (!c.toFun && ref.sims[static_cast<size_t>(c.dst)].removed);
    };
    for (const auto& b : batches) {
        for (size_t i = 0; i < sp.funs.size(); ++i)
            if (&b == &batches[added[i]]) {
                sys.add_function(i);
                ref.funs.push_back(funs[i]);
                if (started) count("functions added during the simulation");
            }
        for (const auto& r : b.req) {
            const auto& c = sp.conns.empty() ? Conn{} : sp.conns[static_cast<size_t>(r.conn)];
            switch (r.kind) {
                case REMOVE:
                    sys.algo->remove_simulator(static_cast<int>(r.a));
                    ref.remove(r.a);
                    count(started ? "slaves removed during the simulation" : "slaves removed before the simulation");
                    break;
                case CONNECT:
                    if (removed(c)) {
                        bool refused = false;
                        try {
                            sys.connect(c);
                        } catch (const std::exception&) {
                            refused = true;
                        }
                        if (!refused) fail("accepted", "a connection with a slave that has been removed was not refused");
                        count("connections with a removed slave");
                        break;
                    }
                    try {
                        sys.connect(c);
                    } catch (const std::exception& e) {
                        NoSim n;
                        fail("refused", "a valid connection was refused: %s", e.what());
                    }
                    requested[static_cast<size_t>(r.conn)] = true;
                    ref.conns.push_back(c);
                    count(started ? "connections during the simulation" : "connections before the simulation");
                    break;
                case DISCONNECT: {
                    if (c.toFun)
                        sys.algo->disconnect_variable(sys.fin_id(c));
                    else
                        sys.algo->disconnect_variable(sys.in_id(c));
                    NoSim n;
                    for (size_t k = 0; k < ref.conns.size(); ++k) {
                        const auto& x = ref.conns[k];
                        if (x.toFun == c.toFun && x.dst == c.dst && x.dstVar == c.dstVar) {
                            ref.conns.erase(ref.conns.begin() + static_cast<std::ptrdiff_t>(k));
                            break;
                        }
                    }
                    count("disconnections");
                    break;
                }
                case RECONNECT:
                    if (removed(c)) break;
                    if (c.fromFun)
                        sys.algo->connect_variables(sys.fout_id(c), sys.in_id(c));
                    else if (c.toFun)
                        sys.algo->connect_variables(sys.out_id(c), sys.fin_id(c));
                    else
                        sys.algo->connect_variables(sys.out_id(c), sys.in_id(c));
                    ref.conns.push_back(c);
                    count("connections made again");
                    break;
                default: {
                    bool refused = false;
                    if (!bad_request(r, refused)) break;
                    if (!refused) fail("accepted", "a request that makes no sense was not refused: %s%s", badNames[r.bad], started ? ", during the simulation" : "");
                    count(badNames[r.bad]);
                }
            }
        }
        try {
            if (b.kind == 0)
                for (int i = 0; i < b.n; ++i) ex.step();
            else {
                const auto target = ex.current_time() + sp.base * b.n;
                const bool r = b.kind == 1 ? ex.simulate_until(target) : ex.simulate_until_async(target).get();
                if (!r) fail("stopped", "the run was reported as stopped");
            }
        } catch (const std::exception& e) {
            NoSim n;
            fail("exception", "the simulation failed: %s", e.what());
        }
        NoSim n;
        if (!started) ref.initialize();
        started = true;
        for (int i = 0; i < b.n; ++i) ref.step();
        check_slave_histories(sys.slaves, ref, sp);
    }
}
