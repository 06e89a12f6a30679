// C21: loading a system (OSP or SSP configuration) is faithful or fails.
#include "cosim/osp_config_parser.hpp"
#include "cosim/ssp/ssp_loader.hpp"

#include "../stub/fake_fmilib.hpp"
#include "common.hpp"
#include "ziputil.hpp"

#include <dirent.h>
#include <sys/stat.h>

#include <fstream>
#include <functional>
#include <thread>

const char* dsim::property_id = "C21";
using namespace hx;
void dsim_setup() { quiet(); }

namespace fake // no FMUs here
{
const Model* parse(int, const char*, std::string& error)
{
    error = "no FMU";
    return nullptr;
}
void parsed(Import&) {}
int call(Import&, Fn, Args&) { return 0; }
void context(int) {}
} // namespace fake

namespace
{
// ---- what is described -------------------------------------------------------------
struct Group
{
    std::string name;
    const char* tag = "Generic";
    std::vector<std::string> vars;
    std::vector<Group> children;
};
struct Invalid
{
    enum Kind
    {
        NONE,
        TRUNCATED, // one of the files ends early
        NO_FILE, // there is no such configuration
        NO_RESOLVER, // nobody knows a model
        RESOLVER_THROWS,
        BAD_VARIABLE, // a connection of a variable that does not exist
        BAD_TYPE, // a connection of variables of different types
        BAD_DIRECTION, // a connection of two outputs
        BAD_ENTITY, // a connection of an entity that does not exist
        TWICE, // an input connected twice
        DUPLICATE, // two entities of the same name
        BAD_GROUP, // a connection of variable groups that do not exist
        GROUP_SIZE, // a connection of variable groups of different sizes
        BAD_STEP, // a negative or zero base step size
        BAD_END, // the end precedes the start
        BAD_INIT, // an initial value of a variable that does not exist
        BAD_INIT_TYPE, // an initial value of the wrong type
        OPEN_FUNCTION, // a function that is not connected
        INSTANTIATE, // a slave cannot be created
        NO_PARAMETERS, // the file with the parameters is missing
        BAD_SIGNAL, // a connection of a function or signal that does not exist
        ENUMERATION, // something of a type that is not supported
        SCHEMA, // something that is not in the schema
        NUMBER, // something that is no (meaningful) number
        KINDS
    };
};
struct Param
{
    int sim, var; // var -1: to be ignored
    std::string name; // of the variable
    scalar_value v;
};
struct PSet
{
    std::string name;
    int comp;
    std::string file, ref; // the file (empty: inline), and the reference to it as written
    std::vector<Param> params;
};
struct Config
{
    int index = 0;
    Spec sp;
    bool ssp = false;
    int form = 0; // OSP: 0 directory, 1 file, 2 file of another name; SSP: 0 directory, 1 file, 2 archive; 3 archive with another .ssd
    std::string dir, path, ssdName;
    std::vector<std::string> funNames;
    std::vector<int> modelOf; // per sim
    std::vector<std::string> modelName, modelSrc, modelPath; // name in the description, reference as written, path it resolves to (SSP archives: relative)
    std::vector<bool> descBeside;
    std::vector<std::vector<Group>> groups; // per model
    std::vector<PSet> psets; // SSP
    std::string useSet;
    std::optional<double> endTime;
    double baseD = 0, startD = 0;
    bool ownAlgorithm = true, startGiven = true;
    int invalid = 0;
    int victim = 0; // sim or model concerned
    std::map<std::string, std::string> files; // relative to dir
};

std::string esc(const std::string& s)
{
    std::string r;
    for (char c : s) switch (c) {
            case '&': r += "&amp;"; break;
            case '<': r += "&lt;"; break;
            case '>': r += "&gt;"; break;
            case '"': r += "&quot;"; break;
            case '\'': r += "&apos;"; break;
            default: r += c;
        }
    return r;
}
std::string num(double d)
{
    char b[40];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
std::string secs(duration d) { return num((static_cast<double>(d.count()) + 0.4) * 1e-9); }
std::string enc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (isalnum(c) || strchr("-._~/", c)) {
            r += static_cast<char>(c);
        } else {
            char b[8];
            snprintf(b, sizeof b, "%%%02X", c);
            r += b;
        }
    }
    return r;
}
std::string dec(std::string_view s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) {
            r += static_cast<char>(std::stoi(std::string(s.substr(i + 1, 2)), nullptr, 16));
            i += 2;
        } else
            r += s[i];
    }
    return r;
}
std::string odd_name(const std::string& base)
{
    static const char* const t[] = {"", "", "", " 1", "&b", "<c>", "'d", "\"e", ".f[1]", ":g", "/h"};
    return base + t[draw(11)];
}
std::string typed(const char* prefix, const scalar_value& v)
{
    std::string val = show(v);
    if (v.index() == 3) val = esc(std::get<3>(v));
    if (v.index() == 2 && std::get<2>(v) && draw_bool(30)) val = "1";
    if (v.index() == 2 && !std::get<2>(v) && draw_bool(30)) val = "0";
    static const char* const n[] = {"Real", "Integer", "Boolean", "String"};
    return std::string("<") + prefix + n[v.index()] + " value=\"" + val + "\"/>";
}
std::string fun_port(const FunSpec& f, bool out, size_t k) // as named in an OSP configuration
{
    if (f.kind == 1) return out ? "out" : "in";
    if (f.kind == 2) return out ? "out" : "in[" + std::to_string(k) + "]";
    return out ? "out" : "in[" + std::to_string(k) + "]"; // group
}
template<typename T>
void shuffle(std::vector<T>& v)
{
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[draw(i)]);
}

// ---- generation -----------------------------------------------------------------------
struct Gen
{
    Config& c;
    Spec& sp;
    bool wantEnum = false;
    std::vector<std::vector<bool>> taken; // inputs that are connected
    std::vector<std::vector<std::pair<int, int>>> rankOf; // per input: sources' ranks

    explicit Gen(Config& cfg)
        : c(cfg)
        , sp(cfg.sp)
    { }

    bool can(size_t i, size_t k) const { return !taken[i][k] && !sp.sims[i].in[k].parameter; }
    void add(bool fromFun, int src, int sv, bool toFun, int dst, int dv)
    {
        Conn cn;
        cn.fromFun = fromFun;
        cn.toFun = toFun;
        cn.src = src;
        cn.srcVar = sv;
        cn.dst = dst;
        cn.dstVar = dv;
        sp.conns.push_back(cn);
        if (!toFun) taken[static_cast<size_t>(dst)][static_cast<size_t>(dv)] = true;
    }
    void system()
    {
        GenOptions o;
        o.maxFuns = 0;
        o.connPct = 0;
        o.maxVars = 3;
        o.maxSims = 4;
        sp = generate(o);
        if (draw_bool(5)) { // to be connected
            sp.sims.front().enums = 1;
            sp.sims.back().enums = sp.sims.size() > 1 ? 2 : 1;
            wantEnum = true;
        }
        sp.funs.clear();
        sp.conns.clear();
        sp.inits.clear();
        static const double bases[] = {0.1, 0.001, 1, 0.25, 1e-4, 0.033};
        c.baseD = bases[draw(6)];
        sp.base = duration(static_cast<int64_t>(c.baseD * 1e9));
        c.startD = draw_bool(40) ? static_cast<double>(draw_range(0, 40)) * 0.25 : 0.0;
        sp.start = time_point(duration(static_cast<int64_t>(c.startD * 1e9)));
        if (draw_bool(40)) c.endTime = c.startD + static_cast<double>(draw(9)) * 0.5;
        std::set<std::string> used;
        for (size_t i = 0; i < sp.sims.size(); ++i) {
            auto& m = sp.sims[i];
            m.stepCost = 0;
            m.name = odd_name("slave" + std::to_string(i));
            m.hint = duration(0);
            m.df = 1;
            if (draw_bool(60)) {
                m.df = static_cast<int>(draw_range(1, 3));
                m.hint = sp.base * m.df;
                if (draw_bool(20)) m.hint += sp.base / 3;
            } else if (draw_bool(20)) {
                m.hint = sp.base / 2;
            }
            // several instances of one model
            int model = static_cast<int>(c.modelName.size());
            if (i && draw_bool(25)) {
                const size_t j = draw(i);
                m.in = sp.sims[j].in;
                m.out = sp.sims[j].out;
                m.enums = sp.sims[j].enums;
                model = c.modelOf[j];
            } else {
                for (auto* vs : {&m.in, &m.out})
                    for (auto& v : *vs) {
                        v.name = odd_name(v.name);
                        if (draw_bool(15)) v.parameter = 1;
                    }
                c.modelName.push_back(odd_name("model" + std::to_string(c.index) + std::to_string(model)));
                for (auto& ch : c.modelName.back())
                    if (ch == '/') ch = '_';
                c.groups.emplace_back();
            }
            c.modelOf.push_back(model);
            m.ft.assign(m.out.size(), {});
        }
        taken.resize(sp.sims.size());
        for (size_t i = 0; i < sp.sims.size(); ++i) taken[i].assign(sp.sims[i].in.size(), false);
        functions();
        connections();
        // feed-through: only along increasing ranks, so that there are no loops
        for (size_t i = 0; i < sp.sims.size(); ++i) {
            std::vector<int> ok;
            for (size_t k = 0; k < sp.sims[i].in.size(); ++k) {
                bool fwd = true;
                for (const auto& cn : sp.conns) {
                    if (cn.toFun || cn.dst != static_cast<int>(i) || cn.dstVar != static_cast<int>(k)) continue;
                    if (!cn.fromFun) {
                        if (cn.src >= static_cast<int>(i)) fwd = false;
                    } else {
                        for (const auto& c2 : sp.conns)
                            if (c2.toFun && c2.dst == cn.src && c2.src >= static_cast<int>(i)) fwd = false;
                    }
                }
                if (fwd) ok.push_back(static_cast<int>(k));
            }
            for (auto& f : sp.sims[i].ft)
                for (int k : ok)
                    if (draw_bool(30)) f.push_back(k);
        }
    }
    std::vector<int> reals(size_t i, bool out, bool freeOnly) const
    {
        std::vector<int> r;
        const auto& vs = out ? sp.sims[i].out : sp.sims[i].in;
        for (size_t k = 0; k < vs.size(); ++k)
            if (vs[k].type == 0 && (out || (!freeOnly || can(i, k)))) r.push_back(static_cast<int>(k));
        return r;
    }
    std::vector<std::pair<int, std::string>> unusedGroups;
    struct GConn // connection of a group with a group port of a function
    {
        int fun;
        std::string port;
        int sim;
        std::string group;
    };
    std::vector<GConn> gconns;
    int groupNo = 0;
    std::string add_group(int sim, std::vector<std::string> vars)
    {
        Group g;
        g.name = odd_name("g" + std::to_string(groupNo++));
        g.vars = std::move(vars);
        c.groups[static_cast<size_t>(c.modelOf[static_cast<size_t>(sim)])].push_back(g);
        return g.name;
    }
    void functions()
    {
        const int n = static_cast<int>(draw(4));
        for (int f = 0; f < n; ++f) {
            FunSpec fs;
            fs.kind = c.ssp ? 1 : static_cast<int>(1 + draw(3));
            fs.factor = draw_bool(70) ? static_cast<double>(draw_range(-12, 12)) * 0.25 : 1.0;
            fs.offset = draw_bool(70) ? static_cast<double>(draw_range(-100, 100)) * 0.5 : 0.0;
            if (fs.kind > 1) fs.count = static_cast<int>(1 + draw(3));
            if (fs.kind == 3) fs.dim = static_cast<int>(1 + draw(3));
            // sources and targets
            std::vector<std::vector<std::pair<int, int>>> src, dst;
            for (int i = 0; i < fs.count; ++i) {
                std::vector<std::vector<std::pair<int, int>>> cand;
                for (size_t s = 0; s < sp.sims.size(); ++s) {
                    auto r = reals(s, true, false);
                    if (static_cast<int>(r.size()) < fs.dim) continue;
                    shuffle(r);
                    std::vector<std::pair<int, int>> v;
                    for (int j = 0; j < fs.dim; ++j) v.push_back({static_cast<int>(s), r[static_cast<size_t>(j)]});
                    cand.push_back(v);
                }
                if (cand.empty()) break;
                src.push_back(cand[draw(cand.size())]);
            }
            if (static_cast<int>(src.size()) < fs.count) continue;
            const size_t fan = c.ssp ? 1 : draw_bool(25) ? 2 : 1;
            for (size_t t = 0; t < fan; ++t) {
                std::vector<std::vector<std::pair<int, int>>> cand;
                for (size_t s = 0; s < sp.sims.size(); ++s) {
                    auto r = reals(s, false, true);
                    if (static_cast<int>(r.size()) < fs.dim) continue;
                    shuffle(r);
                    std::vector<std::pair<int, int>> v;
                    for (int j = 0; j < fs.dim; ++j) v.push_back({static_cast<int>(s), r[static_cast<size_t>(j)]});
                    cand.push_back(v);
                }
                if (cand.empty()) break;
                dst.push_back(cand[draw(cand.size())]);
                for (const auto& p : dst.back()) taken[static_cast<size_t>(p.first)][static_cast<size_t>(p.second)] = true;
            }
            if (dst.empty()) continue;
            const int fi = static_cast<int>(sp.funs.size());
            for (int k = 0; k < fs.count * fs.dim; ++k) {
                Var v;
                v.type = 0;
                v.start = 0.0;
                fs.in.push_back(v);
            }
            for (int k = 0; k < fs.dim; ++k) {
                Var v;
                v.type = 0;
                v.start = 0.0;
                fs.out.push_back(v);
            }
            for (int i = 0; i < fs.count; ++i) {
                for (int j = 0; j < fs.dim; ++j) add(false, src[static_cast<size_t>(i)][static_cast<size_t>(j)].first, src[static_cast<size_t>(i)][static_cast<size_t>(j)].second, true, fi, i * fs.dim + j);
                if (fs.kind == 3) {
                    const int s = src[static_cast<size_t>(i)][0].first;
                    std::vector<std::string> vars;
                    for (const auto& p : src[static_cast<size_t>(i)]) vars.push_back(sp.sims[static_cast<size_t>(s)].out[static_cast<size_t>(p.second)].name);
                    gconns.push_back({fi, fun_port(fs, false, static_cast<size_t>(i)), s, add_group(s, vars)});
                }
            }
            for (const auto& d : dst) {
                std::vector<std::string> vars;
                for (int j = 0; j < fs.dim; ++j) {
                    add(true, fi, j, false, d[static_cast<size_t>(j)].first, d[static_cast<size_t>(j)].second);
                    vars.push_back(sp.sims[static_cast<size_t>(d[0].first)].in[static_cast<size_t>(d[static_cast<size_t>(j)].second)].name);
                }
                if (fs.kind == 3) gconns.push_back({fi, "out", d[0].first, add_group(d[0].first, vars)});
            }
            sp.funs.push_back(fs);
            c.funNames.push_back(odd_name("fun" + std::to_string(fi)));
        }
    }
    void connections()
    {
        struct S
        {
            int e, v;
        };
        std::vector<S> srcs[4];
        for (size_t i = 0; i < sp.sims.size(); ++i)
            for (size_t k = 0; k < sp.sims[i].out.size(); ++k) srcs[sp.sims[i].out[k].type].push_back({static_cast<int>(i), static_cast<int>(k)});
        for (size_t i = 0; i < sp.sims.size(); ++i)
            for (size_t k = 0; k < sp.sims[i].in.size(); ++k) {
                const auto& cand = srcs[sp.sims[i].in[k].type];
                if (!can(i, k) || cand.empty() || !draw_bool(70)) continue;
                const auto& s = cand[draw(cand.size())];
                add(false, s.e, s.v, false, static_cast<int>(i), static_cast<int>(k));
            }
    }
    // Distributes pairs of variables over two groups of the same form
    static void split(Group& a, Group& b, std::vector<std::pair<std::string, std::string>> pairs, int depth, int& no, bool sameNames)
    {
        const size_t kids = depth < 3 && pairs.size() > 1 && draw_bool(40) ? 1 + draw(2) : 0;
        for (size_t k = 0; k < kids && !pairs.empty(); ++k) {
            const size_t n = 1 + draw(pairs.size());
            std::vector<std::pair<std::string, std::string>> sub(pairs.end() - static_cast<long>(n), pairs.end());
            pairs.resize(pairs.size() - n);
            Group x, y;
            x.name = sameNames ? "part" + std::to_string(k) : "n" + std::to_string(no++);
            y.name = sameNames ? "part" + std::to_string(k) : "n" + std::to_string(no++);
            split(x, y, sub, depth + 1, no, sameNames);
            a.children.push_back(x);
            b.children.push_back(y);
        }
        for (const auto& p : pairs) {
            a.vars.push_back(p.first);
            b.vars.push_back(p.second);
        }
    }

    // ---- files --------------------------------------------------------------------------
    std::string var_end(const char* tag, const std::string& sim, const std::string& name) { return std::string("<") + tag + " simulator=\"" + esc(sim) + "\" name=\"" + esc(name) + "\"/>"; }
    static void put_group(std::string& t, const Group& g)
    {
        t += std::string("<") + g.tag + " name=\"" + esc(g.name) + "\">\n";
        for (const auto& x : g.children) put_group(t, x);
        for (const auto& v : g.vars) t += "<Variable ref=\"" + esc(v) + "\"/>\n";
        t += std::string("</") + g.tag + ">\n";
    }
    void models(bool archive)
    {
        for (size_t m = 0; m < c.modelName.size(); ++m) {
            static const char* const dirs[] = {"", "models/", "my models/", "../shared/", "abs"};
            static const char* const ENDS[] = {".mock", ".mock", " ab", "%xy", " \xc3\xa5", ""};
            std::string d = dirs[draw(archive ? 3 : 5)];
            const std::string file = odd_name("m" + std::to_string(m)) + ENDS[draw(6)];
            std::string f = file;
            for (auto& ch : f)
                if (ch == '/' || ch == ':') ch = '_';
            const size_t slash = c.dir.rfind('/');
            if (d == "abs") {
                const std::string p = c.dir.substr(0, slash) + "/elsewhere/" + f;
                c.modelSrc.push_back("file://" + std::string(draw_bool(30) ? "localhost" : "") + enc(p));
                c.modelPath.push_back(p);
            } else {
                c.modelSrc.push_back(enc(d + f));
                if (archive)
                    c.modelPath.push_back("/" + d + f);
                else if (d == "../shared/")
                    c.modelPath.push_back(c.dir.substr(0, slash) + "/shared/" + f);
                else
                    c.modelPath.push_back(c.dir + "/" + d + f);
            }
            c.descBeside.push_back(draw_bool(50));
        }
    }
    void osp()
    {
        models(false);
        // models of the same name in different directories, each with a description of its own
        auto dir_of = [&](size_t m) { return c.modelPath[m].substr(0, c.modelPath[m].rfind('/')); };
        for (size_t m = 1; m < c.modelName.size(); ++m) {
            if (!draw_bool(30)) continue;
            const size_t j = draw(m);
            bool ok = true;
            for (size_t i = 0; i < c.modelName.size(); ++i) ok &= i == m || c.modelName[i] != c.modelName[j] || dir_of(i) != dir_of(m);
            if (!ok) continue;
            c.modelName[m] = c.modelName[j];
            c.descBeside[m] = c.descBeside[j] = true;
            count("models of the same name");
        }
        std::vector<std::string> conns;
        std::vector<bool> grouped(sp.conns.size(), false);
        int no = 0;
        // groups
        for (size_t a = 0; a < sp.sims.size(); ++a)
            for (size_t b = a; b < sp.sims.size(); ++b) {
                if (!draw_bool(50)) continue;
                std::vector<std::pair<std::string, std::string>> pairs;
                for (size_t k = 0; k < sp.conns.size(); ++k) {
                    const auto& cn = sp.conns[k];
                    if (cn.fromFun || cn.toFun || !draw_bool(70)) continue;
                    const size_t s = static_cast<size_t>(cn.src), d = static_cast<size_t>(cn.dst);
                    const auto& sn = sp.sims[s].out[static_cast<size_t>(cn.srcVar)].name;
                    const auto& dn = sp.sims[d].in[static_cast<size_t>(cn.dstVar)].name;
                    if (s == a && d == b)
                        pairs.push_back({sn, dn});
                    else if (s == b && d == a)
                        pairs.push_back({dn, sn});
                    else
                        continue;
                    grouped[k] = true;
                }
                if (pairs.empty()) continue;
                shuffle(pairs);
                Group x, y;
                x.name = odd_name("g" + std::to_string(groupNo++));
                y.name = odd_name("g" + std::to_string(groupNo++));
                split(x, y, pairs, 0, no, draw_bool(40));
                std::string xn = x.name, yn = y.name;
                // referred to directly, or as a part of something else
                auto& ga = c.groups[static_cast<size_t>(c.modelOf[a])];
                if (draw_bool(30)) {
                    Group outer;
                    outer.name = "outer" + std::to_string(no++);
                    outer.children.push_back(x);
                    if (draw_bool(50)) {
                        Group more;
                        more.name = "more" + std::to_string(no++);
                        more.children.push_back(outer);
                        outer = more;
                    }
                    ga.push_back(outer);
                } else
                    ga.push_back(x);
                c.groups[static_cast<size_t>(c.modelOf[b])].push_back(y);
                count("variable groups connected");
                if (!x.children.empty()) count("nested variable groups connected");
                conns.push_back("<VariableGroupConnection>" + var_end("VariableGroup", sp.sims[a].name, xn) + var_end("VariableGroup", sp.sims[b].name, yn) + "</VariableGroupConnection>");
            }
        for (auto& gs : c.groups) { // something that is not connected
            if (draw_bool(30)) {
                Group d;
                d.name = "do not connect";
                Group e;
                e.name = "part0";
                d.children.push_back(e);
                gs.push_back(d);
            }
            shuffle(gs);
        }
        for (const auto& g : gconns) {
            const std::string a = "<SignalGroup function=\"" + esc(c.funNames[static_cast<size_t>(g.fun)]) + "\" name=\"" + g.port + "\"/>", b = var_end("VariableGroup", sp.sims[static_cast<size_t>(g.sim)].name, g.group);
            conns.push_back("<SignalGroupConnection>" + (draw_bool(50) ? a + b : b + a) + "</SignalGroupConnection>");
        }
        std::string open; // a function port to be left open
        for (size_t k = 0; k < sp.conns.size(); ++k) {
            const auto& cn = sp.conns[k];
            if (grouped[k]) continue;
            if (!cn.fromFun && !cn.toFun) {
                const auto a = var_end("Variable", sp.sims[static_cast<size_t>(cn.src)].name, sp.sims[static_cast<size_t>(cn.src)].out[static_cast<size_t>(cn.srcVar)].name);
                const auto b = var_end("Variable", sp.sims[static_cast<size_t>(cn.dst)].name, sp.sims[static_cast<size_t>(cn.dst)].in[static_cast<size_t>(cn.dstVar)].name);
                conns.push_back("<VariableConnection>" + (draw_bool(50) ? a + b : b + a) + "</VariableConnection>");
            } else {
                const int f = cn.fromFun ? cn.src : cn.dst;
                const auto& fs = sp.funs[static_cast<size_t>(f)];
                if (fs.kind == 3) continue;
                if (c.invalid == Invalid::OPEN_FUNCTION && open.empty()) open = std::to_string(f) + (cn.fromFun ? "o" : "i") + std::to_string(cn.fromFun ? 0 : cn.dstVar);
                if (std::to_string(f) + (cn.fromFun ? "o" : "i") + std::to_string(cn.fromFun ? 0 : cn.dstVar) == open) continue;
                const std::string a = "<Signal function=\"" + esc(c.funNames[static_cast<size_t>(f)]) + "\" name=\"" + fun_port(fs, cn.fromFun, static_cast<size_t>(cn.dstVar)) + "\"/>";
                const std::string b = cn.fromFun ? var_end("Variable", sp.sims[static_cast<size_t>(cn.dst)].name, sp.sims[static_cast<size_t>(cn.dst)].in[static_cast<size_t>(cn.dstVar)].name)
                                                 : var_end("Variable", sp.sims[static_cast<size_t>(cn.src)].name, sp.sims[static_cast<size_t>(cn.src)].out[static_cast<size_t>(cn.srcVar)].name);
                conns.push_back("<SignalConnection>" + (draw_bool(50) ? a + b : b + a) + "</SignalConnection>");
            }
        }
        if (c.invalid == Invalid::OPEN_FUNCTION && open.empty()) c.invalid = 0;
        const auto& s0 = sp.sims[0];
        auto bad = bad_pair();
        if (c.invalid && bad.first.size()) conns.push_back("<VariableConnection>" + bad.first + bad.second + "</VariableConnection>");
        if (c.invalid == Invalid::BAD_GROUP) conns.push_back("<VariableGroupConnection>" + var_end("VariableGroup", s0.name, "no such group") + var_end("VariableGroup", sp.sims.back().name, "no such group") + "</VariableGroupConnection>");
        if (c.invalid == Invalid::GROUP_SIZE && !gconns.empty() && draw_bool(60)) { // one with a group of signals
            const auto& g = gconns[draw(gconns.size())];
            for (auto& x : c.groups[static_cast<size_t>(c.modelOf[static_cast<size_t>(g.sim)])])
                if (x.name == g.group) {
                    if (draw_bool(70))
                        x.vars.push_back(x.vars[draw(x.vars.size())]);
                    else
                        x.vars.pop_back();
                }
        } else if (c.invalid == Invalid::GROUP_SIZE) {
            Group x, y;
            x.name = "sizeX", y.name = "sizeY";
            if (s0.out.empty() || s0.out[0].parameter) {
                c.invalid = 0;
            } else {
                x.vars = {s0.out[0].name};
                if (draw_bool(50)) { // a nested one
                    Group n;
                    n.name = "sizeN";
                    n.vars = x.vars;
                    x.vars.clear();
                    x.children.push_back(n);
                }
                c.groups[static_cast<size_t>(c.modelOf[0])].push_back(x);
                c.groups[static_cast<size_t>(c.modelOf[0])].push_back(y);
                conns.push_back("<VariableGroupConnection>" + var_end("VariableGroup", s0.name, "sizeX") + var_end("VariableGroup", s0.name, "sizeY") + "</VariableGroupConnection>");
            }
        }
        if (c.invalid == Invalid::BAD_SIGNAL) {
            const bool group = draw_bool(40);
            std::string f = "nobody", port = "out";
            std::vector<size_t> fit;
            for (size_t i = 0; i < sp.funs.size(); ++i)
                if ((sp.funs[i].kind == 3) == group) fit.push_back(i);
            if (!fit.empty() && draw_bool(70)) {
                const size_t i = fit[draw(fit.size())];
                f = c.funNames[i];
                port = sp.funs[i].kind == 1 ? "in[0]" : "in[" + std::to_string(sp.funs[i].count) + "]";
            }
            const std::string a = std::string(group ? "<SignalGroup" : "<Signal") + " function=\"" + esc(f) + "\" name=\"" + port + "\"/>";
            const std::string b = var_end(group ? "VariableGroup" : "Variable", s0.name, s0.in.empty() ? "x" : s0.in[0].name);
            conns.push_back(group ? "<SignalGroupConnection>" + a + b + "</SignalGroupConnection>" : "<SignalConnection>" + a + b + "</SignalConnection>");
        }
        if (c.invalid == Invalid::SCHEMA) {
            static const char* const x[] = {"<Connection/>", "<VariableConnection/>", "<SignalConnection><Signal function=\"f\" name=\"g\"/></SignalConnection>", "<VariableGroupConnection><VariableGroup simulator=\"x\"/></VariableGroupConnection>"};
            conns.push_back(x[draw(4)]);
        }
        if (c.invalid == Invalid::BAD_GROUP) { // both models are described
            for (size_t i : {size_t(0), sp.sims.size() - 1}) {
                auto& gs = c.groups[static_cast<size_t>(c.modelOf[i])];
                if (gs.empty()) {
                    Group d;
                    d.name = "do not connect";
                    gs.push_back(d);
                }
            }
        }
        shuffle(conns);

        std::string t = "<?xml version=\"1.0\" encoding=\"utf-8\" ?>\n<OspSystemStructure xmlns=\"http://opensimulationplatform.com/MSMI/OSPSystemStructure\" version=\"0.1\">\n";
        c.startGiven = c.startD != 0 || draw_bool(50);
        if (c.startGiven) t += "<StartTime>" + num(c.startD) + "</StartTime>\n";
        if (c.invalid == Invalid::BAD_END) c.endTime = c.startD - 1;
        if (c.endTime) t += "<EndTime>" + num(*c.endTime) + "</EndTime>\n";
        t += "<BaseStepSize>" + (c.invalid == Invalid::BAD_STEP ? std::string(draw_bool(50) ? "0" : "-0.1") : num(c.baseD)) + "</BaseStepSize>\n";
        if (draw_bool(50)) t += "<Algorithm>fixedStep</Algorithm>\n";
        t += "<Simulators>\n";
        const int twiceFun = c.invalid == Invalid::DUPLICATE && !sp.funs.empty() && draw_bool(60) ? static_cast<int>(draw(sp.funs.size())) : -1;
        std::vector<size_t> order;
        for (size_t i = 0; i < sp.sims.size(); ++i) order.push_back(i);
        shuffle(order);
        for (size_t n = 0; n <= order.size(); ++n) {
            if (n == order.size() && (c.invalid != Invalid::DUPLICATE || twiceFun >= 0)) break;
            const size_t i = order[n % order.size()];
            const auto& m = sp.sims[i];
            t += "<Simulator name=\"" + esc(m.name) + "\" source=\"" + esc(c.modelSrc[static_cast<size_t>(c.modelOf[i])]) + "\"";
            if (m.hint.count() || draw_bool(20)) t += " stepSize=\"" + (m.hint.count() ? secs(m.hint) : std::string("0")) + "\"";
            std::string iv;
            for (const auto& x : sp.inits)
                if (x.sim == static_cast<int>(i)) iv += "<InitialValue variable=\"" + esc(m.in[static_cast<size_t>(x.var)].name) + "\">" + typed("", x.v) + "</InitialValue>\n";
            if (i == 0 && c.invalid == Invalid::BAD_INIT) iv += "<InitialValue variable=\"no such variable\"><Real value=\"1\"/></InitialValue>\n";
            if (i == 0 && c.invalid == Invalid::BAD_INIT_TYPE) {
                if (m.in.empty())
                    c.invalid = 0;
                else
                    iv += "<InitialValue variable=\"" + esc(m.in[0].name) + "\">" + typed("", zero_value(m.in[0].type ? 0 : 3)) + "</InitialValue>\n";
            }
            if (iv.empty() && draw_bool(50))
                t += "/>\n";
            else
                t += ">\n<InitialValues>\n" + iv + "</InitialValues>\n</Simulator>\n";
        }
        t += "</Simulators>\n";
        if (!sp.funs.empty()) {
            t += "<Functions>\n";
            for (int kind = 1; kind <= 3; ++kind)
                for (size_t f = 0; f < sp.funs.size(); ++f) {
                    const auto& fs = sp.funs[f];
                    if (fs.kind != kind) continue;
                    static const char* const tags[] = {"", "LinearTransformation", "Sum", "VectorSum"};
                    t += std::string("<") + tags[kind] + " name=\"" + esc(c.funNames[f]) + "\"";
                    if (kind == 1 && (fs.factor != 1 || draw_bool(50))) t += " factor=\"" + num(fs.factor) + "\"";
                    if (kind == 1 && (fs.offset != 0 || draw_bool(50))) t += " offset=\"" + num(fs.offset) + "\"";
                    if (kind > 1) t += " inputCount=\"" + std::to_string(fs.count) + "\"";
                    if (kind == 3) t += " dimension=\"" + std::to_string(fs.dim) + "\"";
                    t += "/>\n";
                    if (static_cast<int>(f) == twiceFun) t += std::string("<") + tags[kind] + " name=\"" + esc(c.funNames[f]) + "\"" + (kind > 1 ? " inputCount=\"" + std::to_string(fs.count) + "\"" : "") + (kind == 3 ? " dimension=\"" + std::to_string(fs.dim) + "\"" : "") + "/>\n";
                }
            t += "</Functions>\n";
        }
        if (!conns.empty()) {
            t += "<Connections>\n";
            for (const auto& x : conns) t += x + "\n";
            t += "</Connections>\n";
        }
        t += "</OspSystemStructure>";
        c.form = static_cast<int>(draw(3));
        const std::string name = c.form == 2 ? "other system.xml" : "OspSystemStructure.xml";
        c.files[name] = t;
        c.path = c.form ? c.dir + "/" + name : c.dir;
        for (size_t m = 0; m < c.groups.size(); ++m) {
            bool alone = true;
            for (size_t i = 0; i < c.modelName.size(); ++i) alone &= i == m || c.modelName[i] != c.modelName[m];
            if (alone && c.groups[m].empty()) continue;
            std::string x = "<?xml version=\"1.0\" encoding=\"utf-8\" ?>\n<OspModelDescription xmlns=\"http://opensimulationplatform.com/MSMI/OSPModelDescription\" version=\"0.1\">\n<VariableGroups>\n";
            for (const auto& g : c.groups[m]) put_group(x, g);
            x += "</VariableGroups>\n</OspModelDescription>";
            const std::string fn = c.modelName[m] + "_OspModelDescription.xml";
            c.files[c.descBeside[m] ? c.modelPath[m].substr(0, c.modelPath[m].rfind('/') + 1) + fn : fn] = x;
        }
    }
    std::pair<std::string, std::string> bad_pair()
    {
        auto end = [&](const std::string& s, const std::string& n) { return var_end("Variable", s, n); };
        const auto r = bad_names();
        if (r.empty()) return {};
        return {end(r[0], r[1]), end(r[2], r[3])};
    }
    // an invalid connection: source simulator, variable, target simulator, variable
    std::vector<std::string> bad_names()
    {
        std::vector<std::pair<size_t, size_t>> outs, ins, free;
        for (size_t i = 0; i < sp.sims.size(); ++i) {
            for (size_t k = 0; k < sp.sims[i].out.size(); ++k) outs.push_back({i, k});
            for (size_t k = 0; k < sp.sims[i].in.size(); ++k) {
                if (!sp.sims[i].in[k].parameter) ins.push_back({i, k});
                if (can(i, k)) free.push_back({i, k});
            }
        }
        auto o = [&](std::pair<size_t, size_t> p) { return sp.sims[p.first].out[p.second]; };
        auto in = [&](std::pair<size_t, size_t> p) { return sp.sims[p.first].in[p.second]; };
        auto S = [&](std::pair<size_t, size_t> p) { return sp.sims[p.first].name; };
        shuffle(outs);
        shuffle(free);
        switch (c.invalid) {
            case Invalid::BAD_VARIABLE:
                if (!outs.empty()) return {S(outs[0]), o(outs[0]).name, sp.sims[0].name, "no such variable"};
                break;
            case Invalid::BAD_ENTITY:
                if (!outs.empty()) return {S(outs[0]), o(outs[0]).name, "nobody", "no such variable"};
                break;
            case Invalid::BAD_TYPE:
                for (const auto& a : outs)
                    for (const auto& b : free)
                        if (o(a).type != in(b).type) return {S(a), o(a).name, S(b), in(b).name};
                break;
            case Invalid::ENUMERATION:
                if (c.ssp) return {};
                for (const auto& a : sp.sims)
                    for (const auto& b : sp.sims)
                        if (a.enums == 1 && b.enums == 2) return {a.name, "an enumeration", b.name, "an enumeration"};
                break;
            case Invalid::BAD_DIRECTION:
                for (const auto& a : outs)
                    for (const auto& b : outs)
                        if (a != b && o(a).type == o(b).type) return {S(a), o(a).name, S(b), o(b).name};
                break;
            case Invalid::TWICE:
                for (const auto& a : outs)
                    for (const auto& b : ins)
                        if (taken[b.first][b.second] && o(a).type == in(b).type) return {S(a), o(a).name, S(b), in(b).name};
                break;
            default: return {};
        }
        c.invalid = 0;
        return {};
    }
    std::string pset_xml(const PSet& s, bool standalone)
    {
        std::string t = std::string("<ssv:ParameterSet version=\"1.0\" name=\"") + esc(s.name) + "\"" + (standalone ? " xmlns:ssv=\"http://ssp-standard.org/SSP1/SystemStructureParameterValues\"" : "") + ">\n<ssv:Parameters>\n";
        if (c.invalid == Invalid::ENUMERATION) {
            static const char* const et[] = {"<ssv:Enumeration value=\"e\"/>", "<ssv:Binary value=\"00\"/>", ""};
            t += std::string("<ssv:Parameter name=\"an enumeration\">") + et[draw(3)] + "</ssv:Parameter>\n";
        }
        for (const auto& p : s.params) t += "<ssv:Parameter name=\"" + esc(p.name) + "\">" + typed("ssv:", p.v) + "</ssv:Parameter>\n";
        return t + "</ssv:Parameters>\n</ssv:ParameterSet>";
    }
    void ssp()
    {
        c.form = static_cast<int>(draw(4));
        models(c.form >= 2);
        for (auto& m : sp.sims) // values as they are kept by the reader
            (void)m;
        if (c.form == 3 || (c.form == 0 && draw_bool(30))) c.ssdName = odd_name("My System").substr(0, 9);
        // parameter sets
        static const char* const setNames[] = {"initial values", "other"};
        for (size_t i = 0; i < sp.sims.size(); ++i) {
            const size_t n = draw(3);
            const bool flip = draw_bool(30);
            for (size_t k = 0; k < n; ++k) {
                PSet s;
                s.name = setNames[(k + flip) % 2];
                s.comp = static_cast<int>(i);
                if (draw_bool(40)) {
                    static const char* const where[] = {"", "", "resources/", "my parameters/", "100%25/"};
                    std::string f = odd_name("params" + std::to_string(i) + std::to_string(k)) + ".ssv";
                    for (auto& ch : f)
                        if (ch == '/' || ch == ':') ch = '_';
                    s.file = where[draw(5)] + f;
                    s.ref = enc(s.file);
                    if (c.form < 2 && draw_bool(10)) s.ref = "file://" + enc(c.dir + "/" + s.file);
                }
                for (size_t v = 0; v < sp.sims[i].in.size(); ++v)
                    if (draw_bool(40)) s.params.push_back({static_cast<int>(i), static_cast<int>(v), sp.sims[i].in[v].name, make_value(sp.sims[i].in[v].type, draw(1u << 30))});
                if (draw_bool(15)) s.params.push_back({static_cast<int>(i), -1, "no such parameter", 1.0});
                if (draw_bool(15) && !sp.sims[i].out.empty()) s.params.push_back({static_cast<int>(i), -1, sp.sims[i].out[0].name, zero_value(sp.sims[i].out[0].type)});
                if (draw_bool(15) && !sp.sims[i].in.empty()) s.params.push_back({static_cast<int>(i), -1, sp.sims[i].in[0].name, zero_value(sp.sims[i].in[0].type == 3 ? 1 : 3)});
                shuffle(s.params);
                c.psets.push_back(s);
            }
        }
        c.useSet = draw_bool(60) ? "" : setNames[draw(2)];
        std::set<int> first;
        bool setExists = c.useSet.empty();
        for (const auto& s : c.psets) {
            const bool use = c.useSet.empty() ? first.insert(s.comp).second : s.name == c.useSet;
            if (s.name == c.useSet) setExists = true;
            if (!use) continue;
            for (const auto& p : s.params)
                if (p.var >= 0) sp.inits.push_back({p.sim, p.var, p.v});
        }
        if (!setExists) c.useSet = "", sp.inits.clear();
        if (!setExists)
            for (const auto& s : c.psets)
                if (first.insert(s.comp).second)
                    for (const auto& p : s.params)
                        if (p.var >= 0) sp.inits.push_back({p.sim, p.var, p.v});

        std::string t = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ssd:SystemStructureDescription name=\"x\" version=\"1.0\" xmlns:ssd=\"http://ssp-standard.org/SSP1/SystemStructureDescription\" xmlns:ssc=\"http://ssp-standard.org/SSP1/SystemStructureCommon\" xmlns:ssv=\"http://ssp-standard.org/SSP1/SystemStructureParameterValues\" xmlns:osp=\"http://opensimulationplatform.com/SSP/OSPAnnotations\">\n<ssd:System name=\"s\">\n<!-- a comment -->\n<ssd:Elements>\n";
        std::vector<size_t> order;
        for (size_t i = 0; i < sp.sims.size(); ++i) order.push_back(i);
        shuffle(order);
        static const char* const tn[] = {"Real", "Integer", "Boolean", "String"};
        if (c.invalid == Invalid::ENUMERATION && c.psets.empty()) c.psets.push_back({setNames[0], static_cast<int>(draw(sp.sims.size())), draw_bool(40) ? "p.ssv" : "", "p.ssv", {}});
        if (c.invalid == Invalid::DUPLICATE) order.insert(order.begin() + static_cast<long>(draw(order.size())), draw(order.size()));
        for (size_t i : order) {
            const auto& m = sp.sims[i];
            t += "<ssd:Component name=\"" + esc(m.name) + "\" source=\"" + esc(c.modelSrc[static_cast<size_t>(c.modelOf[i])]) + "\">\n<ssd:Connectors>\n";
            for (int dir = 0; dir < 2; ++dir)
                for (const auto& v : dir ? m.out : m.in)
                    t += "<ssd:Connector name=\"" + esc(v.name) + "\" kind=\"" + (v.parameter ? dir ? "calculatedParameter" : "parameter" : dir ? "output" : "input") + "\"><ssc:" + tn[v.type] + "/></ssd:Connector>\n";
            if (m.enums && c.invalid == Invalid::ENUMERATION) {
                static const char* const et[] = {"<ssc:Enumeration name=\"e\"/>", "<ssc:Binary/>"};
                t += std::string("<ssd:Connector name=\"an enumeration\" kind=\"") + (m.enums == 1 ? "output" : "input") + "\">" + et[draw(2)] + "</ssd:Connector>\n";
            }
            t += "</ssd:Connectors>\n";
            std::string b;
            for (const auto& s : c.psets) {
                if (s.comp != static_cast<int>(i)) continue;
                if (!s.file.empty()) {
                    b += "<ssd:ParameterBinding source=\"" + esc(s.ref) + "\"/>\n";
                    c.files[s.file] = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + pset_xml(s, true);
                } else
                    b += "<ssd:ParameterBinding><ssd:ParameterValues>" + pset_xml(s, false) + "</ssd:ParameterValues></ssd:ParameterBinding>\n";
            }
            if (!b.empty()) t += "<ssd:ParameterBindings>\n" + b + "</ssd:ParameterBindings>\n";
            if (m.hint.count()) t += "<ssd:Annotations><ssc:Annotation type=\"com.opensimulationplatform\"><osp:StepSizeHint value=\"" + secs(m.hint) + "\"/></ssc:Annotation></ssd:Annotations>\n";
            t += "</ssd:Component>\n";
        }
        t += "</ssd:Elements>\n";
        std::vector<std::string> conns;
        auto conn = [&](const std::string& a, const std::string& av, const std::string& b, const std::string& bv, const FunSpec* f) {
            std::string x = "<ssd:Connection startElement=\"" + esc(a) + "\" startConnector=\"" + esc(av) + "\" endElement=\"" + esc(b) + "\" endConnector=\"" + esc(bv) + "\"";
            if (!f) return x + "/>";
            x += "><ssc:LinearTransformation";
            if (f->factor != 1 || draw_bool(50)) x += " factor=\"" + num(f->factor) + "\"";
            if (f->offset != 0 || draw_bool(50)) x += " offset=\"" + num(f->offset) + "\"";
            return x + "/></ssd:Connection>";
        };
        for (const auto& cn : sp.conns) {
            if (cn.toFun) continue;
            const auto& d = sp.sims[static_cast<size_t>(cn.dst)];
            const auto& dn = d.in[static_cast<size_t>(cn.dstVar)].name;
            if (!cn.fromFun) {
                const auto& s = sp.sims[static_cast<size_t>(cn.src)];
                conns.push_back(conn(s.name, s.out[static_cast<size_t>(cn.srcVar)].name, d.name, dn, nullptr));
            } else {
                for (const auto& c2 : sp.conns)
                    if (c2.toFun && c2.dst == cn.src) {
                        const auto& s = sp.sims[static_cast<size_t>(c2.src)];
                        conns.push_back(conn(s.name, s.out[static_cast<size_t>(c2.srcVar)].name, d.name, dn, &sp.funs[static_cast<size_t>(cn.src)]));
                    }
            }
        }
        const auto bad = bad_names();
        if (c.invalid && !bad.empty()) conns.push_back(conn(bad[0], bad[1], bad[2], bad[3], nullptr));
        shuffle(conns);
        if (!conns.empty()) {
            t += "<ssd:Connections>\n";
            for (const auto& x : conns) t += x + "\n";
            t += "</ssd:Connections>\n";
        }
        t += "</ssd:System>\n";
        c.startGiven = c.startD != 0 || draw_bool(30);
        c.ownAlgorithm = draw_bool(50);
        c.endTime.reset();
        if (c.startGiven || !c.ownAlgorithm) {
            t += "<ssd:DefaultExperiment";
            if (c.startGiven) t += " startTime=\"" + num(c.startD) + "\"";
            t += ">\n";
            if (!c.ownAlgorithm) {
                t += "<ssd:Annotations>\n";
                if (draw_bool(30)) t += "<ssc:Annotation type=\"org.example\"/>\n";
                t += "<ssc:Annotation type=\"com.opensimulationplatform\"><osp:Algorithm><osp:FixedStepAlgorithm baseStepSize=\"" + num(c.baseD) + "\"" + (sp.workers ? " numWorkerThreads=\"" + std::to_string(*sp.workers) + "\"" : "") + "/></osp:Algorithm></ssc:Annotation>\n</ssd:Annotations>\n";
            }
            t += "</ssd:DefaultExperiment>\n";
        }
        t += "</ssd:SystemStructureDescription>";
        if (c.invalid == Invalid::NUMBER && !bad_number(t)) c.invalid = 0;
        const std::string name = (c.ssdName.empty() ? std::string("SystemStructure") : c.ssdName) + ".ssd";
        c.files[name] = t;
        if (!c.ssdName.empty() && draw_bool(50)) c.files["SystemStructure.ssd"] = "<?xml version=\"1.0\"?>\n<nothing/>";
        if (c.form == 1)
            c.path = c.dir + "/" + name;
        else
            c.path = c.form == 0 ? c.dir : c.dir + "/system.ssp";
        if (c.invalid == Invalid::NO_PARAMETERS) {
            bool any = false;
            for (const auto& s : c.psets)
                if (!s.file.empty()) any = true, c.files.erase(s.file);
            if (!any) c.invalid = 0;
        }
    }
    // Spoils one of the numbers in an SSP description
    static bool bad_number(std::string& t)
    {
        static const char* const where[] = {" startTime=\"", " baseStepSize=\"", " numWorkerThreads=\"", " factor=\"", " offset=\"", "<osp:StepSizeHint value=\"", "<ssv:Real value=\"", "<ssv:Integer value=\"", "<ssv:Boolean value=\""};
        static const char* const what[] = {"x", "", "1,5", "1.5.2", "--1", "1 2", "-1", "0"};
        std::vector<std::pair<size_t, size_t>> found; // position, attribute
        for (size_t k = 0; k < sizeof where / sizeof *where; ++k)
            for (size_t i = t.find(where[k]); i != std::string::npos; i = t.find(where[k], i + 1)) found.push_back({i + std::string(where[k]).size(), k});
        if (found.empty()) return false;
        const auto f = found[draw(found.size())];
        const size_t choices = f.second == 1 ? 8 : f.second == 2 ? 7 : 6; // a base step size can't be zero, and neither it nor a number of threads can be negative
        t.replace(f.first, t.find('"', f.first) - f.first, what[draw(choices)]);
        return true;
    }
    void invalid()
    {
        if (!draw_bool(25)) return;
        c.invalid = wantEnum ? Invalid::ENUMERATION : static_cast<int>(1 + draw(Invalid::KINDS - 1));
        static const std::set<int> ospOnly = {Invalid::BAD_GROUP, Invalid::GROUP_SIZE, Invalid::BAD_STEP, Invalid::BAD_END, Invalid::BAD_INIT, Invalid::BAD_INIT_TYPE, Invalid::OPEN_FUNCTION, Invalid::BAD_SIGNAL, Invalid::SCHEMA};
        if (c.ssp ? ospOnly.count(c.invalid) : c.invalid == Invalid::NO_PARAMETERS || c.invalid == Invalid::NUMBER) c.invalid = 0;
        c.victim = static_cast<int>(draw(sp.sims.size()));
    }
    void truncate()
    {
        if (c.invalid != Invalid::TRUNCATED) return;
        std::vector<std::string> names;
        for (const auto& f : c.files)
            if (!(f.first == "SystemStructure.ssd" && !c.ssdName.empty() && c.ssdName != "SystemStructure")) names.push_back(f.first);
        auto& t = c.files[names[draw(names.size())]];
        t.resize(draw(t.size() - 1));
    }
    void write()
    {
        NoSim n;
        auto make_dirs = [](const std::string& file) {
            for (size_t i = 1; i < file.size(); ++i)
                if (file[i] == '/') ::mkdir(file.substr(0, i).c_str(), 0777);
        };
        auto put = [&](const std::string& p, const std::string& text) {
            make_dirs(p);
            std::ofstream f(p, std::ios::binary);
            f << text;
        };
        make_dirs(c.dir + "/x");
        if (c.invalid == Invalid::NO_FILE) return;
        if (c.ssp && c.form >= 2) {
            std::vector<zu::Entry> es;
            for (const auto& f : c.files) {
                zu::Entry e;
                e.name = e.shown = f.first;
                e.data = f.second;
                e.method = 8;
                es.push_back(e);
            }
            put(c.path, zu::make_zip(es, false, ""));
            return;
        }
        for (const auto& f : c.files) put(f.first[0] == '/' ? f.first : c.dir + "/" + f.first, f.second);
    }
};

// ---- models -------------------------------------------------------------------------------
int g_models = 0, g_slaves = 0; // alive
struct Slave21 : MSlave
{
    Slave21(const SimSpec& s, int i, const std::string& model, size_t modelIndex)
        : MSlave(s, i)
        , model_(model)
        , modelIndex_(modelIndex)
    {
        NoSim n;
        ++g_slaves;
    }
    ~Slave21() override
    {
        NoSim n;
        --g_slaves;
    }
    cosim::model_description model_description() const override
    {
        NoAllocFaults na;
        auto md = MSlave::model_description();
        md.name = model_;
        md.uuid = std::to_string(modelIndex_) + model_;
        return md;
    }
    std::string model_;
    size_t modelIndex_;
};
struct Load // one attempt
{
    const Config& c;
    std::vector<std::shared_ptr<MSlave>> slaves; // by simulator
    std::vector<duration> hints;
    explicit Load(const Config& cfg)
        : c(cfg)
        , slaves(cfg.sp.sims.size())
    { }
};
struct Model21 : cosim::model
{
    Model21(Load& l, size_t m)
        : load(l)
        , index(m)
    {
        size_t i = 0;
        while (l.c.modelOf[i] != static_cast<int>(m)) ++i;
        md = std::make_shared<cosim::model_description>(Slave21(l.c.sp.sims[i], 0, l.c.modelName[m], m).model_description());
        NoSim n;
        ++g_models;
    }
    ~Model21() noexcept override
    {
        NoSim n;
        --g_models;
    }
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return md; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view name) override
    {
        NoAllocFaults na;
        size_t i = 0;
        {
            NoSim n;
            const auto& sims = load.c.sp.sims;
            while (i < sims.size() && sims[i].name != name) ++i;
            if (i == sims.size()) fail("wrong-entity", "configuration %d: there is no simulator `%s'", load.c.index, std::string(name).c_str());
            if (load.c.modelOf[i] != static_cast<int>(index)) fail("wrong-model", "configuration %d: simulator `%s' was made from model %zu instead of %d", load.c.index, std::string(name).c_str(), index, load.c.modelOf[i]);
            if (load.slaves[i]) fail("wrong-entity", "configuration %d: simulator `%s' was created twice", load.c.index, std::string(name).c_str());
        }
        if (load.c.invalid == Invalid::INSTANTIATE && load.c.victim == static_cast<int>(i)) throw std::runtime_error("cannot instantiate");
        auto s = std::make_shared<Slave21>(load.c.sp.sims[i], static_cast<int>(i), load.c.modelName[index], index);
        s->stepSize = load.c.sp.base * load.c.sp.sims[i].df;
        load.slaves[i] = s;
        return s;
    }
    Load& load;
    size_t index;
    std::shared_ptr<cosim::model_description> md;
};
struct Resolver21 : cosim::model_uri_sub_resolver
{
    explicit Resolver21(Load& l)
        : load(l)
    { }
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& u) override
    {
        NoAllocFaults na;
        point("lookup_model");
        const Config& c = load.c;
        size_t m = 0;
        {
            NoSim n;
            if (u.scheme() != std::string_view("file")) fail("wrong-uri", "configuration %d: the model URI `%s' is not absolute", c.index, std::string(u.view()).c_str());
            const std::string p = dec(u.path());
            const bool archive = c.ssp && c.form >= 2;
            for (; m < c.modelPath.size(); ++m)
                if (archive ? p.size() > c.modelPath[m].size() && !p.compare(p.size() - c.modelPath[m].size(), std::string::npos, c.modelPath[m]) : p == c.modelPath[m]) break;
            if (m == c.modelPath.size()) fail("wrong-uri", "configuration %d: a model was looked for at `%s' (first one is at `%s')", c.index, std::string(u.view()).c_str(), c.modelPath[0].c_str());
            if (cache.size() < c.modelPath.size()) cache.resize(c.modelPath.size());
        }
        const int v = c.modelOf[static_cast<size_t>(c.victim)];
        if (c.invalid == Invalid::NO_RESOLVER && static_cast<int>(m) == v) return nullptr;
        if (c.invalid == Invalid::RESOLVER_THROWS && static_cast<int>(m) == v) throw std::runtime_error("cannot resolve");
        if (m % 2) return std::make_shared<Model21>(load, m); // another object every time
        auto r = cache[m].lock();
        if (!r) cache[m] = r = std::make_shared<Model21>(load, m);
        return r;
    }
    Load& load;
    std::vector<std::weak_ptr<cosim::model>> cache;
};
struct NoResolver : cosim::model_uri_sub_resolver
{
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri&) override { return nullptr; }
};

size_t entries(const std::string& dir)
{
    size_t n = 0;
    if (DIR* d = opendir(dir.c_str())) {
        while (dirent* e = readdir(d))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) ++n;
        closedir(d);
    }
    return n;
}
uint64_t io_faults() { return faults_fired(F_OPEN_FAIL) + faults_fired(F_READ_FAIL) + faults_fired(F_READ_SHORT) + faults_fired(F_WRITE_FAIL) + faults_fired(F_CLOSE_FAIL) + faults_fired(F_MKDIR_FAIL) + faults_fired(F_SEEK_FAIL) + faults_fired(F_THREAD_FAIL) + faults_fired(F_ALLOC_FAIL); }

void load_and_run(const Config& c, int steps)
{
    Load l(c);
    const uint64_t before = io_faults();
    bool loaded = false;
    try {
        std::unique_ptr<cosim::execution> ex;
        auto resolver = std::make_shared<cosim::model_uri_resolver>();
        resolver->add_sub_resolver(std::make_shared<NoResolver>());
        resolver->add_sub_resolver(std::make_shared<Resolver21>(l));
        time_point start;
        duration base = c.sp.base;
        if (c.ssp) {
            cosim::ssp_loader loader;
            loader.set_model_uri_resolver(resolver);
            if (!c.ssdName.empty()) loader.set_ssd_file_name(c.ssdName);
            auto cfg = [&] { AllocFaults a; return loader.load(c.path); }();
            start = cfg.start_time;
            {
                NoSim n;
                if (!cfg.algorithm != c.ownAlgorithm) fail("wrong-algorithm", "configuration %d: there is %s algorithm", c.index, cfg.algorithm ? "an" : "no");
                if (!cfg.parameter_sets.count("") || !cfg.parameter_sets.count(c.useSet)) fail("wrong-parameter-set", "configuration %d: there is no parameter set `%s'", c.index, c.useSet.c_str());
            }
            auto algo = cfg.algorithm;
            if (!algo) algo = std::make_shared<cosim::fixed_step_algorithm>(base, c.sp.workers);
            ex = std::make_unique<cosim::execution>(start, algo);
            AllocFaults a;
            cosim::inject_system_structure(*ex, cfg.system_structure, cfg.parameter_sets.at(c.useSet));
        } else {
            const auto cfg = [&] { AllocFaults a; return cosim::load_osp_config(c.path, *resolver); }();
            start = cfg.start_time;
            base = cfg.step_size;
            {
                NoSim n;
                if (cfg.end_time.has_value() != c.endTime.has_value()) fail("wrong-time", "configuration %d: there is %s end time", c.index, cfg.end_time ? "an" : "no");
                if (cfg.end_time && std::abs(cfg.end_time->time_since_epoch().count() - static_cast<int64_t>(*c.endTime * 1e9)) > 1) fail("wrong-time", "configuration %d: wrong end time", c.index);
                if (std::abs((base - c.sp.base).count()) > 1) fail("wrong-time", "configuration %d: the step size is %lld ns instead of %lld ns", c.index, static_cast<long long>(base.count()), static_cast<long long>(c.sp.base.count()));
            }
            ex = std::make_unique<cosim::execution>(start, std::make_shared<cosim::fixed_step_algorithm>(base, c.sp.workers));
            AllocFaults a;
            cosim::inject_system_structure(*ex, cfg.system_structure, cfg.initial_values);
        }
        resolver.reset();
        loaded = true;
        {
            NoSim n;
            if (c.invalid) fail("invalid-accepted", "configuration %d is invalid (%d), but was accepted", c.index, c.invalid);
            if (std::abs((start - c.sp.start).count()) > 1) fail("wrong-time", "configuration %d: the start time is wrong", c.index);
            for (size_t i = 0; i < l.slaves.size(); ++i)
                if (!l.slaves[i]) fail("wrong-entity", "configuration %d: simulator `%s' was not created", c.index, c.sp.sims[i].name.c_str());
        }
        for (int k = 0; k < steps; ++k) ex->step();
        NoSim n;
        RefModel ref(c.sp);
        ref.initialize();
        for (int k = 0; k < steps; ++k) ref.step();
        if (steps) check_slave_histories(l.slaves, ref, c.sp);
        count(c.ssp ? "SSP systems run" : "OSP systems run");
    } catch (const std::exception& e) {
        NoSim n;
        dsim::log("configuration %d: %s", c.index, e.what());
        if (io_faults() == before && !c.invalid) fail(loaded ? "cannot-run" : "valid-refused", "configuration %d (%s): %s", c.index, c.path.c_str(), e.what());
        count(c.invalid ? "invalid configurations refused" : "failed loads");
    }
}
} // namespace

void dsim_run()
{
    const std::string base = std::string(scratch()) + "/w";
    std::vector<Config> cfgs(1 + draw(2));
    for (size_t i = 0; i < cfgs.size(); ++i) {
        auto& c = cfgs[i];
        c.index = static_cast<int>(i);
        c.dir = base + "/" + odd_name("config" + std::to_string(i));
        for (size_t k = base.size() + 1; k < c.dir.size(); ++k)
            if (c.dir[k] == '/' || c.dir[k] == ':') c.dir[k] = '_';
        c.ssp = draw_bool(40);
        Gen g(c);
        g.system();
        g.invalid();
        if (!c.ssp) {
            for (size_t s = 0; s < c.sp.sims.size(); ++s)
                for (size_t k = 0; k < c.sp.sims[s].in.size(); ++k)
                    if (draw_bool(30)) c.sp.inits.push_back({static_cast<int>(s), static_cast<int>(k), make_value(c.sp.sims[s].in[k].type, draw(1u << 30))});
            g.osp();
        } else
            g.ssp();
        g.truncate();
        g.write();
    }
    struct Job
    {
        int cfg, steps;
    };
    std::vector<std::vector<Job>> threads(draw_bool(60) ? 1 : 1 + draw(3));
    for (auto& t : threads) {
        t.resize(1 + draw(2));
        for (auto& j : t) j = {static_cast<int>(draw(cfgs.size())), static_cast<int>(draw(7))};
    }
    const std::string tmp = std::string(scratch()) + "/tmp";
    ::mkdir(tmp.c_str(), 0777);
    setenv("TMPDIR", tmp.c_str(), 1);
    usual_faults();
    const bool faults = draw_bool(40);
    if (faults) {
        if (draw_bool(50)) enable_fault(F_READ_FAIL, 100000);
        if (draw_bool(50)) enable_fault(F_OPEN_FAIL, 100000);
        if (draw_bool(30)) enable_fault(F_WRITE_FAIL, 100000);
        if (draw_bool(30)) enable_fault(F_CLOSE_FAIL, 50000);
        if (draw_bool(30)) enable_fault(F_MKDIR_FAIL, 100000);
        if (draw_bool(30)) enable_fault(F_SEEK_FAIL, 100000);
        if (draw_bool(30)) enable_fault(F_ALLOC_FAIL, 500 << draw(5));
    }
    if (draw_bool(30)) enable_fault(F_READ_SHORT, 300000);
    sched_config sc;
    sc.ncpu = cfgs[0].sp.ncpu;
    sc.max_mem = 200'000'000;
    start(sc);
    nontrivial();
    {
        NoSim n;
        for (const auto& c : cfgs) dsim::log("configuration %d: %s form %d invalid %d, %s, %zu files", c.index, c.ssp ? "SSP" : "OSP", c.form, c.invalid, describe(c.sp).c_str(), c.files.size());
    }
    const int fds = fs_open_count();
    if (threads.size() == 1) {
        for (const auto& j : threads[0]) load_and_run(cfgs[static_cast<size_t>(j.cfg)], j.steps);
    } else {
        std::vector<std::thread> ts;
        for (const auto& t : threads)
            ts.emplace_back([&t, &cfgs] {
                for (const auto& j : t) load_and_run(cfgs[static_cast<size_t>(j.cfg)], j.steps);
            });
        for (auto& t : ts) t.join();
    }
    NoSim n;
    if (g_models || g_slaves) fail("left-behind", "%d models and %d slaves still exist after everything has been destroyed", g_models, g_slaves);
    if (fs_open_count() != fds) fail("left-behind", "%d files are still open", fs_open_count() - fds);
    if (!faults && entries(tmp)) fail("left-behind", "%zu entries are left in the directory for temporary files", entries(tmp));
}
