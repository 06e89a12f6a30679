// C11 (log files contain exactly the recorded steps, also after a crash) and
// C12 (recording controlled from any thread; I/O errors). CHECK_C12 selects.
#include "cosim/observer/file_observer.hpp"

#include "common.hpp"

#include <dirent.h>

#include <cmath>
#include <fstream>
#include <functional>
#include <thread>
#include <unordered_set>

using namespace hx;
void dsim_setup() { quiet(); }

namespace
{
struct SlaveLog // the logging configuration of one slave
{
    bool logged = true;
    int dec = 1;
    std::vector<std::pair<bool, size_t>> vars; // (output?, index); what the file must contain
};
struct Row // an expected row
{
    long long step;
    double time;
    const std::vector<scalar_value>*in, *out;
    int must = 1; // 1 must be in the file, 0 may be, -1 must not be
};
struct Parsed // one row of a file
{
    long long step;
    size_t offset;
    bool lenient; // touched by a failed write: may be there twice (libstdc++ writes the whole buffer again)
};
using Snapshot = std::map<std::string, std::string>; // file name -> contents

std::string log_dir;

std::string slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), {});
}
Snapshot snapshot()
{
    Snapshot s;
    if (DIR* d = opendir(log_dir.c_str())) {
        while (dirent* e = readdir(d))
            if (e->d_name[0] != '.') s[e->d_name] = slurp(log_dir + "/" + e->d_name);
        closedir(d);
    }
    return s;
}
std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r;
    size_t i = 0;
    for (;;) {
        const size_t j = s.find(c, i);
        r.push_back(s.substr(i, j == std::string::npos ? j : j - i));
        if (j == std::string::npos) return r;
        i = j + 1;
    }
}

struct Checker
{
    const Spec& sp;
    int precision = -1;
    std::vector<SlaveLog> cfg;
    std::vector<std::vector<Row>> rows; // per slave, by step
    bool timestamped = true;

    explicit Checker(const Spec& s)
        : sp(s)
    { }
    const Var& var(size_t i, std::pair<bool, size_t> v) const { return v.first ? sp.sims[i].out[v.second] : sp.sims[i].in[v.second]; }

    // Which slave's file is it? -1: none of ours
    int owner(const std::string& f, bool& meta) const
    {
        for (size_t i = 0; i < sp.sims.size(); ++i) {
            const auto& n = sp.sims[i].name;
            if (f.compare(0, n.size(), n)) continue;
            const std::string rest = f.substr(n.size());
            static const std::string m = "_metadata.yaml", c = ".csv";
            auto ends = [&](const std::string& x) { return rest.size() >= x.size() && !rest.compare(rest.size() - x.size(), x.size(), x); };
            meta = ends(m);
            if (meta ? (timestamped ? rest[0] == '_' && rest.size() > m.size() : rest == m) : ends(c) && (timestamped ? rest[0] == '_' : rest == c)) return static_cast<int>(i);
        }
        return -1;
    }
    bool cell_ok(const scalar_value& v, const std::string& c) const
    {
        switch (v.index()) {
            case 0: {
                char* e = nullptr;
                const double x = strtod(c.c_str(), &e), y = std::get<0>(v);
                if (c.empty() || *e) return false;
                const double tol = precision >= 0 ? 0.51 * std::pow(10., -precision) + 1e-9 * std::fabs(y) : 1e-5 * std::fabs(y);
                return std::fabs(x - y) <= tol;
            }
            case 1: return c == std::to_string(std::get<1>(v));
            case 2: return c == (std::get<2>(v) ? "1" : "0");
            default: return c == std::get<3>(v);
        }
    }
    // Checks the complete cells of a line (which may be cut off). Returns the step, or -1 if there is not even a step.
    long long check_line(size_t i, const std::string& file, const std::vector<std::pair<bool, size_t>>& cols, const std::string& line, bool complete, bool lenient) const
    {
        auto cells = split(line, ',');
        if (complete) {
            if (cells.size() != cols.size() + 2) {
                if (!lenient) fail("bad-line", "%s: a line has %zu instead of %zu cells: `%.100s'", file.c_str(), cells.size(), cols.size() + 2, line.c_str());
                return -1;
            }
        } else {
            cells.pop_back();
            if (cells.size() > cols.size() + 2) fail("bad-line", "%s: the cut-off line at the end has too many cells: `%.100s'", file.c_str(), line.c_str());
        }
        if (cells.size() < 2) return -1;
        char* e = nullptr;
        const long long step = strtoll(cells[1].c_str(), &e, 10);
        if (cells[1].empty() || *e) {
            if (!lenient) fail("bad-line", "%s: no step number in `%.100s'", file.c_str(), line.c_str());
            return -1;
        }
        const Row* r = nullptr;
        for (const auto& x : rows[i])
            if (x.step == step) r = &x;
        if (!r) {
            if (lenient) return -1;
            fail("unexpected-row", "%s: there is a row for step %lld, which is not a step of slave %zu (factor %d) that could have been logged (decimation %d)", file.c_str(), step, i, sp.sims[i].df, cfg[i].dec);
        }
        const double t = strtod(cells[0].c_str(), &e);
        if (cells[0].empty() || *e || std::fabs(t - r->time) > 1e-5 * std::fabs(r->time)) {
            if (lenient) return -1;
            fail("wrong-time", "%s: step %lld is at time %s instead of %.9g", file.c_str(), step, cells[0].c_str(), r->time);
        }
        for (size_t k = 2; k < cells.size(); ++k) {
            const auto& v = cols[k - 2].first ? (*r->out)[cols[k - 2].second] : (*r->in)[cols[k - 2].second];
            if (!cell_ok(v, cells[k])) {
                if (lenient) return -1;
                fail("wrong-value", "%s: step %lld, %s: `%s' instead of %s", file.c_str(), step, var(i, cols[k - 2]).name.c_str(), cells[k].c_str(), show(v).c_str());
            }
        }
        return step;
    }
    // Parses one csv file. From byte `strictLen` on, what precedes the next header is not judged.
    // With `cut`, the last line may be incomplete.
    std::vector<Parsed> parse(size_t i, const std::string& file, const std::string& text, bool cut, const std::vector<std::pair<size_t, size_t>>& lenientRanges) const
    {
        std::vector<Parsed> r;
        static const std::string head = "Time,StepCount";
        std::vector<std::pair<bool, size_t>> cols;
        bool haveCols = false;
        size_t pos = 0;
        auto lenient = [&](size_t p) {
            for (const auto& x : lenientRanges)
                if (p >= x.first && p < x.second) return true;
            return false;
        };
        while (pos < text.size()) {
            size_t e = text.find('\n', pos);
            const bool complete = e != std::string::npos;
            if (!complete) e = text.size();
            std::string line = text.substr(pos, e - pos);
            size_t lineBegin = pos;
            pos = e + 1;
            const bool len = lenient(lineBegin) || lenient(e < text.size() ? e : e - 1);
            if (!complete && !cut && !len) fail("incomplete-file", "%s does not end with a complete line: `%.100s'", file.c_str(), line.c_str());
            // a header may follow a line cut off by a failed write
            const size_t h = len ? line.rfind(head) : line.find(head);
            if (h != std::string::npos && (h == 0 || len)) {
                lineBegin += h;
                line = line.substr(h);
                const bool len2 = lenient(lineBegin) || lenient(e < text.size() ? e : e - 1);
                auto names = split(line, ',');
                if (!complete || len2) {
                    if (!complete && cut) return r;
                }
                cols.clear();
                std::set<std::pair<bool, size_t>> seen;
                bool ok = true;
                for (size_t k = 2; k < names.size(); ++k) {
                    bool found = false;
                    for (const auto& v : cfg[i].vars)
                        if (var(i, v).name == names[k] && seen.insert(v).second) {
                            cols.push_back(v);
                            found = true;
                        }
                    if (!found) {
                        ok = false;
                        if (!len2) fail("wrong-header", "%s: column `%s' is not one of the configured variables, or there twice", file.c_str(), names[k].c_str());
                    }
                }
                if (seen.size() != cfg[i].vars.size()) {
                    ok = false;
                    if (!len2) fail("wrong-header", "%s: the header names %zu of %zu configured variables: `%.200s'", file.c_str(), seen.size(), cfg[i].vars.size(), line.c_str());
                }
                haveCols = ok;
                continue;
            }
            if (!haveCols) {
                if (len || (!complete && cut && head.compare(0, line.size(), line) == 0)) continue;
                fail("no-header", "%s: `%.100s' is not preceded by a header", file.c_str(), line.c_str());
            }
            const long long step = check_line(i, file, cols, line, complete, len);
            if (step >= 0 && complete) r.push_back({step, lineBegin, len});
        }
        long long last = -1;
        for (const auto& x : r) {
            if (x.lenient) continue;
            if (x.step <= last) fail("wrong-order", "%s: the row of step %lld follows that of step %lld", file.c_str(), x.step, last);
            last = x.step;
        }
        return r;
    }
    void check_metadata(size_t i, const std::string& file, const std::string& text) const
    {
        std::vector<std::set<std::string>> sections;
        std::string cur;
        auto value = [](const std::string& l, size_t from) {
            size_t a = l.find_first_not_of(' ', from);
            return a == std::string::npos ? std::string() : l.substr(a);
        };
        auto flush = [&] {
            if (!cur.empty()) {
                if (!sections.back().insert(cur).second) fail("wrong-metadata", "%s: %s twice", file.c_str(), cur.c_str());
            }
            cur.clear();
        };
        for (const auto& l : split(text, '\n')) {
            const size_t a = l.find_first_not_of(" -");
            if (a == std::string::npos) continue;
            auto key = [&](const char* k) { return l.compare(a, strlen(k), k) == 0; };
            if (key("variables:")) {
                flush();
                sections.push_back({});
            } else if (a && !sections.empty()) {
                if (key("name:")) {
                    flush();
                    cur = value(l, a + 5);
                } else if (key("reference:")) {
                    cur += " " + value(l, a + 10);
                } else if (key("type:")) {
                    cur += " " + value(l, a + 5);
                }
            } else
                flush();
        }
        if (sections.empty()) fail("wrong-metadata", "%s has no variables section", file.c_str());
        flush();
        std::set<std::string> expected;
        for (const auto& v : cfg[i].vars) {
            static const char* const tn[] = {"real", "integer", "boolean", "string"};
            const auto& x = var(i, v);
            expected.insert(x.name + " " + std::to_string(x.ref) + " " + tn[x.type]);
        }
        for (const auto& s : sections)
            if (s != expected) {
                std::string d;
                for (const auto& x : expected)
                    if (!s.count(x)) d += " -" + x;
                for (const auto& x : s)
                    if (!expected.count(x)) d += " +" + x;
                fail("wrong-metadata", "%s does not describe the configured variables:%s", file.c_str(), d.c_str());
            }
    }
    // All rows of a slave that are in its files, in order of steps
    std::vector<long long> collect(size_t i, const Snapshot& s, bool cut, bool checkMeta, const std::map<std::string, std::vector<std::pair<size_t, size_t>>>& lenient) const
    {
        std::set<long long> r;
        size_t files = 0;
        for (const auto& [name, text] : s) {
            bool meta;
            if (owner(name, meta) != static_cast<int>(i)) continue;
            if (!cfg[i].logged) fail("unexpected-file", "there is a file %s, but this slave's logging is not configured", name.c_str());
            if (meta) {
                if (checkMeta) check_metadata(i, name, text);
                continue;
            }
            ++files;
            if (checkMeta && !text.empty()) {
                const std::string m = name.substr(0, name.size() - 4) + "_metadata.yaml";
                if (!s.count(m)) fail("no-metadata", "there is a file %s, but no %s", name.c_str(), m.c_str());
            }
            static const std::vector<std::pair<size_t, size_t>> none;
            const auto l = lenient.find(name);
            for (const auto& p : parse(i, name, text, cut, l == lenient.end() ? none : l->second))
                if (!r.insert(p.step).second && !p.lenient) fail("duplicate-row", "slave %zu: there are two rows for step %lld", i, p.step);
        }
        note_max("files per slave", files);
        return {r.begin(), r.end()};
    }
    // Every row that must be there is there, and none that must not be
    void check_rows(size_t i, const std::vector<long long>& got, const char* when) const
    {
        for (const auto& r : rows[i]) {
            const bool there = std::binary_search(got.begin(), got.end(), r.step);
            if (r.must == 1 && !there) fail("missing-row", "slave %zu (factor %d, decimation %d): %s, the row of step %lld is missing (of %zu rows)", i, sp.sims[i].df, cfg[i].dec, when, r.step, got.size());
            if (r.must == -1 && there) fail("unrecorded-row", "slave %zu: there is a row for step %lld, which was made while recording was off", i, r.step);
        }
    }
};
bool is_prefix(const std::string& a, const std::string& b) { return a.size() <= b.size() && !b.compare(0, a.size(), a); }

void draw_config(Checker& ck, int& mode)
{
    const Spec& sp = ck.sp;
    mode = static_cast<int>(draw(3)); // 0 default, 1 configuration object, 2 XML file
    ck.timestamped = mode != 1 || draw_bool(50);
    ck.precision = mode == 1 && draw_bool(50) ? static_cast<int>(draw(7)) : -1;
    for (size_t i = 0; i < sp.sims.size(); ++i) {
        SlaveLog l;
        for (size_t k = 0; k < sp.sims[i].in.size(); ++k) l.vars.push_back({false, k});
        for (size_t k = 0; k < sp.sims[i].out.size(); ++k) l.vars.push_back({true, k});
        if (mode) {
            l.logged = draw_bool(80);
            l.dec = draw_bool(50) ? 1 : static_cast<int>(draw_range(2, 5));
            if (l.vars.size() > 1 && draw_bool(50)) { // a subset, in any order
                for (size_t k = l.vars.size(); k > 1; --k) std::swap(l.vars[k - 1], l.vars[draw(k)]);
                l.vars.resize(1 + draw(l.vars.size()));
            }
        }
        ck.cfg.push_back(l);
    }
    ck.rows.resize(sp.sims.size());
}
std::shared_ptr<cosim::file_observer> make_observer(const Checker& ck, int mode)
{
    const Spec& sp = ck.sp;
    if (mode == 0) return std::make_shared<cosim::file_observer>(log_dir);
    if (mode == 1) {
        cosim::file_observer_config c;
        c.set_timestamped_filenames(ck.timestamped);
        if (ck.precision >= 0) c.fixed_precision(ck.precision);
        for (size_t i = 0; i < sp.sims.size(); ++i) {
            const auto& l = ck.cfg[i];
            if (!l.logged) continue;
            const std::optional<size_t> d = l.dec == 1 && i % 2 ? std::optional<size_t>() : std::optional<size_t>(static_cast<size_t>(l.dec));
            if (l.vars.size() == sp.sims[i].in.size() + sp.sims[i].out.size()) {
                c.log_all_simulator_variables(sp.sims[i].name, d);
            } else {
                std::vector<std::string> names;
                for (const auto& v : l.vars) names.push_back(ck.var(i, v).name);
                c.log_simulator_variables(sp.sims[i].name, names, d);
            }
        }
        return std::make_shared<cosim::file_observer>(log_dir, c);
    }
    const std::string path = std::string(scratch()) + "/LogConfig.xml";
    {
        NoSim n;
        std::ofstream f(path);
        f << "<?xml version=\"1.0\"?>\n<simulators>\n";
        for (size_t i = 0; i < sp.sims.size(); ++i) {
            const auto& l = ck.cfg[i];
            if (!l.logged) continue;
            f << "  <simulator name=\"" << sp.sims[i].name << "\"";
            if (l.dec != 1 || i % 2) f << " decimationFactor=\"" << l.dec << "\"";
            f << ">\n";
            if (l.vars.size() != sp.sims[i].in.size() + sp.sims[i].out.size())
                for (const auto& v : l.vars) f << "    <variable name=\"" << ck.var(i, v).name << "\"/>\n";
            f << "  </simulator>\n";
        }
        f << "</simulators>\n";
    }
    return std::make_shared<cosim::file_observer>(log_dir, cosim::filesystem::path(path));
}

struct Version
{
    std::vector<scalar_value> in, out;
};
// What every slave has at the end of each of its own steps, from the reference model.
void reference_versions(const Spec& sp, RefModel& ref, int total, std::vector<std::vector<Version>>& versions)
{
    versions.resize(sp.sims.size());
    ref.initialize();
    auto keep = [&](size_t i) { versions[i].push_back({ref.sims[i].in, ref.sims[i].out}); };
    for (size_t i = 0; i < sp.sims.size(); ++i) keep(i);
    for (int c = 1; c <= total; ++c)
        for (int i : ref.step()) keep(static_cast<size_t>(i));
}
double seconds(const Spec& sp, long long step)
{
    return 1e-9 * static_cast<double>((sp.start + sp.base * step).time_since_epoch().count());
}
// The rows that may be in the files: initial state (at step `first`) and own steps up to `last`, thinned.
void candidate_rows(Checker& ck, const std::vector<std::vector<Version>>& versions, long long first, long long last)
{
    for (size_t i = 0; i < ck.sp.sims.size(); ++i)
        for (size_t v = 0; v < versions[i].size(); ++v) {
            const long long s = static_cast<long long>(v) * ck.sp.sims[i].df;
            if (s < first || s > last || s % ck.cfg[i].dec || !ck.cfg[i].logged) continue;
            ck.rows[i].push_back({s, seconds(ck.sp, s), &versions[i][v].in, &versions[i][v].out, -1});
        }
}

struct Batch
{
    int kind, n; // 0 single steps, 1 run, 2 asynchronous run
    int toggle; // before the batch: 0 nothing, 1 toggle, 2 toggle twice
};
struct Drawn
{
    Spec sp;
    std::vector<Batch> batches;
    int total = 0;
    long long joinAt = 0;
};
Drawn draw_workload(bool big)
{
    Drawn d;
    GenOptions o;
    o.maxSims = 3;
    o.maxFuns = 1;
    o.maxVars = big ? 6 : 2;
    o.slow = !big;
    d.sp = generate(o);
    int l = 1;
    for (const auto& m : d.sp.sims) l = std::lcm(l, m.df);
    if (draw_bool(25)) d.joinAt = l * static_cast<long long>(1 + draw(2)); // the observer joins a running simulation
    d.total = static_cast<int>(d.joinAt);
    d.batches.resize(1 + draw(4));
    for (auto& b : d.batches) {
        b = {static_cast<int>(draw(3)), static_cast<int>(1 + draw(big ? 25 : 6)), static_cast<int>(draw(4)) % 3};
        d.total += b.n;
    }
    return d;
}
} // namespace
