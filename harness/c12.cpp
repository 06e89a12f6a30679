#include "file_common.hpp"
namespace dsim
{
const char* property_id = "C12";
}

namespace
{
struct Op
{
    int kind; // 0 start, 1 stop, 2 query
    bool ok; // start/stop: succeeded; query: the answer
    uint64_t b, e;
};
struct RowEvent // a moment at which a row is or is not recorded
{
    long long step;
    bool there;
    uint64_t b, e;
};
// Is there an order of all operations of all threads, respecting what happened before what, in which a register
// that is true at first, set by successful starts and cleared by successful stops, gives all these answers?
bool linearizable(const std::vector<std::vector<Op>>& threads, const std::vector<RowEvent>& rows)
{
    std::vector<size_t> pos(threads.size(), 0);
    std::unordered_set<uint64_t> bad;
    std::function<bool(size_t, bool)> go = [&](size_t r, bool on) -> bool {
        uint64_t h = mix(r, on);
        for (size_t p : pos) h = mix(h, p);
        if (bad.count(h)) return false;
        // the earliest end of any operation not yet placed: nothing that begins later can be placed before it
        uint64_t end = ~0ull;
        for (size_t t = 0; t < threads.size(); ++t)
            if (pos[t] < threads[t].size()) end = std::min(end, threads[t][pos[t]].e);
        if (r < rows.size()) end = std::min(end, rows[r].e);
        if (end == ~0ull) return true;
        if (r < rows.size() && rows[r].b <= end && rows[r].there == on && go(r + 1, on)) return true;
        for (size_t t = 0; t < threads.size(); ++t) {
            if (pos[t] >= threads[t].size()) continue;
            const Op& o = threads[t][pos[t]];
            if (o.b > end) continue;
            bool next = on;
            if (o.kind == 2) {
                if (o.ok != on) continue;
            } else if (o.ok) {
                if (on == (o.kind == 0)) continue;
                next = o.kind == 0;
            } else if (on != (o.kind == 0))
                continue;
            ++pos[t];
            const bool ok = go(r, next);
            --pos[t];
            if (ok) return true;
        }
        bad.insert(h);
        return false;
    };
    return go(0, true);
}
} // namespace

static void concurrent()
{
    Drawn d = draw_workload(false);
    const Spec& sp = d.sp;
    Checker ck(sp);
    int mode;
    draw_config(ck, mode);
    struct Planned
    {
        int kind;
        uint64_t pause;
    };
    std::vector<std::vector<Planned>> plans(1 + draw(3));
    for (auto& p : plans) {
        p.resize(1 + draw(6));
        for (auto& x : p) x = {static_cast<int>(draw(3)), draw_bool(60) ? 0 : 1 + draw(4000000)};
    }
    usual_faults();
    if (draw_bool(20)) enable_fault(F_WALL_JUMP, 100000);
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    log_dir = std::string(scratch()) + "/logs";
    start(cfg);
    std::vector<std::vector<Version>> versions;
    RefModel ref(sp);
    {
        NoSim n;
        dsim::log("concurrent: %s, mode %d, timestamps %d, %zu batches, %zu threads, joins at %lld", describe(sp).c_str(), mode, ck.timestamped, d.batches.size(), plans.size(), d.joinAt);
        reference_versions(sp, ref, d.total, versions);
        candidate_rows(ck, versions, d.joinAt, d.total);
    }
    auto sys = std::make_unique<System>(sp);
    auto probe = std::make_shared<Probe>(sp, false);
    auto obs = make_observer(ck, mode);
    sys->exec->add_manipulator(probe);
    if (!d.joinAt) sys->exec->add_observer(obs);
    sys->build_all();
    nontrivial();
    auto& ex = *sys->exec;
    std::vector<std::vector<Op>> ops(plans.size() + 1);
    std::vector<uint64_t> returned; // stamps of the ends of batches
    uint64_t joinedAt = 0, joinBegan = 0;
    auto perform = [&](int kind) {
        Op o{kind, false, 0, 0};
        {
            NoSim n;
            o.b = seq();
        }
        if (kind == 2) {
            o.ok = obs->is_recording();
        } else {
            try {
                if (kind == 0)
                    obs->start_recording();
                else
                    obs->stop_recording();
                o.ok = true;
            } catch (const std::exception&) {
            }
        }
        NoSim n;
        o.e = seq();
        return o;
    };
    if (d.joinAt) {
        for (long long k = 0; k < d.joinAt; ++k) ex.step();
        joinBegan = seq();
        ex.add_observer(obs);
        joinedAt = seq();
    }
    std::vector<std::thread> th;
    for (size_t q = 0; q < plans.size(); ++q)
        th.emplace_back([&, q] {
            name_thread("toggler");
            for (const auto& p : plans[q]) {
                if (p.pause) std::this_thread::sleep_for(std::chrono::nanoseconds(p.pause));
                const Op o = perform(p.kind);
                NoSim n;
                ops[q].push_back(o);
            }
        });
    for (const auto& b : d.batches) {
        for (int k = 0; k < b.toggle; ++k) {
            const Op o = perform(k);
            NoSim n;
            ops.back().push_back(o);
        }
        if (b.kind == 0)
            for (int k = 0; k < b.n; ++k) {
                ex.step();
                NoSim n;
                returned.push_back(seq());
            }
        else {
            const auto target = ex.current_time() + sp.base * b.n;
            if (b.kind == 1)
                ex.simulate_until(target);
            else
                ex.simulate_until_async(target).get();
            NoSim n;
            returned.push_back(seq());
        }
    }
    for (auto& t : th) t.join();
    {
        const Op o = perform(2);
        NoSim n;
        ops.back().push_back(o);
    }
    const auto slaves = sys->slaves;
    obs.reset();
    sys.reset();
    NoSim n;
    size_t toggles = 0, refused = 0;
    for (const auto& t : ops)
        for (const auto& o : t)
            if (o.kind != 2) (o.ok ? toggles : refused)++;
    count("successful starts and stops", toggles);
    count("refused starts and stops", refused);
    auto history = [&] {
        std::string s;
        for (size_t t = 0; t < ops.size(); ++t) {
            s += t + 1 == ops.size() ? " main:" : " thread:";
            for (const auto& o : ops[t]) s += std::string(o.kind == 0 ? " start" : o.kind == 1 ? " stop" : " query") + (o.kind == 2 ? o.ok ? "=on" : "=off" : o.ok ? "" : " refused") + "[" + std::to_string(o.b) + "," + std::to_string(o.e) + "]";
        }
        return s;
    };
    if (!linearizable(ops, {})) fail("not-atomic", "the answers contradict any order of the calls:%s", history().c_str());
    // rows per slave
    auto toggleOps = ops;
    for (auto& t : toggleOps) t.erase(std::remove_if(t.begin(), t.end(), [](const Op& o) { return o.kind == 2 || !o.ok; }), t.end());
    const Snapshot snap = snapshot();
    for (size_t i = 0; i < sp.sims.size(); ++i) {
        const auto got = ck.collect(i, snap, false, true, {});
        std::vector<RowEvent> rows;
        for (const auto& r : ck.rows[i]) {
            RowEvent e;
            e.step = r.step;
            e.there = std::binary_search(got.begin(), got.end(), r.step);
            // The moment lies between the beginning of the step that ends here and that of the next step (or the return)
            long long k = 0;
            e.b = 0;
            e.e = ~0ull;
            for (const auto& x : probe->ev) {
                if (x.kind != Event::COMMENCE) continue;
                if (k == r.step - 1) e.b = x.at;
                if (k == r.step) e.e = x.at;
                ++k;
            }
            for (uint64_t x : returned)
                if (x > e.b && x < e.e) e.e = x;
            if (d.joinAt && r.step == d.joinAt) {
                e.b = joinBegan;
                e.e = joinedAt;
            } else if (r.step > 0) {
                const size_t own = static_cast<size_t>(r.step / sp.sims[i].df);
                if (own <= slaves[i]->steps.size()) e.b = std::max(e.b, slaves[i]->steps[own - 1].end);
            }
            if (e.e == ~0ull) e.e = ~0ull - 1;
            rows.push_back(e);
        }
        if (!linearizable(toggleOps, rows)) {
            std::string s;
            for (const auto& r : rows) s += " " + std::to_string(r.step) + (r.there ? "+" : "-") + "[" + std::to_string(r.b) + "," + std::to_string(r.e) + "]";
            fail("rows-not-as-toggled", "slave %zu: the rows recorded contradict any order of the calls: rows%s; calls%s", i, s.c_str(), history().c_str());
        }
        count("rows checked", got.size());
    }
    check_slave_histories(slaves, ref, sp);
    fold(mix(toggles, refused));
}

static void io_errors()
{
    const bool big = draw_bool(40);
    Drawn d = draw_workload(big);
    const Spec& sp = d.sp;
    Checker ck(sp);
    int mode;
    draw_config(ck, mode);
    const bool late = draw_bool(30); // faults stop before the last batch
    usual_faults();
    const unsigned rate = 30000u << draw(4);
    const int kinds[] = {F_OPEN_FAIL, F_MKDIR_FAIL, F_WRITE_FAIL, F_CLOSE_FAIL, F_WRITE_SHORT};
    bool on[5];
    for (auto& x : on) x = draw_bool(50);
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    if (big) cfg.mem_gap = 0;
    log_dir = std::string(scratch()) + "/new/logs";
    start(cfg);
    std::vector<std::vector<Version>> versions;
    RefModel ref(sp);
    {
        NoSim n;
        dsim::log("errors: %s, mode %d, timestamps %d, %zu batches, joins at %lld", describe(sp).c_str(), mode, ck.timestamped, d.batches.size(), d.joinAt);
        reference_versions(sp, ref, d.total, versions);
        candidate_rows(ck, versions, d.joinAt, d.total);
    }
    auto sys = std::make_unique<System>(sp);
    auto obs = make_observer(ck, mode);
    if (!d.joinAt) sys->exec->add_observer(obs);
    sys->build_all();
    nontrivial();
    auto& ex = *sys->exec;
    bool recording = true;
    bool dirty = false; // a write has failed since recording was last started: rows may be missing
    long long c = 0;
    bool initialised = d.joinAt > 0;
    Snapshot last;
    std::map<std::string, std::vector<std::pair<size_t, size_t>>> lenient;
    std::map<std::string, size_t> dirtyFrom; // files for which something has failed, and their length before that
    // The rows of the recording in progress
    std::vector<std::pair<size_t, size_t>> span; // (slave, row)
    auto write_faults = [&] { return faults_fired(F_WRITE_FAIL) + faults_fired(F_CLOSE_FAIL); };
    auto open_faults = [&] { return faults_fired(F_OPEN_FAIL) + faults_fired(F_MKDIR_FAIL); };
    // after everything that may write: files only grow; after a failed write, the rest of the files is not judged
    auto look = [&](uint64_t wf) {
        NoSim n;
        const Snapshot s = snapshot();
        for (const auto& [name, text] : last) {
            const auto it = s.find(name);
            if (it == s.end()) fail("lost-file", "%s has disappeared", name.c_str());
            if (!is_prefix(text, it->second)) fail("altered-file", "what was already in %s has changed", name.c_str());
        }
        if (write_faults() != wf) {
            dirty = true;
            for (const auto& x : span) ck.rows[x.first][x.second].must = std::min(ck.rows[x.first][x.second].must, 0);
            for (const auto& [name, text] : s)
                if (!dirtyFrom.count(name)) {
                    const auto it = last.find(name);
                    dirtyFrom[name] = it == last.end() ? 0 : it->second.size();
                }
        }
        last = s;
    };
    auto end_dirty = [&] { // the recording in progress has ended: what follows is judged again
        NoSim n;
        for (const auto& [name, from] : dirtyFrom) {
            const auto it = last.find(name);
            lenient[name].push_back({from, it == last.end() ? 0 : it->second.size()});
        }
        dirtyFrom.clear();
        dirty = false;
        span.clear();
    };
    auto toggle = [&] {
        const auto wf = write_faults();
        if (obs->is_recording() != recording) fail("wrong-state", "is_recording() is %d", !recording);
        if (recording) {
            obs->stop_recording();
            recording = false;
            look(wf);
            end_dirty();
        } else {
            obs->start_recording();
            recording = true;
        }
    };
    // One step (or joining). Returns whether it has thrown.
    auto attempt = [&](auto&& action, long long step) {
        const auto wf = write_faults(), of = open_faults();
        bool threw = false;
        std::string what;
        try {
            action();
        } catch (const std::exception& e) {
            threw = true;
            NoSim n;
            what = e.what();
        }
        NoSim n;
        const bool expected = open_faults() != of;
        if (threw && !expected && write_faults() == wf) fail("unexpected-exception", "step %lld: %s", step, what.c_str());
        if (!threw && expected) fail("no-exception", "a log file could not be created during step %lld, but no exception was thrown", step);
        if (threw) count("steps that threw");
        for (size_t i = 0; i < sp.sims.size(); ++i)
            for (size_t k = 0; k < ck.rows[i].size(); ++k)
                if (ck.rows[i][k].step == step || (!initialised && ck.rows[i][k].step == 0)) {
                    ck.rows[i][k].must = !recording ? -1 : threw || dirty ? 0 : 1;
                    span.push_back({i, k});
                }
        initialised = true;
        look(wf);
    };
    for (int k = 0; k < 5; ++k)
        if (on[k]) enable_fault(kinds[k], rate);
    if (d.joinAt) {
        for (; c < d.joinAt; ++c) ex.step();
        attempt([&] { ex.add_observer(obs); }, c);
        NoSim n;
        // an observer that was refused initially gets no rows for that moment; it has been added nevertheless
    }
    for (size_t q = 0; q < d.batches.size(); ++q) {
        const auto& b = d.batches[q];
        if (late && q + 1 == d.batches.size()) {
            if (recording) toggle();
            for (int k : kinds) disable_fault(k);
            toggle();
        } else
            for (int k = 0; k < b.toggle; ++k) toggle();
        for (int k = 0; k < b.n; ++k) {
            const auto before = ex.current_time();
            attempt([&] { ex.step(); }, c + 1);
            if (ex.current_time() != before) ++c; // otherwise the initialisation has failed
        }
    }
    const auto slaves = sys->slaves;
    {
        const auto wf = write_faults();
        obs.reset();
        sys.reset();
        look(wf);
        end_dirty();
    }
    NoSim n;
    for (size_t i = 0; i < sp.sims.size(); ++i) {
        const auto got = ck.collect(i, last, false, write_faults() + open_faults() == 0, lenient);
        ck.check_rows(i, got, "at the end");
        count("rows checked", got.size());
    }
    RefModel made(sp);
    made.initialize();
    for (long long k = 0; k < c; ++k) made.step();
    check_slave_histories(slaves, made, sp);
    fold(static_cast<uint64_t>(c));
}

void dsim_run()
{
    if (draw_bool(40))
        io_errors();
    else
        concurrent();
}
