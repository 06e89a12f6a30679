#include "file_common.hpp"
namespace dsim
{
const char* property_id = "C11";
}

namespace
{
struct State
{
    Checker* ck;
    std::shared_ptr<Probe> probe;
    std::vector<std::shared_ptr<MSlave>>* slaves;
    Snapshot stopped; // what the files contained when recording was last stopped
    bool recording = true;
    std::vector<std::vector<int>> on; // per slave and candidate row: was recording on?
};

// The process has died: what is in the files is an unaltered prefix of what was to be there.
void crashed(void* p)
{
    auto& st = *static_cast<State*>(p);
    const Snapshot s = snapshot();
    for (const auto& [name, text] : st.stopped) {
        const auto it = s.find(name);
        if (it == s.end()) fail("lost-file", "%s has disappeared", name.c_str());
        if (!is_prefix(text, it->second)) fail("altered-file", "%s no longer begins with what was in it when recording was stopped", name.c_str());
    }
    long long commenced = -1; // index of the latest step that has begun
    for (const auto& e : st.probe->ev)
        if (e.kind == Event::COMMENCE) ++commenced;
    for (size_t i = 0; i < st.ck->sp.sims.size(); ++i) {
        const auto got = st.ck->collect(i, s, true, false, {});
        // no holes: every recorded row before the last one in the file is there, and those of stopped recordings
        const long long last = got.empty() ? -1 : got.back();
        for (size_t k = 0; k < st.ck->rows[i].size(); ++k) {
            auto& r = st.ck->rows[i][k];
            const bool there = std::binary_search(got.begin(), got.end(), r.step);
            if (there && r.step > commenced + 1) fail("future-row", "slave %zu: step %lld is in the file, but only %lld steps were begun", i, r.step, commenced + 1);
            if (there && r.step > 0 && r.step % st.ck->sp.sims[i].df == 0 && (*st.slaves)[i]->steps.size() < static_cast<size_t>(r.step / st.ck->sp.sims[i].df)) fail("future-row", "slave %zu: step %lld is in the file, but the slave had not made it", i, r.step);
            const bool recorded = st.on[i].size() > k ? st.on[i][k] == 1 : st.recording;
            if (there && !recorded) fail("unrecorded-row", "slave %zu: there is a row for step %lld, which was made while recording was off", i, r.step);
            if (!there && recorded && r.step < last) fail("missing-row", "slave %zu: after the process has died there is a row for step %lld, but none for step %lld", i, last, r.step);
            if (!there && st.on[i].size() > k && st.on[i][k] == 1 && !st.recording) fail("missing-row", "slave %zu: the row of step %lld was lost when the process died although recording had been stopped", i, r.step);
        }
        count("crash files checked");
    }
}
} // namespace

// A configuration that makes no sense is refused with an exception, and the simulation is not affected.
static void bad_configuration()
{
    GenOptions o;
    o.maxSims = 3;
    o.maxFuns = 1;
    o.maxVars = 2;
    Spec sp = generate(o);
    const int kind = static_cast<int>(draw(5)); // 0 unknown variable, 1 decimation by 0, 2 malformed file, 3 missing file, 4 decimation factor that is no positive number
    static const char* const noNumber[] = {"ten", "-2", "1.5", "", "2 x", "99999999999999999999"};
    const size_t nonsense = draw(6);
    const bool xml = kind > 1 || draw_bool(50), late = draw_bool(50);
    const size_t which = draw(sp.sims.size());
    const int steps = static_cast<int>(1 + draw(5));
    usual_faults();
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    log_dir = std::string(scratch()) + "/logs";
    start(cfg);
    {
        NoSim n;
        dsim::log("%s, bad configuration %d", describe(sp).c_str(), kind);
    }
    nontrivial();
    System sys(sp);
    sys.build_all();
    if (late) sys.exec->step();
    const std::string path = std::string(scratch()) + "/LogConfig.xml";
    const auto& name = sp.sims[which].name;
    bool refused = false;
    try {
        std::shared_ptr<cosim::file_observer> obs;
        if (xml) {
            if (kind != 3) {
                NoSim n;
                std::ofstream f(path);
                f << "<simulators>\n<simulator name=\"" << name << "\"" << (kind == 1 ? " decimationFactor=\"0\"" : kind == 4 ? " decimationFactor=\"" + std::string(noNumber[nonsense]) + "\"" : "") << ">" << (kind == 0 ? "<variable name=\"nonesuch\"/>" : "") << (kind == 2 ? "" : "</simulator>\n</simulators>\n");
            }
            obs = std::make_shared<cosim::file_observer>(log_dir, cosim::filesystem::path(path));
        } else {
            cosim::file_observer_config c;
            if (kind == 0)
                c.log_simulator_variables(name, {"nonesuch"});
            else if (which % 2)
                c.log_all_simulator_variables(name, 0);
            else
                c.log_simulator_variables(name, {}, 0);
            obs = std::make_shared<cosim::file_observer>(log_dir, c);
        }
        sys.exec->add_observer(obs);
    } catch (const std::exception& e) {
        NoSim n;
        dsim::log("refused: %s", e.what());
        refused = true;
    }
    if (!refused) fail("bad-configuration", "a logging configuration with %s was accepted", kind == 0 ? "an unknown variable" : kind == 1 ? "decimation factor 0" : kind == 4 ? "a decimation factor that is no positive number" : "a file that is no XML");
    for (int k = 0; k < steps; ++k) sys.exec->step();
    NoSim n;
    count("bad configurations");
    RefModel ref(sp);
    ref.initialize();
    for (int k = 0; k < steps + late; ++k) ref.step();
    check_slave_histories(sys.slaves, ref, sp);
}

void dsim_run()
{
    if (draw_bool(4)) return bad_configuration();
    const bool big = draw_bool(25);
    Drawn d = draw_workload(big);
    const Spec& sp = d.sp;
    Checker ck(sp);
    int mode;
    draw_config(ck, mode);
    const bool stale = !ck.timestamped && !d.joinAt && draw_bool(60);
    const bool endStopped = draw_bool(40);
    const bool nested = !stale && draw_bool(60);
    usual_faults();
    if (draw_bool(30)) enable_fault(F_WRITE_SHORT, 300000);
    if (draw_bool(20)) enable_fault(F_WALL_JUMP, 100000);
    if (draw_bool(40)) enable_fault(F_CRASH, 2000 >> draw(5));
    sched_config cfg;
    cfg.ncpu = sp.ncpu;
    if (big) cfg.mem_gap = 0;
    log_dir = std::string(scratch()) + (nested ? "/new/logs" : "/logs");
    if (stale) {
        NoSim n;
        cosim::filesystem::create_directories(log_dir);
        for (const auto& m : sp.sims) std::ofstream(log_dir + "/" + m.name + ".csv") << "Time,StepCount,old\n0,0,1\n1,1,2\n";
    }
    start(cfg);
    std::vector<std::vector<Version>> versions;
    RefModel ref(sp);
    {
        NoSim n;
        dsim::log("%s, mode %d, timestamps %d, precision %d, %zu batches, joins at %lld", describe(sp).c_str(), mode, ck.timestamped, ck.precision, d.batches.size(), d.joinAt);
        reference_versions(sp, ref, d.total, versions);
        candidate_rows(ck, versions, d.joinAt, d.total);
    }
    State st;
    st.ck = &ck;
    st.probe = std::make_shared<Probe>(sp, false);
    st.on.resize(sp.sims.size());
    auto sys = std::make_unique<System>(sp);
    st.slaves = &sys->slaves;
    auto obs = make_observer(ck, mode);
    sys->exec->add_manipulator(st.probe);
    if (!d.joinAt) sys->exec->add_observer(obs);
    sys->build_all();
    if (stale && !d.joinAt) {
        NoSim n;
        for (size_t i = 0; i < sp.sims.size(); ++i)
            if (ck.cfg[i].logged && !slurp(log_dir + "/" + sp.sims[i].name + ".csv").empty()) fail("stale-contents", "the old contents of %s.csv are still there", sp.sims[i].name.c_str());
    }
    if (stale) {
        NoSim n;
        for (size_t i = 0; i < sp.sims.size(); ++i)
            if (!ck.cfg[i].logged) ::remove((log_dir + "/" + sp.sims[i].name + ".csv").c_str());
    }
    nontrivial();
    auto& ex = *sys->exec;
    long long c = 0;
    // Notes for all candidate rows up to step `upTo` whether they were recorded
    auto note = [&](long long upTo) {
        NoSim n;
        for (size_t i = 0; i < sp.sims.size(); ++i)
            while (st.on[i].size() < ck.rows[i].size() && ck.rows[i][st.on[i].size()].step <= upTo) {
                ck.rows[i][st.on[i].size()].must = st.recording ? 1 : -1;
                st.on[i].push_back(st.recording ? 1 : 0);
            }
    };
    auto check_complete = [&](const char* when) {
        NoSim n;
        const Snapshot s = snapshot();
        for (size_t i = 0; i < sp.sims.size(); ++i) {
            const auto got = ck.collect(i, s, false, true, {});
            const auto all = ck.rows[i];
            ck.rows[i].resize(st.on[i].size());
            ck.check_rows(i, got, when);
            ck.rows[i] = all;
            count("rows checked", got.size());
        }
        for (const auto& [name, text] : s) {
            bool meta;
            if (ck.owner(name, meta) < 0) fail("unexpected-file", "there is a file %s in the log directory", name.c_str());
        }
        for (const auto& [name, text] : st.stopped) {
            const auto it = s.find(name);
            if (it == s.end() || !is_prefix(text, it->second)) fail("altered-file", "what was in %s when recording was stopped has changed", name.c_str());
        }
        st.stopped = s;
    };
    bool first = true;
    auto toggle = [&] {
        if (obs->is_recording() != st.recording) fail("wrong-state", "is_recording() is %d", !st.recording);
        if (st.recording) {
            obs->stop_recording();
            {
                NoSim n;
                st.recording = false;
                count("recording stopped");
            }
            check_complete("when recording was stopped");
        } else {
            obs->start_recording();
            st.recording = true;
        }
    };
    on_crash(crashed, &st);
    if (d.joinAt) {
        // the current step is reported to the observer when it joins
        for (; c < d.joinAt; ++c) ex.step();
    }
    for (const auto& b : d.batches) {
        for (int k = 0; k < b.toggle; ++k) toggle();
        if (first && d.joinAt) {
            ex.add_observer(obs);
            if (stale) {
                NoSim n;
                for (const auto& f : snapshot())
                    if (f.second.find("old") != std::string::npos) fail("stale-contents", "the old contents of %s are still there", f.first.c_str());
            }
            note(c);
        }
        first = false;
        if (b.kind == 0)
            for (int k = 0; k < b.n; ++k) {
                ex.step();
                note(++c);
            }
        else {
            const auto target = ex.current_time() + sp.base * b.n;
            if (b.kind == 1)
                ex.simulate_until(target);
            else
                ex.simulate_until_async(target).get();
            note(c += b.n);
        }
    }
    if (endStopped && st.recording) toggle();
    disable_fault(F_CRASH);
    on_crash(nullptr, nullptr);
    const auto slaves = sys->slaves;
    obs.reset();
    sys.reset();
    check_complete("when the observer was destroyed");
    check_slave_histories(slaves, ref, sp);
    fold(static_cast<uint64_t>(c));
}
