// Driver: batches of runs, replay, minimisation, determinism self-check.
#include "rt.hpp"

#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <regex>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using namespace dsim;

namespace
{
std::string scratch_base, scratch_dir;
Result* shm;
int wall_limit_s = 30;

double real_now()
{
    struct timespec ts;
    raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// Removes the contents of a directory this program created (never follows links).
void wipe(const std::string& dir)
{
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = dir + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) {
            chmod(p.c_str(), 0700);
            wipe(p);
            rmdir(p.c_str());
        } else
            unlink(p.c_str());
    }
    closedir(d);
}

void reset_result(Result* r)
{
    memset(r, 0, offsetof(Result, W));
}

volatile sig_atomic_t alarmed = 0;
void on_alarm(int) { alarmed = 1; }

// One run in a forked child.
void run_one(const Input& in)
{
    reset_result(shm);
    wipe(scratch_dir);
    pid_t p = fork();
    if (p < 0) {
        perror("fork");
        exit(3);
    }
    if (p == 0) {
        setenv("TMPDIR", scratch_dir.c_str(), 1);
        signal(SIGALRM, SIG_DFL);
        child_main(in, shm, scratch_dir.c_str());
    }
    alarmed = 0;
    struct itimerval it{};
    it.it_value.tv_sec = wall_limit_s;
    setitimer(ITIMER_REAL, &it, nullptr);
    int st = 0, alarms = 0;
    for (;;) {
        pid_t w = waitpid(p, &st, 0);
        if (w == p) break;
        if (w < 0 && errno == EINTR && alarmed) {
            // On an overloaded machine it is not the run's fault.
            clockid_t clk;
            struct timespec cpu{};
            if (++alarms < 8 && !clock_getcpuclockid(p, &clk) && !clock_gettime(clk, &cpu) && cpu.tv_sec < wall_limit_s / 2) {
                alarmed = 0;
                setitimer(ITIMER_REAL, &it, nullptr);
                continue;
            }
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            if (shm->status == 0) {
                shm->status = 2;
                snprintf(shm->cls, sizeof shm->cls, "hang");
                snprintf(shm->msg, sizeof shm->msg, "the run used more than %d s of real time without reaching a scheduling point", wall_limit_s);
                shm->hash = 1;
            }
            break;
        }
    }
    struct itimerval off{};
    setitimer(ITIMER_REAL, &off, nullptr);
    if (shm->status == 0) {
        shm->status = 2;
        if (WIFSIGNALED(st))
            snprintf(shm->cls, sizeof shm->cls, "crash-signal-%d", WTERMSIG(st));
        else
            snprintf(shm->cls, sizeof shm->cls, "exit-%d", WEXITSTATUS(st));
        snprintf(shm->msg, sizeof shm->msg, "the process ended unexpectedly (wait status %d)", st);
        shm->hash = 2;
    }
}

struct Rep
{
    std::string prop, cls, msg;
    uint64_t seed = 0, hash = 0;
    std::vector<uint64_t> W, Wn;
    std::vector<SEnt> S;
    std::vector<FEnt> F;
};

void from_result(Rep& r, uint64_t seed)
{
    r.prop = property_id;
    r.cls = shm->cls;
    r.msg = shm->msg;
    r.seed = seed;
    r.hash = shm->hash;
    r.W.assign(shm->W, shm->W + shm->nW);
    r.Wn.assign(shm->Wn, shm->Wn + shm->nW);
    r.S.assign(shm->S, shm->S + shm->nS);
    r.F.assign(shm->F, shm->F + shm->nF);
}

void save(const Rep& r, const std::string& path)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f) {
        perror(path.c_str());
        exit(3);
    }
    std::string m = r.msg;
    for (auto& c : m)
        if (c == '\n' || c == '\r') c = ' ';
    fprintf(f, "dsim-replay 1\nproperty %s\nseed %llu\nclass %s\nmessage %s\nhash %016llx\n", r.prop.c_str(), (unsigned long long)r.seed, r.cls.c_str(), m.c_str(), (unsigned long long)r.hash);
    fprintf(f, "# workload draws\nW %zu\n", r.W.size());
    for (size_t i = 0; i < r.W.size(); ++i) fprintf(f, "%llu%c", (unsigned long long)r.W[i], i % 24 == 23 || i + 1 == r.W.size() ? '\n' : ' ');
    fprintf(f, "# schedule: thread, its event number, thread to run next\nS %zu\n", r.S.size());
    for (auto& s : r.S) fprintf(f, "%u %llu %u\n", s.tid, (unsigned long long)s.lev, s.to);
    fprintf(f, "# faults: kind, thread, opportunity, value\nF %zu\n", r.F.size());
    for (auto& x : r.F) fprintf(f, "%s %u %u %llu\n", fault_name(x.kind), x.tid, x.n, (unsigned long long)x.val);
    fclose(f);
}

Rep load(const std::string& path)
{
    Rep r;
    FILE* f = fopen(path.c_str(), "r");
    if (!f) {
        perror(path.c_str());
        exit(3);
    }
    std::vector<char> line(1 << 20);
    auto bad = [&] {
        fprintf(stderr, "bad replay file %s\n", path.c_str());
        exit(3);
    };
    while (fgets(line.data(), (int)line.size(), f)) {
        std::string l = line.data();
        while (!l.empty() && (l.back() == '\n')) l.pop_back();
        if (l.empty() || l[0] == '#') continue;
        auto sp = l.find(' ');
        std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
        if (k == "property")
            r.prop = v;
        else if (k == "seed")
            r.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "class")
            r.cls = v;
        else if (k == "message")
            r.msg = v;
        else if (k == "hash")
            r.hash = strtoull(v.c_str(), nullptr, 16);
        else if (k == "W") {
            size_t n = strtoull(v.c_str(), nullptr, 10);
            for (size_t i = 0; i < n; ++i) {
                unsigned long long x;
                if (fscanf(f, "%llu", &x) != 1) bad();
                r.W.push_back(x);
            }
        } else if (k == "S") {
            size_t n = strtoull(v.c_str(), nullptr, 10);
            for (size_t i = 0; i < n; ++i) {
                unsigned a, c;
                unsigned long long b;
                if (fscanf(f, "%u %llu %u", &a, &b, &c) != 3) bad();
                r.S.push_back(SEnt{a, c, b});
            }
        } else if (k == "F") {
            size_t n = strtoull(v.c_str(), nullptr, 10);
            for (size_t i = 0; i < n; ++i) {
                char name[64];
                unsigned a, b;
                unsigned long long c;
                if (fscanf(f, "%63s %u %u %llu", name, &a, &b, &c) != 4) bad();
                int kind = -1;
                for (int q = 0; q < F_KINDS; ++q)
                    if (!strcmp(name, fault_name(q))) kind = q;
                if (kind < 0) bad();
                r.F.push_back(FEnt{(uint16_t)kind, (uint16_t)a, b, c});
            }
        }
    }
    fclose(f);
    return r;
}

void run_rep(const Rep& r)
{
    static std::vector<uint64_t> W;
    static std::vector<SEnt> S;
    static std::vector<FEnt> F;
    W = r.W;
    S = r.S;
    F = r.F;
    std::sort(S.begin(), S.end(), [](const SEnt& a, const SEnt& b) { return a.tid != b.tid ? a.tid < b.tid : a.lev < b.lev; });
    std::sort(F.begin(), F.end(), [](const FEnt& a, const FEnt& b) { return a.kind != b.kind ? a.kind < b.kind : a.tid != b.tid ? a.tid < b.tid : a.n < b.n; });
    Input in;
    in.replay = true;
    in.seed = r.seed;
    in.nW = W.size();
    in.nS = S.size();
    in.nF = F.size();
    in.W = W.data();
    in.S = S.data();
    in.F = F.data();
    run_one(in);
}

uint64_t run_seed(uint64_t seed, uint64_t index)
{
    Rng r{seed * 0x9E3779B97F4A7C15ull + 0x1234567};
    r.s ^= index * 0xD1B54A32D192ED03ull;
    for (const char* p = property_id; *p; ++p) r.s = r.s * 131 + *p;
    r.next();
    return r.next() >> 1;
}

// ---- minimisation ---------------------------------------------------------------------
struct Minimiser
{
    Rep best;
    double deadline;
    int tries = 0, accepted = 0;
    bool attempt(const Rep& cand)
    {
        if (real_now() > deadline) return false;
        ++tries;
        run_rep(cand);
        if (shm->status == 2 && best.cls == shm->cls) {
            Rep r;
            from_result(r, cand.seed);
            best = r;
            ++accepted;
            return true;
        }
        return false;
    }
    template<typename T>
    void ddmin(std::vector<T> Rep::*field)
    {
        {
            Rep c = best;
            if ((c.*field).empty()) return;
            (c.*field).clear();
            if (attempt(c)) return;
        }
        size_t chunk = ((best.*field).size() + 1) / 2;
        while (chunk >= 1 && real_now() < deadline) {
            bool any = false;
            for (size_t i = 0; i < (best.*field).size() && real_now() < deadline;) {
                Rep c = best;
                auto& v = c.*field;
                size_t e = std::min(i + chunk, v.size());
                size_t before = v.size();
                v.erase(v.begin() + i, v.begin() + e);
                if (attempt(c) && (best.*field).size() < before)
                    any = true;
                else
                    i += chunk;
            }
            if (chunk == 1 && !any) break;
            chunk = chunk > 1 ? chunk / 2 : 1;
            if (chunk == 1 && !any && (best.*field).size() > 400) break;
        }
    }
    void zero_w()
    {
        size_t chunk = best.W.size();
        while (chunk >= 1 && real_now() < deadline) {
            for (size_t i = 0; i < best.W.size() && real_now() < deadline; i += chunk) {
                Rep c = best;
                bool ch = false;
                for (size_t j = i; j < std::min(i + chunk, c.W.size()); ++j)
                    if (c.W[j]) {
                        c.W[j] = 0;
                        ch = true;
                    }
                if (ch) attempt(c);
            }
            chunk /= 2;
        }
        for (size_t i = 0; i < best.W.size() && real_now() < deadline; ++i) {
            for (int k = 0; k < 12 && i < best.W.size() && best.W[i] > 1; ++k) {
                Rep c = best;
                c.W[i] = k < 6 ? c.W[i] / 2 : c.W[i] - 1;
                if (!attempt(c)) {
                    if (k < 6)
                        k = 5;
                    else
                        break;
                }
            }
        }
    }
    void del_w()
    {
        for (size_t chunk : {32u, 12u, 6u, 4u, 3u, 2u, 1u})
            for (size_t i = 0; i + chunk <= best.W.size() && real_now() < deadline;) {
                Rep c = best;
                size_t before = c.W.size();
                c.W.erase(c.W.begin() + i, c.W.begin() + i + chunk);
                if (!(attempt(c) && best.W.size() < before)) ++i;
                if (i > 120) break;
            }
    }
};

void usage()
{
    fprintf(stderr, "usage: %s batch|replay|minimise|det ...\n", "dsim");
    exit(3);
}

std::string opt(int argc, char** argv, const char* name, const char* def)
{
    for (int i = 2; i + 1 < argc; ++i)
        if (!strcmp(argv[i], name)) return argv[i + 1];
    return def;
}

void setup_scratch(int worker)
{
    char b[200];
    const char* root = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    int r;
    for (int k = 0; k < 1000; ++k) { // (a killed run may have left its directory behind)
        snprintf(b, sizeof b, "%s/dsim.%08d.%02d%03d", root, (int)getpid(), worker, k);
        r = mkdir(b, 0700);
        if (!r || errno != EEXIST) break;
    }
    scratch_base = b;
    scratch_dir = scratch_base + "/run";
    if (r || mkdir(scratch_dir.c_str(), 0700)) {
        perror(b);
        exit(3);
    }
}
void cleanup_scratch()
{
    wipe(scratch_base);
    rmdir(scratch_base.c_str());
}

void json_str(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char c = *s;
        if (c == '"' || c == '\\')
            fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126)
            fprintf(f, "\\u%04x", c);
        else
            fputc(c, f);
    }
    fputc('"', f);
}
} // namespace

int main(int argc, char** argv)
{
    if (!getenv("DSIM_EXEC")) {
        personality(ADDR_NO_RANDOMIZE);
        char tun[] = "GLIBC_TUNABLES=glibc.malloc.tcache_count=0:glibc.malloc.arena_max=1:glibc.pthread.rseq=0";
        char ex[] = "DSIM_EXEC=1", lc[] = "LC_ALL=C", tz[] = "TZ=UTC", path[] = "PATH=/usr/bin:/bin";
        char tr[] = "DSIM_TRACE=1";
        char* env[] = {tun, ex, lc, tz, path, getenv("DSIM_TRACE") ? tr : nullptr, nullptr};
        execve("/proc/self/exe", argv, env);
        perror("execve");
        return 3;
    }
    if (argc < 2) usage();
    std::string mode = argv[1];
    int worker = atoi(opt(argc, argv, "--worker", "0").c_str());
    int workers = atoi(opt(argc, argv, "--workers", "1").c_str());
    wall_limit_s = atoi(opt(argc, argv, "--wall", "30").c_str());
    {
        cpu_set_t avail;
        if (sched_getaffinity(0, sizeof avail, &avail) == 0) {
            int n = CPU_COUNT(&avail), want = worker % (n ? n : 1), k = 0;
            for (int c = 0; c < CPU_SETSIZE; ++c)
                if (CPU_ISSET(c, &avail) && k++ == want) {
                    cpu_set_t one;
                    CPU_ZERO(&one);
                    CPU_SET(c, &one);
                    if (opt(argc, argv, "--pin", "1") == "1") sched_setaffinity(0, sizeof one, &one);
                    break;
                }
        }
    }
    struct sigaction sa{};
    sa.sa_handler = on_alarm;
    sigaction(SIGALRM, &sa, nullptr);
    shm = static_cast<Result*>(mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (shm == MAP_FAILED) return 3;
    setup_scratch(worker);
    dsim_setup();

    int rc = 0;
    if (mode == "batch" || mode == "det") {
        uint64_t seed = strtoull(opt(argc, argv, "--seed", "1").c_str(), nullptr, 10);
        uint64_t runs = strtoull(opt(argc, argv, "--runs", "1000").c_str(), nullptr, 10);
        double budget = atof(opt(argc, argv, "--budget", "3600").c_str());
        uint64_t recheck = strtoull(opt(argc, argv, "--recheck", "0").c_str(), nullptr, 10);
        std::string out = opt(argc, argv, "--out", "/dev/stdout");
        std::string viol = opt(argc, argv, "--viol", "");
        uint64_t maxviol = strtoull(opt(argc, argv, "--max-viol", "4").c_str(), nullptr, 10);
        bool det = mode == "det";
        if (det) recheck = 1;
        double t0 = real_now();
        uint64_t done = 0, nontriv = 0, viols = 0, errors = 0, events = 0, mems = 0, switches = 0, preempts = 0, mempre = 0, maxthreads = 0, rechecks = 0, mismatches = 0;
        unsigned __int128 simtime = 0;
        uint64_t fired[F_KINDS] = {}, fruns[F_KINDS] = {};
        std::vector<Counter> counters;
        std::vector<std::pair<uint64_t, uint64_t>> hashes; // (interleaving, fold)
        std::vector<std::string> classes;
        std::vector<std::string> samples;
        std::string errmsg;
        std::vector<std::pair<std::string, std::regex>> known; // recorded findings: class and pattern
        if (const char* k = getenv("DSIM_KNOWN")) {
            std::string line;
            for (const char* q = k;; ++q) {
                if (*q && *q != '\n') {
                    line += *q;
                    continue;
                }
                const auto tab = line.find('\t');
                if (tab != std::string::npos) known.push_back({line.substr(0, tab), std::regex(line.substr(tab + 1))});
                line.clear();
                if (!*q) break;
            }
        }
        uint64_t known_runs = 0;
        for (uint64_t i = worker; i < runs; i += workers) {
            if (real_now() - t0 > budget) break;
            Input in;
            in.seed = run_seed(seed, i);
            run_one(in);
            ++done;
            if (shm->status == 3) {
                ++errors;
                errmsg = shm->msg;
                if (errors > 3) break;
                continue;
            }
            events += shm->events;
            mems += shm->mems;
            switches += shm->switches;
            preempts += shm->preempts;
            mempre += shm->mempreempts;
            simtime += shm->simtime;
            maxthreads = std::max(maxthreads, shm->threads);
            uint64_t nf = 0;
            for (int k = 0; k < F_KINDS; ++k) {
                fired[k] += shm->fired[k];
                fruns[k] += shm->fired[k] != 0;
                nf += shm->fired[k];
            }
            if (shm->is_nontrivial && (shm->preempts || nf || shm->switches)) {
                ++nontriv;
                hashes.push_back({shm->ilv, shm->fold});
            }
            for (uint64_t c = 0; c < shm->nC; ++c) {
                bool f = false;
                for (auto& x : counters)
                    if (!strcmp(x.name, shm->C[c].name)) {
                        if (x.is_max)
                            x.v = std::max(x.v, shm->C[c].v);
                        else
                            x.v += shm->C[c].v;
                        f = true;
                    }
                if (!f) counters.push_back(shm->C[c]);
            }
            if (samples.size() < 3 && shm->nlog && worker < 2 && shm->is_nontrivial) samples.push_back("run seed " + std::to_string(in.seed) + ": " + std::string(shm->log, std::min<size_t>(shm->nlog, 1500)));
            bool is_known = false;
            if (shm->status == 2)
                for (const auto& k : known) is_known = is_known || (k.first == shm->cls && std::regex_search(shm->msg, k.second));
            if (is_known) ++known_runs;
            if (shm->status == 2 && !is_known) {
                ++viols;
                std::string cls = shm->cls;
                if (!viol.empty() && std::find(classes.begin(), classes.end(), cls) == classes.end()) {
                    Rep r;
                    from_result(r, in.seed);
                    save(r, viol + "." + std::to_string(worker) + "." + std::to_string(classes.size()) + ".rep");
                    classes.push_back(cls);
                }
                if ((!det && viols >= maxviol * 8) || classes.size() >= maxviol) { if (!det) break; };
            }
            if (recheck && i % recheck < (uint64_t)workers) {
                uint64_t h = shm->hash, il = shm->ilv;
                Rep r;
                from_result(r, in.seed);
                int st = shm->status;
                std::string log1(shm->log, shm->nlog);
                run_one(in);
                bool ok = shm->hash == h && shm->ilv == il && shm->status == st;
                bool ok2 = true;
                if (ok) {
                    run_rep(r); // the recorded streams give the same run
                    ok2 = shm->hash == h && shm->status == st;
                }
                ++rechecks;
                if (!ok || !ok2) {
                    ++mismatches;
                    if (det) {
                        fprintf(stderr, "MISMATCH run %llu seed %llu (%s)\n", (unsigned long long)i, (unsigned long long)in.seed, ok ? "replay of streams" : "same seed");
                        FILE* f1 = fopen("/tmp/dsim.a.txt", "w");
                        fwrite(log1.data(), 1, log1.size(), f1);
                        fclose(f1);
                        f1 = fopen("/tmp/dsim.b.txt", "w");
                        fwrite(shm->log, 1, shm->nlog, f1);
                        fclose(f1);
                        break;
                    }
                }
            }
        }
        FILE* f = fopen(out.c_str(), "w");
        fprintf(f, "{\"runs\":%llu,\"known_runs\":%llu,\"nontrivial\":%llu,\"violations\":%llu,\"errors\":%llu,\"events\":%llu,\"mems\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"mem_preemptions\":%llu,\"simtime_ms\":%llu,\"max_threads\":%llu,\"rechecks\":%llu,\"mismatches\":%llu,\"wall\":%.3f,\n\"fired\":{", (unsigned long long)done, (unsigned long long)known_runs, (unsigned long long)nontriv, (unsigned long long)viols, (unsigned long long)errors, (unsigned long long)events, (unsigned long long)mems, (unsigned long long)switches, (unsigned long long)preempts, (unsigned long long)mempre, (unsigned long long)(simtime / 1000000), (unsigned long long)maxthreads, (unsigned long long)rechecks, (unsigned long long)mismatches, real_now() - t0);
        bool first = true;
        for (int k = 0; k < F_KINDS; ++k)
            if (fired[k]) {
                fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", fault_name(k), (unsigned long long)fired[k], (unsigned long long)fruns[k]);
                first = false;
            }
        fprintf(f, "},\n\"counters\":{");
        first = true;
        for (auto& c : counters) {
            fprintf(f, "%s", first ? "" : ",");
            json_str(f, c.name);
            fprintf(f, ":[%llu,%d]", (unsigned long long)c.v, c.is_max);
            first = false;
        }
        fprintf(f, "},\n\"samples\":[");
        first = true;
        for (auto& s : samples) {
            fprintf(f, "%s", first ? "" : ",");
            json_str(f, s.c_str());
            first = false;
        }
        fprintf(f, "],\n\"classes\":[");
        first = true;
        for (auto& s : classes) {
            fprintf(f, "%s", first ? "" : ",");
            json_str(f, s.c_str());
            first = false;
        }
        fprintf(f, "],\n\"error\":");
        json_str(f, errmsg.c_str());
        fprintf(f, ",\n\"hashes\":[");
        first = true;
        for (auto& h : hashes) {
            fprintf(f, "%s\"%llx.%llx\"", first ? "" : ",", (unsigned long long)h.first, (unsigned long long)h.second);
            first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
        if (errors) rc = 3;
        if (det) rc = mismatches ? 3 : 0;
    } else if (mode == "replay") {
        if (argc < 3) usage();
        Rep r = load(argv[2]);
        if (r.prop != property_id) {
            fprintf(stderr, "replay file is for %s, this is %s\n", r.prop.c_str(), property_id);
            rc = 3;
        } else {
            run_rep(r);
            bool lg = false;
            for (int i = 3; i < argc; ++i) lg |= !strcmp(argv[i], "--log");
            if (lg) fwrite(shm->log, 1, shm->nlog, stdout);
            printf("status %d\nclass %s\nhash %016llx\nexpected %016llx %s\nmessage %s\n", shm->status, shm->cls, (unsigned long long)shm->hash, (unsigned long long)r.hash, r.cls.c_str(), shm->msg);
            rc = shm->status == 2 ? 1 : shm->status == 1 ? 0 : 3;
        }
    } else if (mode == "seed") { // one run by run seed
        Input in;
        in.seed = strtoull(argv[2], nullptr, 10);
        run_one(in);
        fwrite(shm->log, 1, shm->nlog, stdout);
        printf("status %d\nclass %s\nhash %016llx\nmessage %s\n", shm->status, shm->cls, (unsigned long long)shm->hash, shm->msg);
        if (argc > 3) {
            Rep r;
            from_result(r, in.seed);
            save(r, argv[3]);
        }
    } else if (mode == "minimise") {
        if (argc < 4) usage();
        Minimiser m;
        m.best = load(argv[2]);
        double budget = atof(opt(argc, argv, "--budget", "20").c_str());
        m.deadline = real_now() + budget;
        Rep orig = m.best;
        m.attempt(orig);
        if (!m.accepted) {
            fprintf(stderr, "the recorded run does not reproduce its violation %s (got status %d %s: %s)\n", orig.cls.c_str(), shm->status, shm->cls, shm->msg);
            rc = 3;
        } else {
            double share = budget / 5;
            double dl = m.deadline;
            m.ddmin(&Rep::F);
            m.deadline = std::min(dl, real_now() + share);
            m.ddmin(&Rep::S);
            m.deadline = std::min(dl, real_now() + share);
            m.zero_w();
            m.deadline = std::min(dl, real_now() + share);
            m.del_w();
            m.deadline = dl;
            m.ddmin(&Rep::F);
            m.ddmin(&Rep::S);
            save(m.best, argv[3]);
            printf("minimised: %zu->%zu draws, %zu->%zu schedule decisions, %zu->%zu faults in %d tries\n", orig.W.size(), m.best.W.size(), orig.S.size(), m.best.S.size(), orig.F.size(), m.best.F.size(), m.tries);
            // the final run's log
            run_rep(m.best);
            std::string lp = std::string(argv[3]) + ".log";
            FILE* f = fopen(lp.c_str(), "w");
            if (f) {
                fwrite(shm->log, 1, shm->nlog, f);
                fclose(f);
            }
        }
    } else
        usage();
    cleanup_scratch();
    return rc;
}
