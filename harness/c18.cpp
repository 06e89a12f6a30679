// C18: extraction from archives.
#include "cosim/utility/zip.hpp"
#include "dsim.hpp"
#include "ziputil.hpp"

#include <dirent.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace dsim
{
const char* property_id = "C18";
}
using namespace dsim;
namespace cz = cosim::utility::zip;
void dsim_setup() {}

namespace
{
using zu::Bytes;
using zu::Entry;

// ---- archives ----------------------------------------------------------------------------------
enum Damage
{
    NONE,
    DATA, // one burst of at most 32 bits in the stored or compressed data of a file
    LATE_DATA, // the same, by another thread, at some time
    SIZES, // one bit in the sizes or checksum of the central directory
    HEADER, // one bit anywhere else
    TRUNCATED,
    LATE_TRUNCATED,
    D_KINDS
};
struct Archive
{
    std::vector<Entry> e;
    Bytes file;
    std::string path;
    Damage damage = NONE;
    size_t at = 0; // byte (damage) or length (truncation)
    int bit = 0, width = 1;
    uint64_t when = 0;
    bool escapes = false; // an entry that must be refused by extract_all
    bool conflict = false; // extract_all may have to fail
    bool badMethod = false;
    bool missing = false; // no such file
};

uint64_t rnd(uint64_t& s)
{
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
Bytes content(uint64_t seed, size_t n, int kind)
{
    Bytes b(n, 0);
    for (size_t i = 0; i < n; ++i) b[i] = kind == 0 ? static_cast<char>(rnd(seed)) : kind == 1 ? static_cast<char>('a' + rnd(seed) % 4) : kind == 2 ? '\0' : static_cast<char>("\r\n\x1a\0\xff"[rnd(seed) % 5]);
    return b;
}
Bytes damaged(const Archive& a)
{
    Bytes b = a.file;
    switch (a.damage) {
        case NONE: break;
        case TRUNCATED:
        case LATE_TRUNCATED: b.resize(a.at); break;
        default:
            for (int i = 0; i < a.width; ++i) {
                const size_t k = a.at * 8 + a.bit + i;
                if (i == 0 || i == a.width - 1 || (k * 2654435761u >> 7) % 2) b[k / 8] = static_cast<char>(b[k / 8] ^ (1 << k % 8));
            }
    }
    return b;
}

// ---- files ---------------------------------------------------------------------------------------
void put(const std::string& path, const Bytes& b)
{
    NoSim n;
    FILE* f = fopen(path.c_str(), "w");
    if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) fail("harness", "cannot write %s", path.c_str());
}
bool get(const std::string& path, Bytes& b)
{
    NoSim n;
    struct stat st;
    if (lstat(path.c_str(), &st) || !S_ISREG(st.st_mode)) return false;
    FILE* f = fopen(path.c_str(), "r");
    if (!f) return false;
    b.assign(st.st_size, 0);
    const size_t k = fread(&b[0], 1, b.size(), f);
    fclose(f);
    return k == b.size();
}
void list(const std::string& dir, const std::string& prefix, std::set<std::string>& out)
{
    NoSim n;
    if (DIR* d = opendir(dir.c_str())) {
        while (auto e = readdir(d)) {
            const std::string s = e->d_name;
            if (s == "." || s == "..") continue;
            struct stat st;
            if (lstat((dir + "/" + s).c_str(), &st)) continue;
            out.insert(prefix + s + (S_ISDIR(st.st_mode) ? "/" : ""));
            if (S_ISDIR(st.st_mode)) list(dir + "/" + s, prefix + s + "/", out);
        }
        closedir(d);
    }
}
// Lexically normalised; empty if it leaves the directory or names it
std::string normal(const std::string& name, bool& leaves)
{
    std::vector<std::string> parts;
    size_t i = 0;
    while (i < name.size()) {
        const size_t j = std::min(name.find('/', i), name.size());
        const auto p = name.substr(i, j - i);
        i = j + 1;
        if (p.empty() || p == ".") continue;
        if (p == "..") {
            if (parts.empty())
                leaves = true;
            else
                parts.pop_back();
        } else {
            parts.push_back(p);
        }
    }
    std::string r;
    for (const auto& p : parts) r += (r.empty() ? "" : "/") + p;
    return r;
}

struct Op
{
    enum Kind
    {
        OPEN,
        ALL,
        ONE,
        QUERY,
        MOVE,
        CLOSE
    } kind;
    uint64_t a, b, pause;
};
struct World
{
    std::vector<Archive> archives;
    std::vector<std::vector<Op>> plan;
    bool done = false;
    int extractions = 0;
};
World* w;

uint64_t io_faults()
{
    uint64_t n = 0;
    for (int k : {F_MKDIR_FAIL, F_OPEN_FAIL, F_WRITE_FAIL, F_CLOSE_FAIL, F_READ_FAIL, F_SEEK_FAIL, F_ALLOC_FAIL}) n += faults_fired(k);
    return n;
}
bool sound(const Archive& a) { return a.damage == NONE; }
// Are the names and the number of entries those that were written?
bool names_known(const Archive& a) { return a.damage != HEADER; }

void check_outside(const std::string& base)
{
    std::set<std::string> all;
    list(base + "/outside", "", all);
    Bytes b;
    if (all.size() != 1 || !get(base + "/outside/precious", b) || b != "42") fail("outside", "something outside the target directory was changed");
}

// After extract_all() returned normally
void check_all(const Archive& a, const std::string& target, const std::set<std::string>& before)
{
    NoSim n;
    if (a.escapes && names_known(a)) fail("escape", "the archive has an entry that is not below the target directory, but it was extracted");
    if (a.badMethod && names_known(a)) fail("unreadable", "the archive has an entry that cannot be read, but its extraction was successful");
    std::map<std::string, const Entry*> files;
    std::set<std::string> expected = before;
    for (const auto& e : a.e) {
        bool leaves = false;
        auto s = normal(e.shown, leaves);
        if (!e.dir) files[s] = &e;
        expected.insert(e.dir ? s + "/" : s);
        for (size_t i = s.find('/'); i != std::string::npos; i = s.find('/', i + 1)) expected.insert(s.substr(0, i + 1));
    }
    std::set<std::string> found;
    list(target, "", found);
    for (const auto& f : files) {
        Bytes b;
        if (!get(target + "/" + f.first, b)) {
            if (names_known(a)) fail("missing", "%s was not extracted", f.first.c_str());
            continue;
        }
        if (!names_known(a)) {
            if (before.count(f.first)) continue;
            bool same = false;
            for (const auto& e : a.e) {
                bool l = false;
                same |= !e.dir && normal(e.shown, l) == f.first && e.data == b;
            }
            if (same) continue;
        }
        if (b != f.second->data) fail("content", "%s has other contents (%zu bytes) than in the archive (%zu bytes)", f.first.c_str(), b.size(), f.second->data.size());
        count("files compared");
    }
    if (names_known(a)) {
        for (const auto& f : expected)
            if (!found.count(f) && f != "/" && f.find("..") == std::string::npos) fail("missing", "%s was not created", f.c_str());
        for (const auto& f : found)
            if (!expected.count(f) && !a.conflict) fail("extra", "%s is not in the archive", f.c_str());
    }
}

void worker(int th)
{
    const auto base = std::string(scratch());
    std::unique_ptr<cz::archive> z;
    const Archive* a = nullptr;
    int serial = 0;
    auto mayFail = [&](uint64_t before) { return io_faults() != before || !sound(*a); };
    for (const auto& o : w->plan[th]) {
        if (o.pause) advance(o.pause);
        const auto before = io_faults();
        switch (o.kind) {
            case Op::OPEN: {
                z.reset();
                a = &w->archives[o.a % w->archives.size()];
                try {
                    AllocFaults af;
                    if (o.b % 2) {
                        z = std::make_unique<cz::archive>(a->path);
                    } else {
                        z = std::make_unique<cz::archive>();
                        if (z->is_open()) fail("open", "a new archive object is open");
                        z->open(a->path);
                    }
                } catch (const std::exception& e) {
                    NoSim n;
                    if (!dynamic_cast<const cz::error*>(&e) && !dynamic_cast<const std::bad_alloc*>(&e)) fail("exception", "opening an archive failed with another exception: %s", e.what());
                    if (!mayFail(before) && !a->missing) fail("exception", "opening a good archive failed: %s", e.what());
                    count("errors reported");
                    z.reset();
                    break;
                }
                NoSim n;
                if (a->missing) fail("open", "a file that is not an archive was opened");
                if (!z->is_open()) fail("open", "the archive is not open after open()");
                count("archives opened");
                break;
            }
            case Op::CLOSE:
                if (z) z->discard();
                if (z && z->is_open()) fail("open", "the archive is open after discard()");
                z.reset();
                break;
            case Op::MOVE:
                if (!z) break;
                if (o.b % 2) {
                    auto y = std::make_unique<cz::archive>(std::move(*z));
                    if (z->is_open()) fail("open", "an archive object that was moved from is open");
                    z = std::move(y);
                } else if (o.b % 4 == 2) {
                    // Assignment to an archive object that is open
                    const auto& other = w->archives[o.a % w->archives.size()];
                    std::unique_ptr<cz::archive> y;
                    try {
                        AllocFaults af;
                        y = std::make_unique<cz::archive>(other.path);
                    } catch (const std::exception&) {
                        y = std::make_unique<cz::archive>();
                    }
                    *y = std::move(*z);
                    if (z->is_open()) fail("open", "an archive object that was moved from is open");
                    z = std::move(y);
                } else {
                    cz::archive y;
                    y = std::move(*z);
                    *z = std::move(y);
                }
                if (!z->is_open()) fail("open", "the archive is not open any more after a move");
                break;
            case Op::QUERY: {
                if (!z) break;
                try {
                    AllocFaults af;
                    const auto cnt = z->entry_count();
                    NoSim n;
                    if (!names_known(*a) || a->damage == TRUNCATED) break;
                    if (cnt != a->e.size()) fail("count", "entry_count() is %llu instead of %zu", (unsigned long long)cnt, a->e.size());
                    if (a->e.empty()) break;
                    const auto i = o.a % a->e.size();
                    const auto& e = a->e[i];
                    if (z->entry_name(i) != e.shown) fail("name", "entry %llu is called %s instead of %s", (unsigned long long)i, z->entry_name(i).c_str(), e.shown.c_str());
                    if (a->damage != SIZES && z->is_dir_entry(i) != e.dir) fail("kind", "entry %s is taken for a %s", e.shown.c_str(), e.dir ? "file" : "directory");
                    const auto k = z->find_entry(e.shown);
                    if (k >= cnt || a->e[k].shown != e.shown) fail("find", "the entry %s is not found", e.shown.c_str());
                    if (z->find_entry(e.shown + "x") != cz::invalid_entry_index) {
                        bool real = false;
                        for (const auto& x : a->e) real |= x.shown == e.shown + "x";
                        if (!real) fail("find", "an entry that does not exist is found");
                    }
                    count("queries");
                } catch (const std::exception& e) {
                    NoSim n;
                    if (!mayFail(before)) fail("exception", "a query of a good archive failed: %s", e.what());
                }
                break;
            }
            case Op::ALL: {
                if (!z) break;
                const auto target = base + "/t" + std::to_string(th) + "_" + std::to_string(serial++);
                std::set<std::string> there;
                {
                    NoSim n;
                    if (o.a % 8 != 7) ::mkdir(target.c_str(), 0777);
                    if (o.a % 3 == 0 && o.a % 8 != 7) { // older versions of the files
                        for (const auto& e : a->e)
                            if (!e.dir && e.name.find('/') == std::string::npos && e.name != "..") {
                                Bytes old = e.data + "old contents";
                                if (o.b % 3) old.resize(o.b % 3 == 1 ? e.data.size() : e.data.size() / 2);
                                if (!old.empty()) old[old.size() / 2] ^= 1;
                                put(target + "/" + e.shown, old);
                                there.insert(e.shown);
                            }
                        put(target + "/other", "other");
                        there.insert("other");
                    }
                    ++w->extractions;
                }
                bool ok = false;
                try {
                    AllocFaults af;
                    z->extract_all(target);
                    ok = true;
                } catch (const std::exception& e) {
                    NoSim n;
                    dsim::log("t%d extraction failed: %s", tid(), strrchr(e.what(), '/') ? strrchr(e.what(), '/') : e.what());
                    if (!mayFail(before) && !a->escapes && !a->conflict && !a->badMethod && o.a % 8 != 7) fail("exception", "the extraction of a good archive failed: %s", e.what());
                    count("extractions refused");
                }
                if (ok) {
                    if (o.a % 8 == 7) fail("no-target", "extraction to a nonexistent directory was successful");
                    check_all(*a, target, there);
                    count("extractions");
                }
                {
                    NoSim n;
                    Bytes b;
                    if (there.count("other") && !(get(target + "/other", b) && b == "other")) fail("extra", "a file that is not in the archive was changed");
                }
                check_outside(base);
                break;
            }
            case Op::ONE: {
                if (!z || a->e.empty()) break;
                const auto& e = a->e[o.a % a->e.size()];
                const auto target = base + "/t" + std::to_string(th) + "_" + std::to_string(serial++);
                {
                    NoSim n;
                    if (o.b % 8 != 7) ::mkdir(target.c_str(), 0777);
                    ++w->extractions;
                }
                try {
                    AllocFaults af;
                    const auto i = z->find_entry(e.shown);
                    if (i == cz::invalid_entry_index) {
                        NoSim n;
                        if (names_known(*a)) fail("find", "the entry %s is not found", e.shown.c_str());
                        break;
                    }
                    const auto p = z->extract_file_to(i, target).string();
                    NoSim n;
                    if (o.b % 8 == 7) fail("no-target", "extraction to a nonexistent directory was successful");
                    std::set<std::string> found;
                    list(target, "", found);
                    if (!names_known(*a)) {
                        bool same = false;
                        Bytes b;
                        for (const auto& x : a->e) same |= x.shown == e.shown && get(p, b) && b == x.data;
                        if (!same) fail("content", "%s has other contents (%zu bytes) than in the archive", p.c_str(), b.size());
                        break;
                    }
                    const auto want = e.shown.substr(e.shown.rfind('/') + 1);
                    if (e.dir || want == "..") fail("kind", "%s was extracted as a file", e.shown.c_str());
                    if (p != target + "/" + want) fail("path", "%s was extracted to %s", e.shown.c_str(), p.c_str());
                    if (found.size() != 1) fail("extra", "%zu files were created instead of one", found.size());
                    if (e.method == 97) fail("unreadable", "an entry that cannot be read was extracted");
                    Bytes b;
                    bool same = false;
                    for (const auto& x : a->e) same |= x.shown == e.shown && get(p, b) && b == x.data;
                    if (!same) fail("content", "%s has other contents (%zu bytes) than in the archive", p.c_str(), b.size());
                    count("single extractions");
                } catch (const std::exception& x) {
                    NoSim n;
                    dsim::log("t%d extraction of one failed: %s", tid(), strrchr(x.what(), '/') ? strrchr(x.what(), '/') : x.what());
                    if (!mayFail(before) && e.method != 97 && !e.dir && o.b % 8 != 7 && e.shown.substr(e.shown.rfind('/') + 1) != "..") fail("exception", "the extraction of one file failed: %s", x.what());
                    count("extractions refused");
                }
                check_outside(base);
                break;
            }
        }
    }
}

// Damages an archive at some time
void spoiler()
{
    for (;;) {
        bool more;
        {
            NoSim n;
            more = !w->done;
            for (auto& a : w->archives)
                if ((a.damage == LATE_DATA || a.damage == LATE_TRUNCATED) && a.when && now() >= a.when) {
                    a.when = 0;
                    const auto b = damaged(a);
                    int fd = ::open(a.path.c_str(), O_WRONLY);
                    if (a.damage == LATE_TRUNCATED) {
                        (void)!::ftruncate(fd, b.size());
                    } else {
                        (void)!::pwrite(fd, b.data(), b.size(), 0);
                    }
                    ::close(fd);
                    dsim::log("archive damaged");
                    count("archives damaged meanwhile");
                }
        }
        if (!more) return;
        advance(3000);
    }
}
} // namespace

void dsim_run()
{
    World world;
    w = &world;
    const auto base = std::string(scratch());
    ::mkdir((base + "/outside").c_str(), 0777);
    put(base + "/outside/precious", "42");
    sched_config cfg;
    static const char* const DIRS[] = {"", "d/", "d/e/", "resources/", "binaries/linux64/", "d e/", "./", "d//", "longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglong/"};
    static const char* const FILES[] = {"a", "b.txt", "modelDescription.xml", "x y", ".hidden", "%41", "back\\slash", "\xc3\xa6.txt", "a.so", "..a", "a~"};
    static const char* const EVIL[] = {"/abs", "../up", "d/../../up", "..", "../outside/precious", "//net/x", "d/../x/../../outside/precious", "../"};
    const int n = static_cast<int>(1 + draw(2));
    bool late = false;
    for (int i = 0; i < n; ++i) {
        Archive a;
        a.path = base + "/archive" + std::to_string(i) + ".zip";
        const int files = static_cast<int>(draw(6));
        for (int k = 0; k < files; ++k) {
            Entry e;
            const std::string dir = DIRS[draw(9)];
            e.dir = draw_bool(15) && !dir.empty();
            e.name = dir + (e.dir ? "" : FILES[draw(11)]);
            e.shown = e.name;
            if (!e.dir) {
                const auto sz = draw(10);
                const size_t len = sz < 2 ? 0 : sz < 5 ? 1 + draw(200) : sz < 7 ? 8192 - 1 + draw(3) : sz < 9 ? 65536 - 2 + draw(5) : 65536 + draw(200000);
                const int kind = static_cast<int>(draw(4));
                e.data = content(draw(1000000), len, kind);
                e.method = draw_bool(60) ? 8 : 0;
            }
            a.e.push_back(e);
        }
        const auto special = draw(100);
        if (special >= 80 && special < 90) {
            Entry e;
            e.name = e.shown = EVIL[draw(8)];
            e.dir = e.name.back() == '/';
            if (!e.dir) e.data = "evil";
            a.e.insert(a.e.begin() + draw(a.e.size() + 1), e);
            a.escapes = true;
        } else if (special >= 90 && special < 93) {
            Entry e;
            e.name = e.shown = "unreadable";
            e.data = "?";
            e.method = 97;
            a.e.insert(a.e.begin() + draw(a.e.size() + 1), e);
            a.badMethod = true;
        } else if (special >= 93 && special < 96) { // stays inside
            Entry e;
            e.name = e.shown = "d/../inside";
            e.data = "inside";
            a.e.push_back(e);
            a.conflict = true;
        } else if (special >= 96) {
            a.missing = true;
        }
        // a file where another entry needs a directory, or the other way around
        for (auto& x : a.e)
            for (auto& y : a.e) {
                bool l = false;
                const auto p = normal(x.shown, l), q = normal(y.shown, l);
                if (&x != &y && !x.dir && (q.compare(0, p.size() + 1, p + "/") == 0 || (y.dir && p == q))) a.conflict = true;
            }
        {
            const bool descriptors = draw_bool(30);
            a.file = zu::make_zip(a.e, descriptors, draw_bool(30) ? content(draw(1000), draw(60), 1) : "");
        }
        const auto dmg = draw(100);
        size_t total = 0;
        for (auto& e : a.e) total += e.dataLen;
        if (dmg >= 50 && !a.missing) {
            a.damage = dmg < 62 ? DATA : dmg < 72 ? LATE_DATA : dmg < 82 ? SIZES : dmg < 90 ? HEADER : dmg < 95 ? TRUNCATED : LATE_TRUNCATED;
            const auto r1 = draw(1 << 30), r2 = draw(1 << 30), r3 = draw(1 << 30);
            switch (a.damage) {
                case DATA:
                case LATE_DATA: {
                    if (!total) {
                        a.damage = NONE;
                        break;
                    }
                    size_t k = r1 % total;
                    for (auto& e : a.e) {
                        if (k < e.dataLen) {
                            a.at = e.dataAt + k;
                            a.bit = static_cast<int>(r2 % 8);
                            a.width = static_cast<int>(std::min<size_t>(1 + r3 % 24, (e.dataLen - k) * 8 - a.bit));
                            break;
                        }
                        k -= e.dataLen;
                    }
                    break;
                }
                case SIZES:
                    if (a.e.empty()) {
                        a.damage = NONE;
                    } else {
                        a.at = a.e[r1 % a.e.size()].centralAt + 16 + r2 % 12;
                        a.bit = static_cast<int>(r3 % 8);
                    }
                    break;
                case HEADER: {
                    a.at = r1 % a.file.size();
                    for (int t = 0; t < 64; ++t) { // (the data are small enough for this to find something)
                        bool inData = false;
                        for (auto& e : a.e) inData |= a.at >= e.dataAt && a.at < e.dataAt + e.dataLen;
                        if (!inData) break;
                        a.at = (a.at * 7919 + r2) % a.file.size();
                        if (t > 32) a.at = a.file.size() - 1 - r2 % std::min<size_t>(a.file.size(), 60);
                    }
                    a.bit = static_cast<int>(r3 % 8);
                    break;
                }
                case TRUNCATED:
                case LATE_TRUNCATED: a.at = r1 % a.file.size(); break;
                default: break;
            }
            if (a.damage == LATE_DATA || a.damage == LATE_TRUNCATED) {
                a.when = 1000 + draw(400000);
                late = true;
            }
        }
        if (a.missing) {
            const auto k = draw(3);
            if (k == 0) put(a.path, content(1, draw(300), 1));
            if (k == 1) ::mkdir(a.path.c_str(), 0777);
        } else {
            put(a.path, a.damage == LATE_DATA || a.damage == LATE_TRUNCATED ? a.file : damaged(a));
        }
        w->archives.push_back(a);
    }
    const int threads = static_cast<int>(1 + draw(2));
    for (int t = 0; t < threads; ++t) {
        std::vector<Op> ops;
        ops.push_back({Op::OPEN, draw(10), draw(10), 0});
        const int k = static_cast<int>(1 + draw(4));
        for (int i = 0; i < k; ++i) {
            const auto x = draw(100);
            Op o{};
            o.kind = x < 35 ? Op::ALL : x < 65 ? Op::ONE : x < 80 ? Op::QUERY : x < 86 ? Op::MOVE : x < 90 ? Op::CLOSE : Op::OPEN;
            o.a = draw(1000);
            o.b = draw(1000);
            o.pause = draw_bool(20) ? 1 + draw(100000) : 0;
            ops.push_back(o);
        }
        w->plan.push_back(ops);
    }
    const bool errors = draw_bool(45);
    if (errors) {
        const unsigned rate = draw_bool(50) ? 10000 : 100000;
        if (draw_bool(30)) enable_fault(F_MKDIR_FAIL, rate);
        if (draw_bool(30)) enable_fault(F_OPEN_FAIL, rate);
        if (draw_bool(40)) enable_fault(F_WRITE_FAIL, rate);
        if (draw_bool(30)) enable_fault(F_CLOSE_FAIL, rate);
        if (draw_bool(40)) enable_fault(F_READ_FAIL, rate);
        if (draw_bool(20)) enable_fault(F_SEEK_FAIL, rate);
        if (draw_bool(30)) enable_fault(F_ALLOC_FAIL, rate);
    }
    if (draw_bool(40)) enable_fault(F_WRITE_SHORT, 200000);
    if (draw_bool(20)) enable_fault(F_STALL, 3000);
    start(cfg);
    dsim::log("%d archives, %d threads%s", n, threads, errors ? ", errors" : "");
    for (auto& a : w->archives) {
        dsim::log("archive of %zu bytes, damage %d at %zu.%d width %d when %llu%s", a.file.size(), a.damage, a.at, a.bit, a.width, (unsigned long long)a.when, a.missing ? ", missing" : "");
        for (auto& e : a.e) dsim::log("  `%s' %zu bytes, method %d, data %zu+%zu, central %zu", e.name.c_str(), e.data.size(), e.method, e.dataAt, e.dataLen, e.centralAt);
    }
    std::vector<std::thread> ts;
    std::thread sp;
    if (late) sp = std::thread(spoiler);
    for (int t = 1; t < threads; ++t) ts.emplace_back(worker, t);
    worker(0);
    for (auto& t : ts) t.join();
    {
        NoSim x;
        w->done = true;
    }
    if (late) sp.join();
    for (int k = 0; k < F_KINDS; ++k) disable_fault(k);
    check_outside(base);
    NoSim x;
    if (fs_open_count()) fail("left-open", "%d files are still open after all archives have been closed", fs_open_count());
    std::set<std::string> all;
    if (DIR* d = opendir(base.c_str())) {
        while (auto e = readdir(d)) {
            const std::string s = e->d_name;
            if (s != "." && s != ".." && s != "outside" && s[0] != 't' && s.compare(0, 7, "archive")) fail("outside", "%s was created outside of the target directories", s.c_str());
        }
        closedir(d);
    }
    if (w->extractions) nontrivial();
    fold(w->extractions);
}
