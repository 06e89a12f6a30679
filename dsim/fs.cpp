// File-system seam: real files below a per-run scratch directory, with injected errors, scheduling points,
// simulated POSIX record locks per virtual process, and containment of destructive calls.
#include "rt.hpp"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
using namespace dsim;

namespace dsim
{
template<typename T>
T real_fn(const char* name)
{
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) abort();
    return reinterpret_cast<T>(p);
}
} // namespace dsim

namespace
{
constexpr int MAXFD = 1024;
struct Fd
{
    bool tracked; // below the fault root
    bool lockable; // a regular file below scratch
    int vproc;
    dev_t dev;
    ino_t ino;
};
Fd fds[MAXFD];

struct Lock // one held record lock: whole files only matter here, ranges are kept anyway
{
    bool used;
    int vproc;
    dev_t dev;
    ino_t ino;
    bool excl;
    int64_t start, end; // end exclusive; INT64_MAX: to the end
};
constexpr int MAXL = 256;
Lock locks[MAXL];

struct Waiter // who waits for what (for deadlock detection)
{
    bool used;
    int vproc;
    dev_t dev;
    ino_t ino;
    bool excl;
    int64_t start, end;
};
Waiter waiters[MAXT];

bool stdio_bad[MAXFD];
bool virtual_mtime;
// Files are given the virtual time as the time of their last change.
void stamp(int fd)
{
    if (!virtual_mtime) return;
    const uint64_t t = dsim::wall();
    const struct timespec ts[2] = {{0, UTIME_OMIT}, {(time_t)(t / 1000000000), (long)(t % 1000000000)}};
    raw_syscall(SYS_utimensat, fd, 0, (long)ts, 0);
}

bool under(const char* path, const char* root)
{
    size_t n = strlen(root);
    while (n > 1 && root[n - 1] == '/') --n;
    return n && !strncmp(path, root, n) && (path[n] == '/' || path[n] == 0);
}

// Absolute, lexically normalised path. Returns false if it cannot be determined.
bool absolute(int dirfd, const char* path, char* out, size_t sz)
{
    char tmp[4096];
    if (!path) return false;
    if (path[0] == '/') {
        snprintf(tmp, sizeof tmp, "%s", path);
    } else if (dirfd == AT_FDCWD) {
        long n = raw_syscall(SYS_getcwd, (long)tmp, sizeof tmp);
        if (n <= 0) return false;
        size_t l = strlen(tmp);
        snprintf(tmp + l, sizeof tmp - l, "/%s", path);
    } else {
        char link[64];
        snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
        long n = raw_syscall(SYS_readlink, (long)link, (long)tmp, sizeof tmp - 1);
        if (n <= 0) return false;
        tmp[n] = 0;
        size_t l = strlen(tmp);
        snprintf(tmp + l, sizeof tmp - l, "/%s", path);
    }
    // normalise
    size_t o = 0;
    const char* p = tmp;
    out[0] = 0;
    while (*p) {
        while (*p == '/') ++p;
        const char* q = p;
        while (*q && *q != '/') ++q;
        size_t n = q - p;
        if (n == 0) break;
        if (n == 1 && p[0] == '.') {
        } else if (n == 2 && p[0] == '.' && p[1] == '.') {
            while (o > 0 && out[o - 1] != '/') --o;
            if (o > 0) --o;
            out[o] = 0;
        } else {
            if (o + n + 2 > sz) return false;
            out[o++] = '/';
            memcpy(out + o, p, n);
            o += n;
            out[o] = 0;
        }
        p = q;
    }
    if (o == 0) {
        out[0] = '/';
        out[1] = 0;
    }
    return true;
}

bool in_run() { return G.active && me && !me->nosim; }

// A destructive or creating call: refused and reported outside the allowed directory.
void guard(const char* op, int dirfd, const char* path)
{
    if (!G.res || !G.allow_root[0]) return;
    char a[4096];
    InRt rt;
    if (!absolute(dirfd, path, a, sizeof a) || !under(a, G.allow_root))
        fail("file-escape", "%s of `%s' outside of the scratch directory", op, path ? path : "(null)");
}
bool faulty(int dirfd, const char* path)
{
    if (!in_run()) return false;
    InRt rt;
    char a[4096];
    return absolute(dirfd, path, a, sizeof a) && under(a, G.fault_root);
}
bool disk_full;
bool inject(int kind, const char* op, const char* what)
{
    if (disk_full && (kind == F_WRITE_FAIL || kind == F_MKDIR_FAIL) && me && !me->nosim) {
        dsim::log("disk full in %s", op);
        ++me->full_hits;
        ++G.res->fired[kind];
        return true;
    }
    uint64_t v = dsim::fault(kind, 1);
    if (v) dsim::log("  in %s %s", op, what ? strrchr(what, '/') ? strrchr(what, '/') + 1 : what : "");
    return v != 0;
}
void track(int fd, int dirfd, const char* path)
{
    if (fd < 0 || fd >= MAXFD || !G.active || !me) return;
    InRt rt;
    char a[4096];
    Fd& f = fds[fd];
    memset(&f, 0, sizeof f);
    stdio_bad[fd] = false;
    f.vproc = me->vproc;
    if (!absolute(dirfd, path, a, sizeof a)) return;
    f.tracked = under(a, G.fault_root);
    struct stat st;
    if (under(a, G.scratch) && raw_syscall(SYS_fstat, fd, (long)&st) == 0) {
        f.lockable = S_ISREG(st.st_mode);
        f.dev = st.st_dev;
        f.ino = st.st_ino;
    }
}
long ret(long r)
{
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
bool overlap(int64_t a, int64_t b, int64_t c, int64_t d) { return a < d && c < b; }

void drop_locks(int vp, dev_t dev, ino_t ino)
{
    bool any = false;
    for (auto& l : locks)
        if (l.used && l.vproc == vp && l.dev == dev && l.ino == ino) {
            l.used = false;
            any = true;
        }
    if (any) wake_all(locks);
}
void on_close(int fd)
{
    if (fd < 0 || fd >= MAXFD) return;
    Fd& f = fds[fd];
    if (f.lockable && me) {
        // POSIX: closing any descriptor of a file drops all the process's locks on it
        drop_locks(f.vproc, f.dev, f.ino);
    }
    memset(&f, 0, sizeof f);
}
} // namespace

namespace dsim
{
void fs_init() {}
void fs_vproc_died(int vp)
{
    for (auto& l : locks)
        if (l.used && l.vproc == vp) l.used = false;
    for (auto& w : waiters)
        if (w.used && w.vproc == vp) w.used = false;
    for (int i = 3; i < MAXFD; ++i)
        if (fds[i].lockable && fds[i].vproc == vp) {
            raw_syscall(SYS_close, i);
            memset(&fds[i], 0, sizeof fds[i]);
        }
    wake_all(locks);
}
int vproc_locks_held(int vp)
{
    int n = 0;
    for (auto& l : locks) n += l.used && l.vproc == vp;
    return n;
}
void fs_fault_root(const char* p) { snprintf(G.fault_root, sizeof G.fault_root, "%s", p); }
void fs_virtual_mtime(bool on) { virtual_mtime = on; }
void fs_disk_full(bool on) { disk_full = on; }
uint64_t fs_disk_full_hits() { return me ? me->full_hits : 0; }
void fs_allow_root(const char* p) { snprintf(G.allow_root, sizeof G.allow_root, "%s", p); }
int fs_open_count(bool locks)
{
    // (not all ways to close a descriptor can be seen from here)
    int n = 0;
    ++me->nosim;
    for (int i = 0; i < MAXFD; ++i) {
        char name[64], target[4096];
        snprintf(name, sizeof name, "/proc/self/fd/%d", i);
        const long k = raw_syscall(SYS_readlinkat, AT_FDCWD, (long)name, (long)target, sizeof target - 1);
        if (k <= 0) continue;
        target[k] = 0;
        const char* base = strrchr(target, '/');
        if (!locks && base && (!strcmp(base, "/lock") || strstr(base, ".lock"))) continue;
        if (under(target, G.fault_root)) {
            ++n;
            dsim::log("descriptor %d: %s", i, strrchr(target, '/') + 1);
        }
    }
    --me->nosim;
    return n;
}
} // namespace dsim

// ---- open / close ------------------------------------------------------------------------
static int open_impl(int dirfd, const char* path, int flags, mode_t mode)
{
    if (!in_run()) {
        int fd = (int)ret(raw_syscall(SYS_openat, dirfd, (long)path, flags, mode));
        if (fd >= 0 && fd < MAXFD) memset(&fds[fd], 0, sizeof fds[fd]);
        return fd;
    }
    event("open", path);
    if (flags & (O_CREAT | O_TRUNC)) guard("creation", dirfd, path);
    if (faulty(dirfd, path)) {
        if (inject(F_OPEN_FAIL, "open", path)) {
            errno = (flags & O_CREAT) ? ENOSPC : EMFILE;
            return -1;
        }
    }
    int fd = (int)ret(raw_syscall(SYS_openat, dirfd, (long)path, flags, mode));
    int e = errno;
    if (fd >= 0) track(fd, dirfd, path);
    if (fd >= 0 && (flags & (O_CREAT | O_TRUNC)) && fd < MAXFD && fds[fd].tracked) stamp(fd);
    errno = e;
    return fd;
}
#define MODE_ARG(flags) \
    mode_t mode = 0; \
    if ((flags) & (O_CREAT | O_TMPFILE)) { \
        va_list ap; \
        va_start(ap, flags); \
        mode = va_arg(ap, mode_t); \
        va_end(ap); \
    }
EXPORT int open(const char* path, int flags, ...)
{
    MODE_ARG(flags)
    return open_impl(AT_FDCWD, path, flags, mode);
}
EXPORT int open64(const char* path, int flags, ...)
{
    MODE_ARG(flags)
    return open_impl(AT_FDCWD, path, flags, mode);
}
EXPORT int openat(int d, const char* path, int flags, ...)
{
    MODE_ARG(flags)
    return open_impl(d, path, flags, mode);
}
EXPORT int openat64(int d, const char* path, int flags, ...)
{
    MODE_ARG(flags)
    return open_impl(d, path, flags, mode);
}
EXPORT int creat(const char* path, mode_t mode) { return open_impl(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

EXPORT int close(int fd)
{
    bool tr = fd >= 0 && fd < MAXFD && fds[fd].tracked;
    if (in_run() && (tr || (fd >= 0 && fd < MAXFD && fds[fd].lockable))) {
        event("close", nullptr);
        bool bad = tr && inject(F_CLOSE_FAIL, "close", "");
        {
            InRt rt;
            on_close(fd);
        }
        long r = raw_syscall(SYS_close, fd);
        if (bad) {
            errno = EIO;
            return -1;
        }
        return (int)ret(r);
    }
    if (G.active && me) {
        InRt rt;
        on_close(fd);
    }
    return (int)ret(raw_syscall(SYS_close, fd));
}

// ---- stdio -----------------------------------------------------------------------------------
static FILE* fopen_impl(const char* fn, const char* path, const char* mode)
{
    using F = FILE* (*)(const char*, const char*);
    static F r1 = real_fn<F>("fopen"), r2 = real_fn<F>("fopen64");
    F real = fn[5] ? r2 : r1;
    if (!in_run()) return real(path, mode);
    event("open", path);
    if (mode[0] == 'w' || mode[0] == 'a') guard("creation", AT_FDCWD, path);
    if (faulty(AT_FDCWD, path) && inject(F_OPEN_FAIL, "open", path)) {
        errno = mode[0] == 'r' ? EMFILE : ENOSPC;
        return nullptr;
    }
    FILE* f;
    {
        InRt rt;
        f = real(path, mode);
        int e = errno;
        if (f) track(fileno(f), AT_FDCWD, path);
        if (f && mode[0] != 'r' && fileno(f) < MAXFD && fds[fileno(f)].tracked) stamp(fileno(f));
        errno = e;
    }
    return f;
}
EXPORT FILE* fopen(const char* path, const char* mode) { return fopen_impl("fopen", path, mode); }
EXPORT FILE* fopen64(const char* path, const char* mode) { return fopen_impl("fopen64", path, mode); }
EXPORT int fclose(FILE* f)
{
    static auto real = real_fn<int (*)(FILE*)>("fclose");
    int fd = fileno(f);
    bool tr = fd >= 0 && fd < MAXFD && fds[fd].tracked;
    if (!in_run()) {
        if (G.active && me) {
            InRt rt;
            on_close(fd);
        }
        return real(f);
    }
    event("close", nullptr);
    bool bad = tr && inject(F_CLOSE_FAIL, "fclose", "");
    InRt rt;
    on_close(fd);
    int r = real(f);
    if (bad) {
        errno = EIO;
        return EOF;
    }
    return r;
}
EXPORT size_t fread(void* p, size_t sz, size_t n, FILE* f)
{
    static auto real = real_fn<size_t (*)(void*, size_t, size_t, FILE*)>("fread");
    int fd = fileno(f);
    if (in_run() && fd >= 0 && fd < MAXFD && fds[fd].tracked) {
        event("fread", nullptr);
        if (inject(F_READ_FAIL, "fread", "")) {
            stdio_bad[fd] = true;
            errno = EIO;
            return 0;
        }
        InRt rt;
        return real(p, sz, n, f);
    }
    return real(p, sz, n, f);
}
EXPORT int ferror(FILE* f)
{
    static auto real = real_fn<int (*)(FILE*)>("ferror");
    int fd = fileno(f);
    if (fd >= 0 && fd < MAXFD && fds[fd].tracked && stdio_bad[fd]) return 1;
    return real(f);
}
EXPORT void clearerr(FILE* f)
{
    static auto real = real_fn<void (*)(FILE*)>("clearerr");
    int fd = fileno(f);
    if (fd >= 0 && fd < MAXFD) stdio_bad[fd] = false;
    real(f);
}
EXPORT int fseeko(FILE* f, off_t o, int w)
{
    static auto real = real_fn<int (*)(FILE*, off_t, int)>("fseeko");
    int fd = fileno(f);
    if (in_run() && fd >= 0 && fd < MAXFD && fds[fd].tracked && inject(F_SEEK_FAIL, "fseeko", "")) {
        errno = EIO;
        return -1;
    }
    return real(f, o, w);
}
EXPORT int fseeko64(FILE* f, off_t o, int w) { return fseeko(f, o, w); }
EXPORT size_t fwrite(const void* p, size_t sz, size_t n, FILE* f)
{
    static auto real = real_fn<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
    int fd = fileno(f);
    if (in_run() && fd >= 0 && fd < MAXFD && fds[fd].tracked) {
        event("fwrite", nullptr);
        if (inject(F_WRITE_FAIL, "fwrite", "")) {
            errno = ENOSPC;
            return 0;
        }
    }
    return real(p, sz, n, f);
}

// ---- read / write ------------------------------------------------------------------------------
EXPORT ssize_t write(int fd, const void* p, size_t n)
{
    if (in_run() && fd >= 0 && fd < MAXFD && fds[fd].tracked) {
        event("write", nullptr);
        if (inject(F_WRITE_FAIL, "write", "")) {
            errno = ENOSPC;
            return -1;
        }
        if (n > 1) {
            uint64_t v = dsim::fault(F_WRITE_SHORT, 8);
            if (v) {
                size_t k = n * (v - 1) / 8;
                n = k ? k : 1;
                torn_write();
            }
        }
    }
    const long r = raw_syscall(SYS_write, fd, (long)p, n);
    if (in_run() && fd >= 0 && fd < MAXFD && fds[fd].tracked) stamp(fd);
    return ret(r);
}
EXPORT ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (in_run() && fd >= 0 && fd < MAXFD && fds[fd].tracked) {
        event("write", nullptr);
        if (inject(F_WRITE_FAIL, "writev", "")) {
            errno = ENOSPC;
            return -1;
        }
        size_t n = 0;
        for (int i = 0; i < c; ++i) n += v[i].iov_len;
        if (n > 1) {
            uint64_t s = dsim::fault(F_WRITE_SHORT, 8);
            if (s) { // write a prefix of the whole
                size_t k = n * (s - 1) / 8, done = 0;
                if (!k) k = 1;
                for (int i = 0; i < c && done < k; ++i) {
                    size_t m = v[i].iov_len < k - done ? v[i].iov_len : k - done;
                    if (!m) continue;
                    long r = raw_syscall(SYS_write, fd, (long)v[i].iov_base, m);
                    if (r < 0) break;
                    done += r;
                }
                torn_write();
                stamp(fd);
                return (ssize_t)done;
            }
        }
    }
    const long r = raw_syscall(SYS_writev, fd, (long)v, c);
    if (in_run() && fd >= 0 && fd < MAXFD && fds[fd].tracked) stamp(fd);
    return ret(r);
}
EXPORT ssize_t read(int fd, void* p, size_t n)
{
    if (in_run() && fd >= 0 && fd < MAXFD && fds[fd].tracked) {
        event("read", nullptr);
        if (inject(F_READ_FAIL, "read", "")) {
            errno = EIO;
            return -1;
        }
        if (n > 1) {
            uint64_t v = dsim::fault(F_READ_SHORT, 8);
            if (v) {
                size_t k = n * (v - 1) / 8;
                n = k ? k : 1;
            }
        }
    }
    return ret(raw_syscall(SYS_read, fd, (long)p, n));
}

// ---- names -------------------------------------------------------------------------------------
EXPORT int mkdir(const char* path, mode_t m)
{
    if (in_run()) {
        event("mkdir", path);
        guard("mkdir", AT_FDCWD, path);
        if (faulty(AT_FDCWD, path) && inject(F_MKDIR_FAIL, "mkdir", path)) {
            errno = ENOSPC;
            return -1;
        }
    }
    return (int)ret(raw_syscall(SYS_mkdir, (long)path, m));
}
EXPORT int mkdirat(int d, const char* path, mode_t m)
{
    if (in_run()) {
        event("mkdir", path);
        guard("mkdir", d, path);
        if (faulty(d, path) && inject(F_MKDIR_FAIL, "mkdir", path)) {
            errno = ENOSPC;
            return -1;
        }
    }
    return (int)ret(raw_syscall(SYS_mkdirat, d, (long)path, m));
}
static int remove_fault(int d, const char* path)
{
    if (!in_run()) return 0;
    event("remove", path);
    guard("removal", d, path);
    if (faulty(d, path) && inject(F_REMOVE_FAIL, "remove", path)) {
        errno = EACCES;
        return -1;
    }
    return 0;
}
EXPORT int unlink(const char* path)
{
    if (remove_fault(AT_FDCWD, path)) return -1;
    return (int)ret(raw_syscall(SYS_unlink, (long)path));
}
EXPORT int unlinkat(int d, const char* path, int flags)
{
    if (remove_fault(d, path)) return -1;
    return (int)ret(raw_syscall(SYS_unlinkat, d, (long)path, flags));
}
EXPORT int rmdir(const char* path)
{
    if (remove_fault(AT_FDCWD, path)) return -1;
    return (int)ret(raw_syscall(SYS_rmdir, (long)path));
}
EXPORT int remove(const char* path)
{
    if (remove_fault(AT_FDCWD, path)) return -1;
    long r = raw_syscall(SYS_unlink, (long)path);
    if (r == -EISDIR) r = raw_syscall(SYS_rmdir, (long)path);
    return (int)ret(r);
}
EXPORT int rename(const char* a, const char* b)
{
    if (in_run()) {
        event("rename", a);
        guard("rename", AT_FDCWD, a);
        guard("rename", AT_FDCWD, b);
        if (faulty(AT_FDCWD, a) && inject(F_RENAME_FAIL, "rename", a)) {
            errno = EACCES;
            return -1;
        }
    }
    return (int)ret(raw_syscall(SYS_rename, (long)a, (long)b));
}
EXPORT int symlink(const char* a, const char* b)
{
    if (in_run()) {
        event("symlink", b);
        guard("symlink", AT_FDCWD, b);
    }
    return (int)ret(raw_syscall(SYS_symlink, (long)a, (long)b));
}
EXPORT int link(const char* a, const char* b)
{
    if (in_run()) {
        event("link", b);
        guard("link", AT_FDCWD, b);
    }
    return (int)ret(raw_syscall(SYS_link, (long)a, (long)b));
}
EXPORT int truncate(const char* a, off_t n)
{
    if (in_run()) {
        event("truncate", a);
        guard("truncate", AT_FDCWD, a);
    }
    return (int)ret(raw_syscall(SYS_truncate, (long)a, n));
}
EXPORT int chmod(const char* a, mode_t m)
{
    if (in_run()) guard("chmod", AT_FDCWD, a);
    return (int)ret(raw_syscall(SYS_chmod, (long)a, m));
}
EXPORT int fchmodat(int d, const char* a, mode_t m, int)
{
    if (in_run()) guard("chmod", d, a);
    return (int)ret(raw_syscall(SYS_fchmodat, d, (long)a, m));
}

// ---- queries: scheduling points only ----------------------------------------------------------------
EXPORT int stat(const char* p, struct stat* st)
{
    event("stat", p);
    return (int)ret(raw_syscall(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, 0));
}
EXPORT int lstat(const char* p, struct stat* st)
{
    event("stat", p);
    return (int)ret(raw_syscall(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, AT_SYMLINK_NOFOLLOW));
}
EXPORT int fstatat(int d, const char* p, struct stat* st, int fl)
{
    event("stat", p);
    return (int)ret(raw_syscall(SYS_newfstatat, d, (long)p, (long)st, fl));
}

// ---- record locks --------------------------------------------------------------------------------------
namespace
{
Lock* conflict(int vp, const Fd& f, bool excl, int64_t s, int64_t e)
{
    for (auto& l : locks)
        if (l.used && l.vproc != vp && l.dev == f.dev && l.ino == f.ino && overlap(l.start, l.end, s, e) && (excl || l.excl)) return &l;
    return nullptr;
}
// Would waiting for `owner` close a cycle? (as the kernel does: per process)
bool would_deadlock(int vp, int owner)
{
    int cur = owner;
    for (int steps = 0; steps < MAXVP; ++steps) {
        if (cur == vp) return true;
        // what does `cur` wait for?
        int next = -1;
        for (auto& w : waiters) {
            if (!w.used || w.vproc != cur) continue;
            for (auto& l : locks)
                if (l.used && l.vproc != cur && l.dev == w.dev && l.ino == w.ino && overlap(l.start, l.end, w.start, w.end) && (w.excl || l.excl)) {
                    next = l.vproc;
                    break;
                }
            if (next >= 0) break;
        }
        if (next < 0) return false;
        cur = next;
    }
    return false;
}
void set_lock(int vp, const Fd& f, int type, int64_t s, int64_t e)
{
    // remove this process's locks in the range (splitting), then add
    for (int i = 0; i < MAXL; ++i) {
        Lock l = locks[i];
        if (!l.used || l.vproc != vp || l.dev != f.dev || l.ino != f.ino || !overlap(l.start, l.end, s, e)) continue;
        locks[i].used = false;
        auto put = [&](int64_t a, int64_t b) {
            for (auto& x : locks)
                if (!x.used) {
                    x = l;
                    x.used = true;
                    x.start = a;
                    x.end = b;
                    return;
                }
        };
        if (l.start < s) put(l.start, s);
        if (l.end > e) put(e, l.end);
    }
    if (type != F_UNLCK) {
        for (auto& x : locks)
            if (!x.used) {
                x = Lock{true, vp, f.dev, f.ino, type == F_WRLCK, s, e};
                break;
            }
    }
    wake_all(locks);
}

int fcntl_impl(int fd, int cmd, long arg)
{
    if ((cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK) && G.active && me && fd >= 0 && fd < MAXFD && fds[fd].lockable) {
        auto fl = reinterpret_cast<struct flock*>(arg);
        event(fl->l_type == F_UNLCK ? "fcntl-unlock" : cmd == F_SETLKW ? "fcntl-lockw" : "fcntl-lock", nullptr);
        int64_t s = fl->l_start, e = fl->l_len ? fl->l_start + fl->l_len : INT64_MAX;
        int vp = fds[fd].vproc;
        Fd f = fds[fd];
        if (fl->l_type != F_UNLCK && cmd != F_GETLK && inject(F_LOCK_FAIL, "fcntl", "")) {
            errno = ENOLCK;
            return -1;
        }
        // (a signal matters only if the call has to wait)
        const bool intr = fl->l_type != F_UNLCK && cmd == F_SETLKW && dsim::fault(F_EINTR, 1);
        InRt rt;
        if (cmd == F_GETLK) {
            Lock* c = conflict(vp, f, fl->l_type == F_WRLCK, s, e);
            if (c) {
                fl->l_type = c->excl ? F_WRLCK : F_RDLCK;
                fl->l_pid = 1000 + c->vproc;
            } else
                fl->l_type = F_UNLCK;
            return 0;
        }
        if (fl->l_type == F_UNLCK) {
            set_lock(vp, f, F_UNLCK, s, e);
        } else {
            bool excl = fl->l_type == F_WRLCK, waited = false;
            while (Lock* c = conflict(vp, f, excl, s, e)) {
                if (cmd == F_SETLK) {
                    errno = EAGAIN;
                    return -1;
                }
                if (would_deadlock(vp, c->vproc)) {
                    dsim::count("edeadlk");
                    errno = EDEADLK;
                    return -1;
                }
                waiters[me->id] = Waiter{true, vp, f.dev, f.ino, excl, s, e};
                if (intr) {
                    waiters[me->id].used = false;
                    dsim::count("interrupted waits");
                    errno = EINTR;
                    return -1;
                }
                block("fcntl", locks, 0);
                waiters[me->id].used = false;
                waited = true;
            }
            if (waited) { // the call may also fail after it has waited
                --me->nosim;
                const bool bad = inject(F_LOCK_FAIL, "fcntl", ""), late = !bad && dsim::fault(F_EINTR, 1);
                ++me->nosim;
                if (bad || late) {
                    if (late) dsim::count("interrupted waits");
                    errno = bad ? ENOLCK : EINTR;
                    return -1;
                }
            }
            set_lock(vp, f, fl->l_type, s, e);
        }
        --me->nosim;
        event("fcntl-done", nullptr);
        ++me->nosim;
        return 0;
    }
    return (int)ret(raw_syscall(SYS_fcntl, fd, cmd, arg));
}
} // namespace
EXPORT int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return fcntl_impl(fd, cmd, a);
}
EXPORT int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return fcntl_impl(fd, cmd, a);
}
