// Deterministic simulation runtime: file, process, clock, randomness, memory and thread seams.
// Compiled WITHOUT thread instrumentation; linked into simrun, whose exported symbols take
// precedence over those of libc/libstdc++/libgomp.
#include "simrt.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <algorithm>
#include <exception>
#include <functional>
#include <new>
#include <set>
#include <typeinfo>
#include <cxxabi.h>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

using std::string;

// ------------------------------------------------------------------ state
static bool g_started = false;          // seams armed
static bool g_inChild = false;          // in a forked child: pass everything through
static thread_local int t_inSim = 0;    // runtime's own code: pass everything through
struct Guard { Guard() { ++t_inSim; } ~Guard() { --t_inSim; } };
static int g_logfd = -1;
static char g_scratch[PATH_MAX];
static size_t g_scratchLen = 0;
namespace sim { Plan plan; }
using sim::plan;

// ------------------------------------------------------------------ randomness
static uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t g_stream[16];
static bool g_streamInit = false;
static void initStreams() {
    if (g_streamInit) return;
    g_streamInit = true;
    const char *e = getenv("SIM_SEED");
    uint64_t s = e ? strtoull(e, nullptr, 10) : 1;
    for (int i = 0; i < 16; i++) { uint64_t t = s * 1000003ull + (uint64_t)i * 7919ull; g_stream[i] = splitmix(t); }
}
namespace sim {
uint64_t rnd64(int stream) { initStreams(); return splitmix(g_stream[stream]); }
double rnd01(int stream) { return (double)(rnd64(stream) >> 11) * (1.0 / 9007199254740992.0); }
}
enum { ST_DEVICE = 0, ST_SCHED = 1, ST_CLOCK = 2, ST_EVAL = 3, ST_RAND = 4, ST_ORPHAN = 5 };
static long g_rngDraws = 0;

// ------------------------------------------------------------------ clock
static long long g_clock = -1;           // simulated ns since the epoch
static long long g_clockStart = 0;
static long long clockNow(bool monotonic) {
    if (g_clock < 0) {
        initStreams();
        g_clock = 1704067200000000000ll + (long long)(sim::rnd64(ST_CLOCK) % 100000000ull) * 1000000000ll + (long long)(sim::rnd64(ST_CLOCK) % 1000000000ull);
        g_clockStart = g_clock;
    }
    g_clock += 1000;
    (void)monotonic;
    return g_clock;
}
static long long g_wallSkew = 0;         // clock jumps apply to the wall clock only

// ------------------------------------------------------------------ event log
namespace sim {
string jstr(const string &v) {
    string o = "\"";
    char b[8];
    for (unsigned char ch : v) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o + "\"";
}
Ev::Ev(const char *t) { ++t_inSim; s = string("{\"t\":\"") + t + "\""; }
Ev &Ev::str(const char *k, const string &v) { s += string(",\"") + k + "\":" + jstr(v); return *this; }
static string fnum(double v) {
    char b[64];
    if (std::isnan(v)) return "\"nan\"";
    if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
Ev &Ev::num(const char *k, double v) { s += string(",\"") + k + "\":" + fnum(v); return *this; }
Ev &Ev::i(const char *k, long long v) { s += string(",\"") + k + "\":" + std::to_string(v); return *this; }
Ev &Ev::raw(const char *k, const string &json) { s += string(",\"") + k + "\":" + json; return *this; }
Ev &Ev::nums(const char *k, const double *p, size_t n) {
    s += string(",\"") + k + "\":[";
    for (size_t j = 0; j < n; j++) { if (j) s += ","; s += fnum(p[j]); }
    s += "]"; return *this;
}
void Ev::emit() {
    s += "}\n";
    if (g_logfd >= 0 && !g_inChild) {
        const char *p = s.data(); size_t n = s.size();
        while (n) { long r = syscall(SYS_write, g_logfd, p, n); if (r <= 0) break; p += r; n -= (size_t)r; }
    }
    --t_inSim;
}
}
using sim::Ev;

// ------------------------------------------------------------------ faults
struct Fault { long n; string kind; long arg; bool fired; };
static std::vector<Fault> *g_faults;
static std::map<long, std::pair<string, long>> *g_evFaults;
static long g_op = 0;                    // operations on tracked files / processes
static long g_diskLeft = -1;             // -1: unlimited
static long g_maxOps = 2000000;
static std::map<string, string> *g_snap;
static long g_evalCount = 0;
static long g_stopAfter = -1;            // die at the first file opened for reading after this many evaluations
static long g_allocFault = -1, g_allocCount = 0;
static bool g_allocArmed = false;

static void logFault(const Fault &f, const char *cls, const string &path) {
    Ev("fault").i("n", f.n).str("kind", f.kind).i("arg", f.arg).str("op", cls).str("path", path).emit();
}
struct SimProc { int pid; std::vector<string> argv; string cwd; bool done; bool real; int status; bool reaped; int polls; long long started; };
static std::vector<SimProc> *g_procs;
static void runEvaluator(SimProc &p, bool orphan);

static void finalStats();
[[noreturn]] static void rawExit(int code) { syscall(SYS_exit_group, code); __builtin_unreachable(); }

[[noreturn]] static void doCrash() {
    Guard g;
    // orphaned evaluators may still finish after the crash
    for (auto &p : *g_procs)
        if (!p.done && !p.real) {
            if (sim::rnd64(ST_ORPHAN) % 2) { Ev("orphan").i("pid", p.pid).i("completes", 1).emit(); runEvaluator(p, true); }
            else Ev("orphan").i("pid", p.pid).i("completes", 0).emit();
        }
    sim::snapshot();
    finalStats();
    Ev("crash").i("op", g_op).emit();
    rawExit(137);
}

namespace sim { [[noreturn]] void dieHere() { doCrash(); } }
// Registers one operation; returns the fault to apply (or nullptr). A crash happens here.
static const Fault *beginOp(const char *cls, const string &path, long size) {
    long n = g_op++;
    if (g_op > g_maxOps) { Ev("oplimit").i("n", n).emit(); finalStats(); rawExit(98); }
    Ev e("op"); e.i("n", n).str("c", cls).str("p", path); if (size >= 0) e.i("s", size); e.emit();
    if (g_stopAfter >= 0 && g_evalCount >= g_stopAfter && !strcmp(cls, "openr")) doCrash();
    for (auto &f : *g_faults)
        if (!f.fired && f.n == n) {
            f.fired = true;
            logFault(f, cls, path);
            if (f.kind == "crash" && strcmp(cls, "write")) doCrash();
            if (f.kind == "clock") { g_wallSkew += f.arg * 1000000000ll; return nullptr; }
            if (f.kind == "full") { g_diskLeft = f.arg; return nullptr; }
            return &f;
        }
    return nullptr;
}

// ------------------------------------------------------------------ paths
static string absPath(const char *p) {
    string s;
    if (p[0] == '/') s = p;
    else { char b[PATH_MAX]; if (syscall(SYS_getcwd, b, sizeof b) < 0) b[0] = 0; s = string(b) + "/" + p; }
    // normalise . and ..
    std::vector<string> parts; size_t i = 0;
    while (i < s.size()) { size_t j = s.find('/', i); if (j == string::npos) j = s.size(); string c = s.substr(i, j - i); i = j + 1;
        if (c.empty() || c == ".") continue; if (c == "..") { if (!parts.empty()) parts.pop_back(); continue; } parts.push_back(c); }
    string o; for (auto &c : parts) o += "/" + c; return o.empty() ? "/" : o;
}
static bool underScratch(const string &a) { return g_scratchLen && a.compare(0, g_scratchLen, g_scratch) == 0 && (a.size() == g_scratchLen || a[g_scratchLen] == '/'); }
static string rel(const string &a) { return a.size() > g_scratchLen ? a.substr(g_scratchLen + 1) : a; }
static bool g_trackLogs = false;
static bool isLog(const string &a) { return a.size() > 4 && a.compare(a.size() - 4, 4, ".log") == 0; }
struct FdInfo { bool tracked; char path[200]; };
static FdInfo g_fd[4096];
static bool trackedFd(int fd) { return fd >= 0 && fd < 4096 && g_fd[fd].tracked; }
static bool armed() { return g_started && !g_inChild && !t_inSim; }

// ------------------------------------------------------------------ file seam
static int doOpen(const char *path, int flags, mode_t mode) {
    if (!armed()) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    Guard g;
    string a = absPath(path);
    bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    bool in = underScratch(a);
    if (wr && !in && a.compare(0, 5, "/dev/") != 0) { Ev("escape").str("path", a).emit(); errno = EACCES; return -1; }
    bool track = in && (!isLog(a) || g_trackLogs);
    if (track) {
        const char *cls = !wr ? "openr" : (flags & O_TRUNC) ? "opent" : (flags & O_APPEND) ? "opena" : "openw";
        const Fault *f = beginOp(cls, rel(a), -1);
        if (f) {
            if (f->kind == "crash_after") { syscall(SYS_openat, AT_FDCWD, path, flags, mode); doCrash(); }
            if (f->kind == "eio") { errno = EIO; return -1; }
            if (f->kind == "emfile") { errno = EMFILE; return -1; }
            if (f->kind == "eacces") { errno = EACCES; return -1; }
        }
    }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    if (fd >= 0 && fd < 4096) {
        g_fd[fd].tracked = track;
        if (track) snprintf(g_fd[fd].path, sizeof g_fd[fd].path, "%s", rel(a).c_str());
    }
    return fd;
}
extern "C" {
int open(const char *p, int flags, ...) { mode_t m = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return doOpen(p, flags, m); }
int open64(const char *p, int flags, ...) { mode_t m = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return doOpen(p, flags, m); }
int creat(const char *p, mode_t m) { return doOpen(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int openat(int d, const char *p, int flags, ...) { mode_t m = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    if (d == AT_FDCWD || p[0] == '/') return doOpen(p, flags, m); return (int)syscall(SYS_openat, d, p, flags, m); }
static FILE *doFopen(const char *path, const char *mode) {
    static FILE *(*rfdopen)(int, const char *) = (FILE * (*)(int, const char *)) dlsym(RTLD_NEXT, "fdopen");
    int fl; bool plus = strchr(mode, '+') != nullptr;
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(mode, 'x')) fl |= O_EXCL;
    if (strchr(mode, 'e')) fl |= O_CLOEXEC;
    int fd = doOpen(path, fl, 0666);
    if (fd < 0) return nullptr;
    FILE *f = rfdopen(fd, mode);
    if (!f) { syscall(SYS_close, fd); if (fd < 4096) g_fd[fd].tracked = false; }
    return f;
}
FILE *fopen(const char *p, const char *m) { return doFopen(p, m); }
FILE *fopen64(const char *p, const char *m) { return doFopen(p, m); }
int fclose(FILE *f) {
    static int (*rf)(FILE *) = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
    int fd = fileno(f);
    if (armed() && trackedFd(fd)) {
        Guard g;
        const Fault *flt = beginOp("close", g_fd[fd].path, -1);
        g_fd[fd].tracked = false;
        if (flt && flt->kind == "crash_after") { rf(f); doCrash(); }
        if (flt && flt->kind == "eio") { rf(f); errno = EIO; return EOF; }
        return rf(f);
    }
    if (fd >= 0 && fd < 4096) g_fd[fd].tracked = false;
    return rf(f);
}
int close(int fd) {
    if (armed() && trackedFd(fd)) {
        Guard g;
        const Fault *flt = beginOp("close", g_fd[fd].path, -1);
        g_fd[fd].tracked = false;
        if (flt && flt->kind == "crash_after") { syscall(SYS_close, fd); doCrash(); }
        if (flt && flt->kind == "eio") { syscall(SYS_close, fd); errno = EIO; return -1; }
    }
    if (fd >= 0 && fd < 4096 && !g_inChild) g_fd[fd].tracked = false;
    if (fd == g_logfd && !g_inChild) { errno = EBADF; return -1; }
    return (int)syscall(SYS_close, fd);
}
static ssize_t faultedWrite(int fd, const char *buf, size_t n, const Fault *f, bool positioned, off_t off) {
    auto wr = [&](size_t m) -> ssize_t { return positioned ? syscall(SYS_pwrite64, fd, buf, m, off) : syscall(SYS_write, fd, buf, m); };
    if (f) {
        if (f->kind == "crash") { size_t m = (size_t)std::max(0l, f->arg); if (m > n) m = n; if (m) wr(m); doCrash(); }
        if (f->kind == "crash_after") { wr(n); doCrash(); }
        if (f->kind == "eio") { errno = EIO; return -1; }
        if (f->kind == "eintr") { errno = EINTR; return -1; }
        if (f->kind == "short" && n > 1) return wr(std::max<size_t>(1, n * (size_t)std::min(99l, std::max(1l, f->arg)) / 100));
    }
    if (g_diskLeft >= 0) {
        size_t m = (size_t)std::min<long>(g_diskLeft, (long)n);
        if (m == 0 && n > 0) { errno = ENOSPC; return -1; }
        ssize_t r = wr(m);
        if (r > 0) g_diskLeft -= r;
        return r;
    }
    return wr(n);
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (!armed() || !trackedFd(fd)) return syscall(SYS_write, fd, buf, n);
    Guard g;
    const Fault *f = beginOp("write", g_fd[fd].path, (long)n);
    return faultedWrite(fd, (const char *)buf, n, f, false, 0);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
    if (!armed() || !trackedFd(fd)) return syscall(SYS_pwrite64, fd, buf, n, off);
    Guard g;
    const Fault *f = beginOp("write", g_fd[fd].path, (long)n);
    return faultedWrite(fd, (const char *)buf, n, f, true, off);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return pwrite(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *iov, int c) {
    if (!armed() || !trackedFd(fd)) return syscall(SYS_writev, fd, iov, c);
    Guard g;
    string all; for (int i = 0; i < c; i++) all.append((const char *)iov[i].iov_base, iov[i].iov_len);
    const Fault *f = beginOp("write", g_fd[fd].path, (long)all.size());
    return faultedWrite(fd, all.data(), all.size(), f, false, 0);
}
ssize_t read(int fd, void *buf, size_t n) {
    if (!armed() || !trackedFd(fd)) return syscall(SYS_read, fd, buf, n);
    Guard g;
    const Fault *f = beginOp("read", g_fd[fd].path, (long)n);
    if (f) {
        if (f->kind == "eio") { errno = EIO; return -1; }
        if (f->kind == "eintr") { errno = EINTR; return -1; }
        if (f->kind == "short" && n > 1) return syscall(SYS_read, fd, buf, (size_t)std::max(1l, std::min<long>((long)n, f->arg)));
        if (f->kind == "crash_after") doCrash();
    }
    return syscall(SYS_read, fd, buf, n);
}
static int pathOp(const char *cls, const char *p, const std::function<int()> &doit) {
    Guard g;
    string a = absPath(p);
    if (!underScratch(a)) { Ev("escape").str("path", a).emit(); errno = EACCES; return -1; }
    const Fault *f = beginOp(cls, rel(a), -1);
    if (f && (f->kind == "eio" || f->kind == "eacces" || f->kind == "emfile")) { errno = EIO; return -1; }
    int r = doit();
    if (f && f->kind == "crash_after") doCrash();
    return r;
}
int rename(const char *a, const char *b) {
    auto d = [&] { return (int)syscall(SYS_rename, a, b); };
    if (!armed()) return d();
    { Guard g; if (!underScratch(absPath(a))) { Ev("escape").str("path", a).emit(); errno = EACCES; return -1; } }
    return pathOp("rename", b, d);
}
int renameat(int d1, const char *a, int d2, const char *b) { if (!armed()) return (int)syscall(SYS_renameat, d1, a, d2, b); return pathOp("rename", b, [&] { return (int)syscall(SYS_renameat, d1, a, d2, b); }); }
int unlink(const char *a) { if (!armed()) return (int)syscall(SYS_unlink, a); return pathOp("unlink", a, [&] { return (int)syscall(SYS_unlink, a); }); }
int rmdir(const char *a) { if (!armed()) return (int)syscall(SYS_rmdir, a); return pathOp("rmdir", a, [&] { return (int)syscall(SYS_rmdir, a); }); }
int remove(const char *a) { if (!armed()) { int r = (int)syscall(SYS_unlink, a); return r; }
    return pathOp("unlink", a, [&] { int r = (int)syscall(SYS_unlink, a); if (r < 0 && errno == EISDIR) r = (int)syscall(SYS_rmdir, a); return r; }); }
int unlinkat(int d, const char *a, int fl) { if (!armed() || d != AT_FDCWD) return (int)syscall(SYS_unlinkat, d, a, fl); return pathOp("unlink", a, [&] { return (int)syscall(SYS_unlinkat, d, a, fl); }); }
int truncate(const char *a, off_t n) { if (!armed()) return (int)syscall(SYS_truncate, a, n); return pathOp("trunc", a, [&] { return (int)syscall(SYS_truncate, a, n); }); }
int truncate64(const char *a, off64_t n) { return truncate(a, n); }
int ftruncate(int fd, off_t n) {
    if (!armed() || !trackedFd(fd)) return (int)syscall(SYS_ftruncate, fd, n);
    Guard g; const Fault *f = beginOp("trunc", g_fd[fd].path, -1);
    if (f && f->kind == "eio") { errno = EIO; return -1; }
    int r = (int)syscall(SYS_ftruncate, fd, n);
    if (f && f->kind == "crash_after") doCrash();
    return r;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
static int syncOp(int fd, int nr) {
    if (!armed() || !trackedFd(fd)) return (int)syscall(nr, fd);
    Guard g; const Fault *f = beginOp("sync", g_fd[fd].path, -1);
    if (f && f->kind == "eio") { errno = EIO; return -1; }
    if (f && f->kind == "crash_after") doCrash();
    return 0;
}
int fsync(int fd) { return syncOp(fd, SYS_fsync); }
int fdatasync(int fd) { return syncOp(fd, SYS_fdatasync); }
}

// ------------------------------------------------------------------ clocks
extern "C" {
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (g_inChild) return (int)syscall(SYS_clock_gettime, id, ts);
    long long t = clockNow(id != CLOCK_REALTIME);
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += g_wallSkew; else t -= g_clockStart - 1000000000ll;
    ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll;
    if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
    return 0;
}
int gettimeofday(struct timeval *tv, void *) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
clock_t clock(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000000l + ts.tv_nsec / 1000; }
static void simSleep(long long ns) { if (ns > 0) g_clock += ns; }
}
// ------------------------------------------------------------------ threads (declared early: sleep yields)
static void yieldSync(const char *what);
extern "C" {
int nanosleep(const struct timespec *a, struct timespec *b) { simSleep(a->tv_sec * 1000000000ll + a->tv_nsec); if (b) b->tv_sec = b->tv_nsec = 0; yieldSync("sleep"); return 0; }
int clock_nanosleep(clockid_t, int flags, const struct timespec *a, struct timespec *) { if (!(flags & 1)) simSleep(a->tv_sec * 1000000000ll + a->tv_nsec); yieldSync("sleep"); return 0; }
int usleep(useconds_t u) { simSleep((long long)u * 1000); yieldSync("sleep"); return 0; }
unsigned sleep(unsigned s) { simSleep((long long)s * 1000000000ll); yieldSync("sleep"); return 0; }
int sched_yield(void) { yieldSync("yield"); return 0; }
}
namespace sim { double wallNow() { return (double)(g_clock + g_wallSkew) * 1e-9; } }
namespace sim { void advanceClock(double s) { clockNow(true); g_clock += (long long)(s * 1e9); } }

// ------------------------------------------------------------------ random sources
#include <random>
namespace std {
unsigned int random_device::_M_getval() { g_rngDraws++; yieldSync("rng"); Guard g; return (unsigned int)sim::rnd64(ST_DEVICE); }
void random_device::_M_init(const std::string &) {}
void random_device::_M_init(const char *, size_t) {}
void random_device::_M_init_pretr1(const std::string &) {}
unsigned int random_device::_M_getval_pretr1() { return _M_getval(); }
void random_device::_M_fini() {}
double random_device::_M_getentropy() const noexcept { return 32.0; }
}
extern "C" {
ssize_t getrandom(void *b, size_t n, unsigned) { unsigned char *p = (unsigned char *)b; for (size_t i = 0; i < n; i++) p[i] = (unsigned char)sim::rnd64(ST_DEVICE); return (ssize_t)n; }
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
static uint64_t g_randState = 0; static bool g_randInit = false;
int rand(void) { if (!g_randInit) { g_randInit = true; g_randState = sim::rnd64(ST_RAND); } return (int)(splitmix(g_randState) & 0x7fffffff); }
void srand(unsigned s) { g_randInit = true; g_randState = s; }
long random(void) { return rand(); }
double drand48(void) { return sim::rnd01(ST_RAND); }
}

// ------------------------------------------------------------------ evaluator processes
struct SharedExec { volatile int state; int argc; char cwd[1024]; char args[8192]; };
static SharedExec *g_shared;
static string g_execFault;
static string baseName(const string &s) { size_t i = s.rfind('/'); return i == string::npos ? s : s.substr(i + 1); }

namespace sim {
double evalFunction(const EvalSpec &e, const std::vector<double> &x) {
    const auto &c = e.c; double v = 0; size_t d = x.size();
    auto C = [&](size_t i, double def) { return i < c.size() ? c[i] : def; };
    if (e.fn == "quad") { for (size_t i = 0; i < d; i++) { double t = x[i] - C(i + 1, 0); v += t * t; } v *= C(0, 1); }
    else if (e.fn == "lin") { v = C(0, 0); for (size_t i = 0; i < d; i++) v += C(i + 1, 1) * x[i]; }
    else if (e.fn == "osc") { for (size_t i = 0; i < d; i++) v += sin(C(i + 1, 2.0) * x[i] + (double)i) + 0.05 * x[i]; v *= C(0, 1); }
    else if (e.fn == "rosen") { if (d == 1) v = (1 - x[0]) * (1 - x[0]); for (size_t i = 0; i + 1 < d; i++) { double a = x[i + 1] - x[i] * x[i], b = 1 - x[i]; v += C(0, 100) * a * a + b * b; } }
    else if (e.fn == "abs") { for (size_t i = 0; i < d; i++) v += fabs(x[i] - C(i + 1, 0.3)); v *= C(0, 1); }
    else if (e.fn == "step") { for (size_t i = 0; i < d; i++) v += floor(C(i + 1, 1.0) * x[i]); v *= C(0, 1); }
    else if (e.fn == "const") v = C(0, 1);
    else if (e.fn == "hash") { uint64_t h = 1469598103934665603ull; for (double xi : x) { uint64_t u; memcpy(&u, &xi, 8); h = (h ^ u) * 1099511628211ull; h ^= h >> 29; } v = C(0, 1) * (double)(h % 1000003) / 1000003.0 + C(1, 0); }
    return v + e.shift;
}
std::string evalFault(long k) { auto it = g_evFaults->find(k); return it == g_evFaults->end() ? "" : it->second.first; }
long nextEvalIndex() { return g_evalCount++; }
void armAlloc(bool on) { g_allocArmed = on; }
void enter() { ++t_inSim; }
void leave() { --t_inSim; }
}
static bool readAll(const char *path, string &out) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path, O_RDONLY, 0);
    if (fd < 0) return false;
    char b[65536]; long r; out.clear();
    while ((r = syscall(SYS_read, fd, b, sizeof b)) > 0) out.append(b, (size_t)r);
    syscall(SYS_close, fd); return true;
}
static bool writeAll(const string &path, const string &data) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return false;
    size_t n = data.size();
    if (g_diskLeft >= 0 && (long)n > g_diskLeft) n = (size_t)g_diskLeft;
    if (n) syscall(SYS_write, fd, data.data(), n);
    if (g_diskLeft >= 0) g_diskLeft -= (long)n;
    syscall(SYS_close, fd);
    return n == data.size();
}
static string fmtValue(double v, int style) {
    char b[128];
    switch (style) {
    case 1: snprintf(b, sizeof b, "%.10f\n", v); break;
    case 2: snprintf(b, sizeof b, "   %.16e\n", v); break;
    case 3: snprintf(b, sizeof b, "\n  %.15g \n\n", v); break;
    case 4: snprintf(b, sizeof b, "%.17g", v); break;
    default: snprintf(b, sizeof b, "%.17g\n", v);
    }
    return b;
}
static void runEvaluator(SimProc &p, bool orphan) {
    Guard g;
    p.done = true;
    string exe;
    for (auto &a : p.argv) { exe = baseName(a); bool known = false; for (auto &e : plan.evals) if (e.exe == exe) known = true; if (known) break; }
    const sim::EvalSpec *spec = nullptr;
    for (auto &e : plan.evals) if (e.exe == exe) spec = &e;
    long k = g_evalCount++;
    auto it = g_evFaults->find(k);
    string fault = it == g_evFaults->end() ? "" : it->second.first;
    long farg = it == g_evFaults->end() ? 0 : it->second.second;
    double secs = 1 + (double)(sim::rnd64(ST_EVAL) % 3600);
    if (fault == "slow") secs += 86400.0 * (double)std::max(1l, farg);
    g_clock += (long long)(secs * 1e9);
    Ev ev("eval");
    ev.i("k", k).i("pid", p.pid).str("exe", exe).str("cwd", underScratch(p.cwd) ? "." + p.cwd.substr(g_scratchLen) : p.cwd).i("orphan", orphan);
    string args = "["; for (size_t i = 0; i < p.argv.size(); i++) args += (i ? "," : "") + sim::jstr(p.argv[i]); ev.raw("argv", args + "]");
    if (!spec) { ev.str("err", "unknown executable").i("status", 127).emit(); p.status = 127 << 8; return; }
    string dv, dir = p.cwd + "/";
    bool ok = readAll((dir + spec->dv).c_str(), dv);
    std::vector<double> x;
    if (ok) { const char *q = dv.c_str(); char *end; while (true) { double v = strtod(q, &end); if (end == q) break; x.push_back(v); q = end; } }
    ev.str("dvraw", dv).nums("x", x.data(), x.size());
    if (!ok || x.size() != (size_t)plan.geti("dim", 1)) { ev.str("err", "bad design file").i("status", 2).emit(); p.status = 2 << 8; return; }
    double y = sim::evalFunction(*spec, x);
    string out = fmtValue(y, spec->fmt);
    int status = 0; bool write = true;
    if (!fault.empty()) ev.str("fault", fault);
    if (fault == "nonzero") status = ((farg ? (int)farg : 3) & 0xff) << 8;
    else if (fault == "nonzero_noout") { status = 1 << 8; write = false; }
    else if (fault == "signal") { status = (farg ? (int)farg : 9) & 0x7f; out = out.substr(0, out.size() / 2); }
    else if (fault == "signal_full") status = (farg ? (int)farg : 15) & 0x7f;
    else if (fault == "noout") write = false;
    else if (fault == "rmout") { write = false; syscall(SYS_unlink, (dir + spec->out).c_str()); }
    else if (fault == "empty") out = "";
    else if (fault == "blank") out = "  \n\n";
    else if (fault == "garbage") { static const char *g[] = {"#value 1.0\n", "error: no convergence\n", "--1\n", "value = 3\n", "1e99999\n", ".\n", "-\n", "1.0D+05\n", "  2.5d-3\n", "0x1F\n", "3.2.1\n", "1.5abc\n"}; out = g[farg % 12]; }
    else if (fault == "nan") { static const char *g[] = {"nan\n", "-nan\n", "inf\n", "-inf\n", "NaN\n"}; out = g[farg % 5]; }
    ev.i("wrote", write);
    if (write) {
        if (!writeAll(dir + spec->out, out)) { status = status ? status : 1 << 8; ev.str("err", "disk full"); }
        ev.str("yraw", out).num("y", strtod(out.c_str(), nullptr));
    }
    ev.i("status", status).num("secs", secs).emit();
    p.status = status;
}
static SimProc *findProc(int pid) { for (auto &p : *g_procs) if (p.pid == pid && !p.reaped) return &p; return nullptr; }
static int g_fakePid = 1000000;

extern "C" {
static pid_t doFork() {
    static pid_t (*rfork)(void) = (pid_t(*)(void))dlsym(RTLD_NEXT, "fork");
    if (!armed()) return rfork();
    string exfault;
    {
        Guard g;
        const Fault *f = beginOp("fork", "", -1);
        if (f && (f->kind == "eio" || f->kind == "emfile" || f->kind == "eagain")) { errno = EAGAIN; return -1; }
        if (f && (f->kind == "enoexec" || f->kind == "eacces")) exfault = f->kind;
        g_shared->state = 0;
        g_execFault = exfault;
        sim::snapshot();
    }
    pid_t pid = rfork();
    if (pid < 0) return pid;
    if (pid == 0) { g_inChild = true; return 0; }
    Guard g;
    int st = 0;
    while (syscall(SYS_wait4, pid, &st, 0, nullptr) < 0 && errno == EINTR) {}
    SimProc p; p.pid = g_fakePid++; p.done = false; p.real = false; p.status = st; p.reaped = false; p.polls = 0; p.started = g_clock;
    if (g_shared->state == 1) {
        const char *q = g_shared->args;
        for (int i = 0; i < g_shared->argc; i++) { p.argv.push_back(q); q += strlen(q) + 1; }
        p.cwd = g_shared->cwd;
        string a = "["; for (size_t i = 0; i < p.argv.size(); i++) a += (i ? "," : "") + sim::jstr(p.argv[i]);
        Ev("launch").i("pid", p.pid).raw("argv", a + "]").emit();
    } else { p.real = true; p.done = true; Ev("launchfail").i("st", st).emit(); }
    g_procs->push_back(p);
    return p.pid;
}
pid_t fork(void) { return doFork(); }
pid_t vfork(void) { return doFork(); }
static int doExec(const char *file, char *const argv[]) {
    if (g_execFault == "enoexec") { errno = ENOENT; return -1; }
    if (g_execFault == "eacces") { errno = EACCES; return -1; }
    // the simulated programs exist by definition; anything else does not
    bool known = false;
    int argc = 0; size_t off = 0;
    for (int i = 0; argv[i]; i++) {
        size_t n = strlen(argv[i]) + 1; if (off + n > sizeof g_shared->args) break;
        memcpy(g_shared->args + off, argv[i], n); off += n; argc++;
        for (auto &e : plan.evals) if (e.exe == baseName(argv[i])) known = true;
    }
    (void)file;
    if (!known) { errno = ENOENT; return -1; }
    g_shared->argc = argc;
    if (syscall(SYS_getcwd, g_shared->cwd, sizeof g_shared->cwd) < 0) g_shared->cwd[0] = 0;
    g_shared->state = 1;
    rawExit(0);
}
int execve(const char *f, char *const argv[], char *const[]) { if (!g_inChild) { errno = EPERM; return -1; } return doExec(f, argv); }
int execv(const char *f, char *const argv[]) { return execve(f, argv, nullptr); }
int execvp(const char *f, char *const argv[]) { return execve(f, argv, nullptr); }
int execvpe(const char *f, char *const argv[], char *const[]) { return execve(f, argv, nullptr); }

static pid_t simWait(pid_t pid, int *status, int options, bool &handled) {
    handled = true;
    SimProc *p = nullptr;
    if (pid > 0) p = findProc(pid);
    else for (auto &q : *g_procs) if (!q.reaped) { p = &q; break; }
    if (!p) { errno = ECHILD; return -1; }
    {
        const Fault *f = beginOp("wait", "", -1);
        if (f && f->kind == "eintr") { errno = EINTR; return -1; }
    }
    if (!p->done) {
        if (options & WNOHANG) { if (p->polls++ < (int)(sim::rnd64(ST_EVAL) % 4)) { g_clock += 1000000000ll; return 0; } }
        runEvaluator(*p, false);
    }
    if (status) *status = p->status;
    p->reaped = true;
    return p->pid;
}
pid_t waitpid(pid_t pid, int *st, int opt) {
    static pid_t (*rw)(pid_t, int *, int) = (pid_t(*)(pid_t, int *, int))dlsym(RTLD_NEXT, "waitpid");
    if (!armed()) return rw(pid, st, opt);
    Guard g; bool h; return simWait(pid, st, opt, h);
}
pid_t wait(int *st) { return waitpid(-1, st, 0); }
pid_t wait4(pid_t pid, int *st, int opt, struct rusage *) { return waitpid(pid, st, opt); }
int waitid(idtype_t t, id_t id, siginfo_t *info, int opt) {
    int st = 0; pid_t r = waitpid(t == P_PID ? (pid_t)id : -1, &st, opt & WNOHANG);
    if (r < 0) return -1;
    if (info) { memset(info, 0, sizeof *info); if (r > 0) { info->si_pid = r; info->si_signo = SIGCHLD; if (WIFEXITED(st)) { info->si_code = CLD_EXITED; info->si_status = WEXITSTATUS(st); } else { info->si_code = CLD_KILLED; info->si_status = WTERMSIG(st); } } }
    return 0;
}
int kill(pid_t pid, int sig) {
    if (g_inChild) return (int)syscall(SYS_kill, pid, sig);
    Guard g;
    if (pid == (pid_t)syscall(SYS_getpid)) return (int)syscall(SYS_kill, pid, sig);
    SimProc *p = g_procs ? findProc(pid) : nullptr;
    Ev("kill").i("known", p != nullptr).i("sig", sig).emit();
    if (!p) { errno = ESRCH; return -1; }
    if (!p->done && sig == 0) return 0;
    if (!p->done) { p->done = true; p->status = sig & 0x7f; }
    return 0;
}
// a command run through the shell: same simulated program, run to completion
static int shellRun(const char *cmd) {
    Guard g;
    const Fault *f = beginOp("fork", "", -1);
    if (f && (f->kind == "eagain" || f->kind == "eio" || f->kind == "emfile")) { errno = EAGAIN; return -1; }
    SimProc p; p.pid = g_fakePid++; p.done = false; p.real = false; p.reaped = true; p.status = 0; p.polls = 0; p.started = g_clock;
    char b[PATH_MAX]; if (syscall(SYS_getcwd, b, sizeof b) < 0) b[0] = 0; p.cwd = b;
    string tok; for (const char *q = cmd;; q++) { if (!*q || isspace((unsigned char)*q)) { if (!tok.empty()) p.argv.push_back(tok); tok.clear(); if (!*q) break; } else tok += *q; }
    bool known = false; for (auto &a : p.argv) for (auto &e : plan.evals) if (e.exe == baseName(a)) known = true;
    sim::snapshot();
    if (!known || (f && f->kind == "enoexec")) return 127 << 8;
    runEvaluator(p, false);
    return p.status;
}
int system(const char *cmd) { if (!cmd) return 1; return shellRun(cmd); }
FILE *popen(const char *cmd, const char *mode) {
    Guard g; int st = shellRun(cmd); (void)st;
    static FILE *(*rfdopen)(int, const char *) = (FILE * (*)(int, const char *)) dlsym(RTLD_NEXT, "fdopen");
    int fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0); g_fakePid = st; return rfdopen(fd, mode);
}
int pclose(FILE *f) { int st = g_fakePid; fclose(f); return st; }
int posix_spawn(pid_t *pid, const char *, const void *, const void *, char *const argv[], char *const[]) {
    Guard g;
    const Fault *f = beginOp("fork", "", -1);
    if (f && (f->kind == "eagain" || f->kind == "eio" || f->kind == "emfile")) return EAGAIN;
    SimProc p; p.pid = g_fakePid++; p.done = false; p.real = false; p.reaped = false; p.status = 0; p.polls = 0; p.started = g_clock;
    char b[PATH_MAX]; if (syscall(SYS_getcwd, b, sizeof b) < 0) b[0] = 0; p.cwd = b;
    bool known = false;
    for (int i = 0; argv[i]; i++) { p.argv.push_back(argv[i]); for (auto &e : plan.evals) if (e.exe == baseName(argv[i])) known = true; }
    sim::snapshot();
    if (!known || (f && f->kind == "enoexec")) return ENOENT;
    g_procs->push_back(p); if (pid) *pid = p.pid; return 0;
}
int posix_spawnp(pid_t *pid, const char *a, const void *b, const void *c, char *const argv[], char *const e[]) { return posix_spawn(pid, a, b, c, argv, e); }
}

// ------------------------------------------------------------------ snapshots of the scratch directory
namespace sim {
static void snapDir(const string &dir, const string &prefix, std::map<string, string> &out) {
    DIR *d = opendir(dir.c_str()); if (!d) return;
    while (struct dirent *e = readdir(d)) {
        string n = e->d_name; if (n == "." || n == "..") continue;
        struct stat st; string full = dir + "/" + n;
        if (lstat(full.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) snapDir(full, prefix + n + "/", out);
        else if (S_ISREG(st.st_mode) && (!isLog(n) || plan.geti("snaplogs"))) { string c; if (readAll(full.c_str(), c)) out[prefix + n] = c; }
    }
    closedir(d);
}
void snapshot() {
    if (!g_scratchLen) return;
    Guard g;
    std::map<string, string> now; snapDir(g_scratch, "", now);
    string changed = "{", gone = "[";
    bool any = false;
    for (auto &kv : now) { auto it = g_snap->find(kv.first); if (it == g_snap->end() || it->second != kv.second) { changed += (changed.size() > 1 ? "," : "") + jstr(kv.first) + ":" + jstr(kv.second); any = true; } }
    for (auto &kv : *g_snap) if (!now.count(kv.first)) { gone += (gone.size() > 1 ? "," : "") + jstr(kv.first); any = true; }
    *g_snap = now;
    if (any) Ev("snap").i("at", g_op).raw("files", changed + "}").raw("gone", gone + "]").emit();
}
}

// ------------------------------------------------------------------ simulated threads
static const int NT = 10;
struct VC { uint32_t c[NT]; VC() { memset(c, 0, sizeof c); } void join(const VC &o) { for (int i = 0; i < NT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Team { int n; int arrived; long gen; long loopNext, loopEnd, loopIncr, loopChunk; int loopUsers; long singleGen; bool singleTaken; };
struct Thr {
    int id; bool used, done, joined; volatile int wake; pthread_t th; VC vc; std::function<void()> body; std::function<bool()> ready; bool blocked;
    void *ret; const char *why;
};
static Thr g_thr[NT];
static thread_local Thr *t_self = nullptr;
static thread_local Team *t_team = nullptr;
static thread_local int t_ompTid = 0;
static thread_local long t_singleSeen = 0;
static volatile int g_live = 1;          // simulated threads not finished
static Thr *volatile g_cur = nullptr;
static long g_step = 0, g_nextPreempt = LONG_MAX;
static long g_maxSteps = 400000000;
static double g_pMem = 0, g_pSync = 0;
static int g_schedMode = 0;              // 0: random, 1: list
static std::map<long, int> *g_preempts;  // list mode
static uint64_t g_schedHash = 1469598103934665603ull;
static long g_switches = 0, g_regions = 0, g_preemptLogged = 0;
static bool g_fine = false;              // instrumented build: memory accesses are scheduling points
static int g_nthreadsVar = 2;
static uint32_t g_epoch = 1;
static std::map<const void *, VC> *g_sync;
static std::map<const void *, int> *g_locks;  // lock -> owner thread id

static void futexWait(volatile int *a) { while (*a == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); *a = 0; }
static void futexWake(volatile int *a) { *a = 1; syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static Thr *selfThr() { if (!t_self) { t_self = &g_thr[0]; g_thr[0].used = true; g_thr[0].id = 0; g_cur = t_self; if (!g_thr[0].vc.c[0]) g_thr[0].vc.c[0] = 1; } return t_self; }

static void drawNext() {
    if (g_schedMode == 1) { auto it = g_preempts->upper_bound(g_step); g_nextPreempt = it == g_preempts->end() ? LONG_MAX : it->first; return; }
    if (g_pMem <= 0) { g_nextPreempt = LONG_MAX; return; }
    double u = sim::rnd01(ST_SCHED);
    long k = (long)(log(1.0 - u) / log(1.0 - g_pMem)) + 1;
    g_nextPreempt = g_step + std::max(1l, k);
}
static bool runnable(Thr &t) { return t.used && !t.done && (!t.blocked || t.ready()); }
static void switchTo(Thr *t) {
    Thr *me = selfThr();
    if (t == me) return;
    g_switches++;
    g_schedHash = (g_schedHash ^ (uint64_t)(g_step * 16 + t->id)) * 1099511628211ull;
    g_cur = t;
    futexWake(&t->wake);
    futexWait(&me->wake);
}
static bool g_logPre = false;
static void logPreempt(int to) { if (g_logPre && g_preemptLogged++ < 20000) Ev("pre").i("s", g_step).i("to", to).emit(); }
// pick another runnable thread; forced: the current one cannot go on
static void reschedule(bool forced) {
    Guard g;
    Thr *me = selfThr();
    Thr *cand[NT]; int n = 0;
    for (int i = 0; i < NT; i++) if (&g_thr[i] != me && runnable(g_thr[i])) cand[n++] = &g_thr[i];
    if (n == 0) {
        if (!forced) return;
        if (me->blocked && me->ready()) return;
        string w; for (int i = 0; i < NT; i++) if (g_thr[i].used && !g_thr[i].done) w += "T" + std::to_string(i) + ":" + (g_thr[i].why ? g_thr[i].why : "?") + " ";
        Ev("deadlock").i("step", g_step).str("threads", w).emit(); sim::snapshot(); finalStats(); rawExit(99);
    }
    Thr *to;
    if (g_schedMode == 1) {
        auto it = g_preempts->find(g_step);
        to = nullptr;
        if (it != g_preempts->end()) for (int i = 0; i < n; i++) if (cand[i]->id == it->second) to = cand[i];
        if (!to) { if (!forced) return; to = cand[0]; }
    } else {
        to = cand[n == 1 ? 0 : (int)(sim::rnd64(ST_SCHED) % (uint64_t)n)];
        if (!forced || to != cand[0]) logPreempt(to->id);
    }
    switchTo(to);
}
static inline void stepLimit() { if (g_step > g_maxSteps) { Guard g; Ev("steplimit").i("step", g_step).emit(); sim::snapshot(); finalStats(); rawExit(97); } }
static inline void yieldMem() {
    long s = ++g_step;
    if (__builtin_expect(s >= g_nextPreempt, 0)) { drawNext(); if (g_schedMode == 1) { if (g_preempts->count(s)) { reschedule(false); } drawNext(); } else reschedule(false); }
    if (__builtin_expect((s & 0xfffff) == 0, 0)) stepLimit();
}
static void yieldSync(const char *) {
    if (g_live <= 1 || t_inSim || g_inChild) return;
    long s = ++g_step;
    bool pre = false;
    if (g_schedMode == 1) pre = g_preempts->count(s) > 0;
    else pre = s >= g_nextPreempt || sim::rnd01(ST_SCHED) < g_pSync;
    if (pre) { reschedule(false); }
    if (s >= g_nextPreempt) drawNext();
    if ((s & 0xfff) == 0) stepLimit();
}
static void blockUntil(const char *why, std::function<bool()> ready) {
    Guard g;
    Thr *me = selfThr();
    while (!ready()) {
        ++g_step; stepLimit();
        me->blocked = true; me->ready = ready; me->why = why;
        reschedule(true);
        me->blocked = false; me->why = nullptr;
    }
}
static void acq(const void *a) { if (g_live <= 1) return; Guard g; auto it = g_sync->find(a); if (it != g_sync->end()) selfThr()->vc.join(it->second); }
static void rel(const void *a) { if (g_live <= 1) return; Guard g; Thr *me = selfThr(); (*g_sync)[a].join(me->vc); me->vc.c[me->id]++; }
static char g_lifecycle;

static void lockSim(const void *m, const char *why) {
    Thr *me = selfThr();
    yieldSync(why);
    Guard g;
    blockUntil(why, [m] { auto it = g_locks->find(m); return it == g_locks->end() || it->second < 0; });
    (*g_locks)[m] = me->id;
    acq(m);
}
static bool trylockSim(const void *m) { Guard g; auto it = g_locks->find(m); if (it != g_locks->end() && it->second >= 0) return false; (*g_locks)[m] = selfThr()->id; acq(m); return true; }
static void unlockSim(const void *m) { { Guard g; rel(m); (*g_locks)[m] = -1; } yieldSync("unlock"); }

static void *threadMain(void *p) {
    Thr *t = (Thr *)p;
    t_self = t;
    futexWait(&t->wake);
    t->body();
    Guard g;
    rel(&g_lifecycle);
    t->done = true;
    g_live = g_live - 1;
    if (g_live <= 1) {}
    // hand over
    Thr *cand[NT]; int n = 0;
    for (int i = 0; i < NT; i++) if (&g_thr[i] != t && runnable(g_thr[i])) cand[n++] = &g_thr[i];
    ++g_step;
    if (n == 0) { Ev("deadlock").i("step", g_step).str("threads", "after thread end").emit(); sim::snapshot(); finalStats(); rawExit(99); }
    Thr *to = cand[0];
    if (g_schedMode == 1) { auto it = g_preempts->find(g_step); if (it != g_preempts->end()) for (int i = 0; i < n; i++) if (cand[i]->id == it->second) to = cand[i]; }
    else { to = cand[sim::rnd64(ST_SCHED) % (uint64_t)n]; if (to != cand[0]) logPreempt(to->id); }
    g_schedHash = (g_schedHash ^ (uint64_t)(g_step * 16 + to->id)) * 1099511628211ull;
    g_cur = to;
    futexWake(&to->wake);
    return nullptr;
}
static int (*realCreate)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = nullptr;
static int (*realJoin)(pthread_t, void **) = nullptr;
static Thr *spawn(std::function<void()> body) {
    Guard g;
    Thr *me = selfThr();
    Thr *t = nullptr;
    for (int i = 1; i < NT; i++) if (!g_thr[i].used) { t = &g_thr[i]; break; }
    if (!t) return nullptr;
    if (!realCreate) realCreate = (decltype(realCreate))dlsym(RTLD_NEXT, "pthread_create");
    if (g_live == 1) { g_epoch++; g_sync->clear(); g_regions++; if (g_schedMode == 0 || g_nextPreempt == LONG_MAX) drawNext(); }
    t->used = true; t->done = false; t->joined = false; t->wake = 0; t->blocked = false; t->id = (int)(t - g_thr); t->body = std::move(body); t->ret = nullptr; t->why = nullptr;
    uint32_t own = t->vc.c[t->id];
    { auto it = g_sync->find(&g_lifecycle); if (it != g_sync->end()) t->vc.join(it->second); }
    t->vc.join(me->vc); t->vc.c[t->id] = own + 1;
    me->vc.c[me->id]++;
    g_live = g_live + 1;
    if (realCreate(&t->th, nullptr, threadMain, t)) { g_live = g_live - 1; t->used = false; return nullptr; }
    return t;
}
static void joinThr(Thr *t) {
    Guard g;
    blockUntil("join", [t] { return t->done; });
    if (!realJoin) realJoin = (decltype(realJoin))dlsym(RTLD_NEXT, "pthread_join");
    realJoin(t->th, nullptr);
    selfThr()->vc.join(t->vc);
    t->used = false;
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
    static int (*r)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!g_started || g_inChild || t_inSim) return r ? r(m) : 0;
    lockSim(m, "mutex"); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    static int (*r)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    if (!g_started || g_inChild || t_inSim) return r ? r(m) : 0;
    yieldSync("trylock"); return trylockSim(m) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    static int (*r)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    if (!g_started || g_inChild || t_inSim) return r ? r(m) : 0;
    { Guard g; auto it = g_locks->find(m); if (it == g_locks->end() || it->second < 0) return r ? r(m) : 0; }
    unlockSim(m); return 0;
}
int pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!realCreate) realCreate = (decltype(realCreate))dlsym(RTLD_NEXT, "pthread_create");
    if (!g_started || g_inChild || t_inSim) return realCreate(th, a, fn, arg);
    Thr *slot[1] = {nullptr};
    Thr *t = spawn([fn, arg] { t_self->ret = fn(arg); });
    (void)slot;
    if (!t) return EAGAIN;
    *th = t->th;
    yieldSync("create");
    return 0;
}
int pthread_join(pthread_t th, void **ret) {
    if (!realJoin) realJoin = (decltype(realJoin))dlsym(RTLD_NEXT, "pthread_join");
    if (!g_started || g_inChild || t_inSim) return realJoin(th, ret);
    for (int i = 1; i < NT; i++) if (g_thr[i].used && pthread_equal(g_thr[i].th, th)) { joinThr(&g_thr[i]); if (ret) *ret = g_thr[i].ret; return 0; }
    return realJoin(th, ret);
}
int pthread_detach(pthread_t) { return 0; }

// function-local statics
int __cxa_guard_acquire(long long *gp) {
    unsigned char *b = (unsigned char *)gp;
    if (b[0]) { acq(gp); return 0; }
    if (!g_started || g_live <= 1 || g_inChild) { if (b[0]) return 0; b[1] = 1; return 1; }
    yieldSync("guard");
    blockUntil("static init", [b] { return b[1] == 0 || b[0]; });
    if (b[0]) { acq(gp); return 0; }
    b[1] = 1; return 1;
}
void __cxa_guard_release(long long *gp) { unsigned char *b = (unsigned char *)gp; rel(gp); b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(long long *gp) { ((unsigned char *)gp)[1] = 0; }
int __cxa_thread_atexit(void (*d)(void *), void *o, void *dso) {
    // thread_local destructors: leave them to libc
    extern int __cxa_thread_atexit_impl(void (*)(void *), void *, void *);
    return __cxa_thread_atexit_impl(d, o, dso);
}

// ---------------------------------------------------------------- OpenMP runtime
static void teamBody(void (*fn)(void *), void *data, Team *team, int tid) {
    Team *oldT = t_team; int oldI = t_ompTid; long oldS = t_singleSeen;
    t_team = team; t_ompTid = tid; t_singleSeen = 0;
    fn(data);
    t_team = oldT; t_ompTid = oldI; t_singleSeen = oldS;
}
static void runTeam(void (*fn)(void *), void *data, unsigned nt, Team &team) {
    unsigned n = nt ? nt : (unsigned)g_nthreadsVar;
    if (t_team || g_inChild || !g_started) n = 1;
    if (n > (unsigned)NT) n = NT;
    if (n < 1) n = 1;
    team.n = (int)n;
    if (n > 1) { Ev("region").i("n", n).emit(); }
    std::vector<Thr *> ws;
    { Guard g; for (unsigned i = 1; i < n; i++) { Team *tp = &team; int ii = (int)i; Thr *t = spawn([fn, data, tp, ii] { teamBody(fn, data, tp, ii); }); if (t) ws.push_back(t); else { Ev("threadfail").emit(); rawExit(96); } } }
    if (n > 1) yieldSync("fork");
    teamBody(fn, data, &team, 0);
    for (Thr *t : ws) joinThr(t);
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { Team team{}; runTeam(fn, data, nt, team); }
static char g_critKey;
void GOMP_critical_start(void) { lockSim(&g_critKey, "critical"); }
void GOMP_critical_end(void) { unlockSim(&g_critKey); }
void GOMP_critical_name_start(void **p) { lockSim(p, "critical"); }
void GOMP_critical_name_end(void **p) { unlockSim(p); }
static char g_atomicKey;
void GOMP_atomic_start(void) { lockSim(&g_atomicKey, "atomic"); }
void GOMP_atomic_end(void) { unlockSim(&g_atomicKey); }
void GOMP_barrier(void) {
    Team *tm = t_team; if (!tm || tm->n <= 1) return;
    yieldSync("barrier");
    rel(tm);
    long gen = tm->gen;
    if (++tm->arrived == tm->n) { tm->arrived = 0; tm->gen++; tm->loopUsers = 0; }
    else blockUntil("barrier", [tm, gen] { return tm->gen != gen; });
    acq(tm);
}
static Team g_serialTeam;
static Team *team() { if (t_team) return t_team; g_serialTeam.n = 1; return &g_serialTeam; }
static bool loopNext(long *a, long *b) {
    Team *tm = team(); yieldSync("loop"); Guard g;
    rel(tm); acq(tm);
    if (tm->loopIncr > 0 ? tm->loopNext >= tm->loopEnd : tm->loopNext <= tm->loopEnd) return false;
    *a = tm->loopNext; long e = tm->loopNext + tm->loopChunk * tm->loopIncr;
    if (tm->loopIncr > 0 ? e > tm->loopEnd : e < tm->loopEnd) e = tm->loopEnd;
    *b = e; tm->loopNext = e; return true;
}
static void loopInit(long s, long e, long inc, long chunk) { Team *tm = team(); if (tm->loopUsers++ == 0) { tm->loopNext = s; tm->loopEnd = e; tm->loopIncr = inc; tm->loopChunk = chunk > 0 ? chunk : 1; } if (tm->n == 1) tm->loopUsers = 0; }
#define LOOP(name) \
bool GOMP_loop_##name##_start(long s, long e, long inc, long chunk, long *a, long *b) { loopInit(s, e, inc, chunk); return loopNext(a, b); } \
bool GOMP_loop_##name##_next(long *a, long *b) { return loopNext(a, b); } \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nt, long s, long e, long inc, long chunk, unsigned) { Team tm{}; tm.loopNext = s; tm.loopEnd = e; tm.loopIncr = inc; tm.loopChunk = chunk > 0 ? chunk : 1; tm.loopUsers = 1; runTeam(fn, data, nt, tm); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
#define LOOPR(name) \
bool GOMP_loop_##name##_start(long s, long e, long inc, long *a, long *b) { loopInit(s, e, inc, 1); return loopNext(a, b); } \
bool GOMP_loop_##name##_next(long *a, long *b) { return loopNext(a, b); } \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nt, long s, long e, long inc, unsigned) { Team tm{}; tm.loopNext = s; tm.loopEnd = e; tm.loopIncr = inc; tm.loopChunk = 1; tm.loopUsers = 1; runTeam(fn, data, nt, tm); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_single_start(void) { Team *tm = team(); if (tm->n == 1) return true; yieldSync("single"); long mine = ++t_singleSeen; if (mine > tm->singleGen) { tm->singleGen = mine; return true; } return false; }
unsigned GOMP_sections_start(unsigned n) { loopInit(1, (long)n + 1, 1, 1); long a, b; return loopNext(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void) { long a, b; return loopNext(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nt, unsigned count, unsigned) { Team tm{}; tm.loopNext = 1; tm.loopEnd = (long)count + 1; tm.loopIncr = 1; tm.loopChunk = 1; tm.loopUsers = 1; runTeam(fn, data, nt, tm); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
    if (cpy) { std::vector<char> b((size_t)(sz + al)); char *p = (char *)(((uintptr_t)b.data() + (uintptr_t)al - 1) & ~((uintptr_t)al - 1)); cpy(p, data); fn(p); } else fn(data); }
void GOMP_taskwait(void) {}
int omp_get_thread_num(void) { return t_team ? t_ompTid : 0; }
int omp_get_num_threads(void) { return t_team ? t_team->n : 1; }
int omp_get_max_threads(void) { return g_nthreadsVar; }
int omp_get_num_procs(void) { return 4; }
void omp_set_num_threads(int n) { g_nthreadsVar = n > 0 ? n : 1; }
int omp_in_parallel(void) { return t_team && t_team->n > 1; }
void omp_set_dynamic(int) {} int omp_get_dynamic(void) { return 0; } void omp_set_nested(int) {} int omp_get_nested(void) { return 0; }
int omp_get_level(void) { return t_team ? 1 : 0; } int omp_get_thread_limit(void) { return NT; }
double omp_get_wtime(void) { return (double)clockNow(true) * 1e-9; } double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void **l) { *l = nullptr; } void omp_destroy_lock(void **) {} void omp_set_lock(void **l) { lockSim(l, "omp_lock"); } void omp_unset_lock(void **l) { unlockSim(l); } int omp_test_lock(void **l) { return trylockSim(l); }
}

// ------------------------------------------------------------------ race detector
struct Cell { uint64_t key; uint32_t epoch; uint8_t wtid, wmask; uint32_t wclk; void *wpc; uint32_t rclk[NT]; uint8_t rmask[NT]; void *rpc[NT]; };
static Cell *g_cells = nullptr; static size_t g_ncell = 0, g_used = 0; static uint32_t g_usedEpoch = 0;
static std::set<std::pair<void *, void *>> *g_races;
static void allocCells(size_t n) { g_cells = (Cell *)mmap(nullptr, n * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_ncell = n; }
static inline size_t hashKey(uint64_t k) { return (size_t)((k * 0x9E3779B97F4A7C15ull) >> 32); }
static Cell *cell(uint64_t key, bool create) {
    if (g_usedEpoch != g_epoch) { g_usedEpoch = g_epoch; g_used = 0; }
    if (create && g_used * 2 > g_ncell) {
        Cell *old = g_cells; size_t on = g_ncell; allocCells(on * 2); g_used = 0;
        for (size_t i = 0; i < on; i++) if (old[i].epoch == g_epoch) { size_t h = hashKey(old[i].key) & (g_ncell - 1); while (g_cells[h].epoch == g_epoch) h = (h + 1) & (g_ncell - 1); g_cells[h] = old[i]; g_used++; }
        munmap(old, on * sizeof(Cell));
    }
    size_t h = hashKey(key) & (g_ncell - 1);
    while (g_cells[h].epoch == g_epoch) { if (g_cells[h].key == key) return &g_cells[h]; h = (h + 1) & (g_ncell - 1); }
    if (!create) return nullptr;
    Cell *c = &g_cells[h];
    memset(c, 0, sizeof *c); c->key = key; c->epoch = g_epoch; c->wtid = 255; g_used++;
    return c;
}
static void reportRace(void *pc1, void *pc2, bool w1, bool w2, uint64_t addr, int t1, int t2) {
    auto k = std::make_pair(std::min(pc1, pc2), std::max(pc1, pc2));
    if (g_races->size() > 200 || !g_races->insert(k).second) return;
    char a[32], b[32]; snprintf(a, sizeof a, "%p", pc1); snprintf(b, sizeof b, "%p", pc2);
    Ev("race").str("pc1", a).str("pc2", b).i("w1", w1).i("w2", w2).i("t1", t1).i("t2", t2).i("step", g_step).emit();
    (void)addr;
}
static inline void access(void *p, size_t size, bool wr, void *pc) {
    if (__builtin_expect(g_live <= 1, 1) || t_inSim) return;
    Guard g;
    Thr *me = t_self ? t_self : selfThr();
    uint64_t a = (uint64_t)p, e = a + size;
    while (a < e) {
        uint64_t k = a >> 3; unsigned o = a & 7; unsigned n = (unsigned)std::min<uint64_t>(8 - o, e - a);
        uint8_t mask = (uint8_t)(((1u << n) - 1) << o);
        Cell *c = cell(k, true);
        if (c->wtid != 255 && c->wtid != me->id && (c->wmask & mask) && c->wclk > me->vc.c[c->wtid]) reportRace(c->wpc, pc, true, wr, a, c->wtid, me->id);
        if (wr) {
            for (int t = 0; t < NT; t++) if (t != me->id && (c->rmask[t] & mask) && c->rclk[t] > me->vc.c[t]) reportRace(c->rpc[t], pc, false, true, a, t, me->id);
            if (c->wtid == me->id && c->wclk == me->vc.c[me->id]) c->wmask |= mask; else { c->wtid = (uint8_t)me->id; c->wmask = mask; c->wclk = me->vc.c[me->id]; }
            c->wpc = pc;
        } else {
            if (c->rclk[me->id] == me->vc.c[me->id]) c->rmask[me->id] |= mask; else { c->rclk[me->id] = me->vc.c[me->id]; c->rmask[me->id] = mask; }
            c->rpc[me->id] = pc;
        }
        a += n;
    }
    --t_inSim; yieldMem(); ++t_inSim;
}
static void clearShadow(void *p, size_t n) {
    if (g_live <= 1 || !g_cells || !p) return;
    Guard g;
    for (uint64_t k = (uint64_t)p >> 3; k <= ((uint64_t)p + (n ? n - 1 : 0)) >> 3; k++) { Cell *c = cell(k, false); if (c) { c->wtid = 255; c->wmask = 0; memset(c->rmask, 0, sizeof c->rmask); } }
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(void) { g_fine = true; }
void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {}
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true, PC); }
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false, PC); } void __tsan_write##n(void *p) { access(p, n, true, PC); } \
 void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
 void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, PC); } void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, PC); }
static inline void at(const volatile void *p) { yieldSync("atomic"); acq((const void *)p); }
static inline void ar(const volatile void *p) { rel((const void *)p); }
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int) { at(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int) { at(a); ar(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { at(a); ar(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { at(a); ar(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { at(a); ar(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { at(a); ar(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { at(a); ar(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { at(a); ar(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { at(a); ar(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { at(a); ar(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { at(a); ar(a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------ memory
// After a fatal signal the heap may be damaged or locked: what is still to be written down comes from memory of its own.
static char *g_emergency = nullptr, *g_emergencyEnd = nullptr;
static void *allocOrThrow(size_t n, size_t al, bool nothrow) {
    if (__builtin_expect(g_emergency != nullptr, 0)) {
        char *q = (char *)(((uintptr_t)g_emergency + 63) & ~(uintptr_t)63);
        if (q + n > g_emergencyEnd) syscall(SYS_exit_group, 99);
        g_emergency = q + n;
        return q;
    }
    if (__builtin_expect(g_allocArmed, 0) && !t_inSim && !g_inChild) {
        if (g_allocCount++ == g_allocFault) {
            Ev("fault").i("n", g_allocFault).str("kind", "oom").i("arg", (long long)n).str("op", "alloc").str("path", "").emit();
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    void *p = al ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void dealloc(void *p) { if (__builtin_expect(g_emergency != nullptr, 0)) return; if (p && g_live > 1 && !t_inSim) clearShadow(p, malloc_usable_size(p)); free(p); }
void *operator new(size_t n) { return allocOrThrow(n, 0, false); }
void *operator new[](size_t n) { return allocOrThrow(n, 0, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return allocOrThrow(n, 0, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return allocOrThrow(n, 0, true); }
void *operator new(size_t n, std::align_val_t a) { return allocOrThrow(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return allocOrThrow(n, (size_t)a, false); }
void operator delete(void *p) noexcept { dealloc(p); }
void operator delete[](void *p) noexcept { dealloc(p); }
void operator delete(void *p, size_t) noexcept { dealloc(p); }
void operator delete[](void *p, size_t) noexcept { dealloc(p); }
void operator delete(void *p, std::align_val_t) noexcept { dealloc(p); }
void operator delete[](void *p, std::align_val_t) noexcept { dealloc(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { dealloc(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { dealloc(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { dealloc(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { dealloc(p); }

// ------------------------------------------------------------------ start / finish
static void finalStats() {
    char h[32]; snprintf(h, sizeof h, "%016llx", (unsigned long long)g_schedHash);
    Ev("stats").i("ops", g_op).i("steps", g_step).i("switches", g_switches).i("regions", g_regions).i("rng", g_rngDraws).i("allocs", g_allocCount)
        .num("simsecs", g_clock < 0 ? 0.0 : (double)(g_clock - g_clockStart) * 1e-9).str("sched", h).i("evals", g_evalCount).emit();
}
static void onSignal(int s) {
    t_inSim = 100;
    alarm(10);
    const size_t len = (size_t)1 << 30;
    char *m = (char *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m != MAP_FAILED) { g_emergencyEnd = m + len; g_emergency = m; }
    Ev("signal").i("sig", s).emit(); sim::snapshot(); finalStats(); rawExit(128 + s);
}
static void onTerminate() {
    t_inSim = 100;
    string what = "?";
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception &x) { what = x.what(); } catch (...) { what = "non-standard exception"; } }
    Ev("terminate").str("what", what).emit(); sim::snapshot(); finalStats(); rawExit(134);
}
static std::vector<string> split(const string &s, char d) { std::vector<string> o; string c; for (char ch : s) { if (ch == d) { o.push_back(c); c.clear(); } else c += ch; } o.push_back(c); return o; }

namespace sim {
long steps() { return g_step; }
void start(const char *planfile) {
    ++t_inSim;
    initStreams(); selfThr();
    g_faults = new std::vector<Fault>; g_evFaults = new std::map<long, std::pair<string, long>>; g_snap = new std::map<string, string>; g_procs = new std::vector<SimProc>;
    g_preempts = new std::map<long, int>; g_sync = new std::map<const void *, VC>; g_locks = new std::map<const void *, int>; g_races = new std::set<std::pair<void *, void *>>;
    g_shared = (SharedExec *)mmap(nullptr, sizeof(SharedExec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    allocCells(1 << 16);
    string txt; if (!readAll(planfile, txt)) { fprintf(stderr, "no plan\n"); rawExit(95); }
    for (auto &line : split(txt, '\n')) {
        if (line.empty()) continue;
        auto f = split(line, '\t');
        if (f[0] == "fault") g_faults->push_back({atol(f[1].c_str()), f[2], atol(f[3].c_str()), false});
        else if (f[0] == "evfault") (*g_evFaults)[atol(f[1].c_str())] = {f[2], atol(f[3].c_str())};
        else if (f[0] == "pre") (*g_preempts)[atol(f[1].c_str())] = atoi(f[2].c_str());
        else if (f[0] == "eval") { EvalSpec e; e.exe = f[1]; e.dv = f[2]; e.out = f[3]; e.fn = f[4]; e.fmt = atoi(f[5].c_str()); e.shift = atof(f[6].c_str()); for (size_t i = 7; i < f.size(); i++) if (!f[i].empty()) e.c.push_back(atof(f[i].c_str())); plan.evals.push_back(e); }
        else plan.kv[f[0]] = f.size() > 1 ? f[1] : "";
    }
    plan.seed = strtoull(plan.get("seed", "1").c_str(), nullptr, 10);
    plan.scenario = plan.get("scenario");
    g_pMem = plan.getd("pmem", 0); g_pSync = plan.getd("psync", 0); g_schedMode = (int)plan.geti("schedlist", 0);
    g_allocFault = plan.geti("oom", -1); g_stopAfter = plan.geti("stopafter", -1);
    g_maxSteps = plan.geti("maxsteps", g_maxSteps); g_logPre = plan.geti("logpre", 0) != 0; g_trackLogs = plan.geti("snaplogs") != 0; g_nthreadsVar = (int)plan.geti("cpus", 2);
    g_wallSkew = 0;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, getenv("SIM_LOG"), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    g_logfd = (int)syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 3000); if (g_logfd < 0) g_logfd = (int)syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 200);
    syscall(SYS_close, fd);
    string sc = plan.get("scratch");
    if (chdir(sc.c_str()) || !syscall(SYS_getcwd, g_scratch, sizeof g_scratch)) { fprintf(stderr, "no scratch\n"); rawExit(95); }
    g_scratchLen = strlen(g_scratch);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    std::set_terminate(onTerminate);
    clockNow(true);
    on_exit([](int code, void *) { finish(code); }, nullptr);
    --t_inSim;
    snapshot();
    g_started = true;
}
void finish(int code) {
    g_started = false;
    // output an evaluator produced after the study ended
    for (auto &p : *g_procs) if (!p.done && !p.real) { Ev("orphan").i("pid", p.pid).i("completes", 1).emit(); runEvaluator(p, true); }
    snapshot(); finalStats();
    Ev("exit").i("code", code).emit();
    rawExit(code);
}
}
