/* Simulated disk, clock and signals, as a preloaded libc shim.
 *
 * Every mutating file-system call on a path below the simulated root gets a sequence number, is
 * appended to an operation log (from which every crash state is later rebuilt) and may be hit by
 * a scripted fault: an errno, a short write, a SIGINT before or after it.  The clock is a script
 * too.  Nothing happens until simfs_arm() is called; the real files stay below the scratch root.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
enum { OP_OPEN = 1, OP_WRITE, OP_TRUNC, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_RMDIR, OP_FSYNC, OP_LINK, OP_MARK };
enum { F_ERRNO = 1, F_SHORT = 2, F_SIGINT_BEFORE = 3, F_SIGINT_AFTER = 4, F_KILL = 5 };

static int armed = 0, logfd = -1;
static char root[PATH_MAX];
static size_t rootlen = 0;
static uint64_t seq = 0;
static struct { uint64_t at, until; int kind, arg, ops; long hits; } faults[64];
static int nfaults = 0;
static char *fdpath[4096];
static int fdappend[4096];

struct rec { uint32_t magic, kind; uint64_t seq; int32_t fd, res; uint64_t off; uint32_t plen, dlen; };

#define REAL(ret, name, args) static ret (*real_##name) args; \
    if (!real_##name) real_##name = (ret (*) args)dlsym(RTLD_NEXT, #name)

static void raw_write(const void *p, size_t n) {
    const char *c = p;
    while (n) { long k = syscall(SYS_write, logfd, c, n); if (k <= 0) return; c += k; n -= k; }
}
static void put(int kind, uint64_t s, int fd, int res, uint64_t off, const char *path, const void *data, size_t dlen) {
    if (logfd < 0) return;
    struct rec r = {0x51F5F00D, kind, s, fd, res, off, path ? strlen(path) : 0, dlen};
    size_t total = sizeof r + r.plen + dlen;
    char stack[4096], *b = total <= sizeof stack ? stack : malloc(total);
    memcpy(b, &r, sizeof r);
    if (r.plen) memcpy(b + sizeof r, path, r.plen);
    if (dlen) memcpy(b + sizeof r + r.plen, data, dlen);
    raw_write(b, total);
    if (b != stack) free(b);
}
/* absolute path, not resolving symlinks; returns 1 if below the simulated root */
static int below(int dirfd, const char *path, char *out) {
    if (!armed || !path) return 0;
    int e = errno;
    if (path[0] == '/') snprintf(out, PATH_MAX, "%s", path);
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) { errno = e; return 0; } }
        else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            long n = syscall(SYS_readlinkat, AT_FDCWD, l, base, sizeof base - 1);
            if (n < 0) { errno = e; return 0; }
            base[n] = 0;
        }
        if (snprintf(out, PATH_MAX, "%s/%s", base, path) >= PATH_MAX) { errno = e; return 0; }
    }
    /* squeeze // and /./ */
    char *w = out;
    for (char *r = out; *r;) {
        if (r[0] == '/' && r[1] == '/') { r++; continue; }
        if (r[0] == '/' && r[1] == '.' && (r[2] == '/' || !r[2])) { r += 2; continue; }
        *w++ = *r++;
    }
    *w = 0;
    errno = e;
    return strncmp(out, root, rootlen) == 0 && (out[rootlen] == '/' || out[rootlen] == 0);
}
/* returns 0: go on; -1: fail with errno set; n>0: short write of n bytes */
static void tell(const char *what, int op, uint64_t s, const char *path) {
    char b[PATH_MAX + 64];
    snprintf(b, sizeof b, "fault %s %d %s", what, op, path ? path : "");
    put(OP_MARK, s, -1, 0, 0, b, NULL, 0);
}
static int hit(uint64_t s, int op, int *after, const char *path) {
    int ret = 0;
    *after = 0;
    for (int i = 0; i < nfaults; ++i) {
        if (s < faults[i].at || s > faults[i].until) continue;
        if (faults[i].ops && !(faults[i].ops & (1 << op))) continue;
        switch (faults[i].kind) {
            case F_ERRNO: faults[i].hits++; tell("errno", op, s, path); errno = faults[i].arg; return -1;
            case F_SHORT: if (op == OP_WRITE) { faults[i].hits++; tell("short", op, s, path); ret = faults[i].arg; } break;
            case F_SIGINT_BEFORE: faults[i].hits++; raise(SIGINT); break;
            case F_SIGINT_AFTER: faults[i].hits++; *after = 1; break;
            case F_KILL: faults[i].hits++; syscall(SYS_exit_group, 137); break;
        }
    }
    return ret;
}

/* ------------------------------------------------------------------ control */
EXPORT void simfs_arm(const char *r, int fd) {
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
    logfd = fd; seq = 0; nfaults = 0; armed = 1;
    for (int i = 0; i < 4096; ++i) { free(fdpath[i]); fdpath[i] = NULL; }
}
EXPORT void simfs_disarm(void) { armed = 0; }
EXPORT void simfs_fault(uint64_t at, uint64_t until, int kind, int arg, int ops) {
    if (nfaults < 64) { faults[nfaults].at = at; faults[nfaults].until = until; faults[nfaults].kind = kind;
        faults[nfaults].arg = arg; faults[nfaults].ops = ops; faults[nfaults].hits = 0; nfaults++; }
}
EXPORT long simfs_hits(int i) { return i < nfaults ? faults[i].hits : -1; }
EXPORT uint64_t simfs_seq(void) { return seq; }
EXPORT void simfs_mark(const char *what) { if (armed) put(OP_MARK, seq, -1, 0, 0, what, NULL, 0); }

/* ------------------------------------------------------------------ opening */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char abs[PATH_MAX];
    int acc = flags & O_ACCMODE, b = below(dirfd, path, abs);
    int mut = b && (acc != O_RDONLY || (flags & (O_CREAT | O_TRUNC)));
    if (!b) return syscall(SYS_openat, dirfd, path, flags, mode);
    int after = 0; uint64_t s = 0;
    if (mut) {
        s = ++seq;
        if (hit(s, OP_OPEN, &after, abs) < 0) { int e = errno; put(OP_OPEN, s, -1, -e, flags, abs, NULL, 0); errno = e; return -1; }
    }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < 4096) { free(fdpath[fd]); fdpath[fd] = mut ? strdup(abs) : NULL; fdappend[fd] = !!(flags & O_APPEND); }
    if (mut) { int e = errno; put(OP_OPEN, s, fd, fd < 0 ? -e : 0, flags, abs, NULL, 0); if (after) raise(SIGINT); errno = e; }
    return fd;
}
#define MODE() mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
EXPORT int open(const char *p, int flags, ...) { MODE() return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int open64(const char *p, int flags, ...) { MODE() return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int openat(int d, const char *p, int flags, ...) { MODE() return do_open(d, p, flags, mode); }
EXPORT int openat64(int d, const char *p, int flags, ...) { MODE() return do_open(d, p, flags, mode); }
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int close(int fd) {
    if (armed && fd >= 0 && fd < 4096 && fdpath[fd]) {
        put(OP_CLOSE, ++seq, fd, 0, 0, fdpath[fd], NULL, 0);
        free(fdpath[fd]); fdpath[fd] = NULL;
    }
    return syscall(SYS_close, fd);
}

/* ------------------------------------------------------------------ writing */
static ssize_t do_write(int fd, const void *buf, size_t n, off_t at) {
    if (!(armed && fd >= 0 && fd < 4096 && fdpath[fd]))
        return at < 0 ? syscall(SYS_write, fd, buf, n) : syscall(SYS_pwrite64, fd, buf, n, at);
    uint64_t s = ++seq;
    int after = 0, h = hit(s, OP_WRITE, &after, fdpath[fd]);
    if (h < 0) { int e = errno; put(OP_WRITE, s, fd, -e, 0, fdpath[fd], NULL, 0); errno = e; return -1; }
    if (h > 0 && (size_t)h < n) n = h;
    off_t off = at;
    if (at < 0) {
        if (fdappend[fd]) { struct stat sb; fstat(fd, &sb); off = sb.st_size; }
        else off = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    }
    ssize_t k = at < 0 ? syscall(SYS_write, fd, buf, n) : syscall(SYS_pwrite64, fd, buf, n, at);
    int e = errno;
    if (k >= 0) put(OP_WRITE, s, fd, (int)k, off, fdpath[fd], buf, k);
    if (after) raise(SIGINT);
    errno = e;
    return k;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!(armed && fd >= 0 && fd < 4096 && fdpath[fd])) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; ++i) {
        ssize_t k = do_write(fd, v[i].iov_base, v[i].iov_len, -1);
        if (k < 0) return t ? t : -1;
        t += k;
        if ((size_t)k < v[i].iov_len) break;
    }
    return t;
}
EXPORT ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    if (armed && o >= 0 && o < 4096 && fdpath[o]) { errno = ENOTSOCK; return -1; }
    return syscall(SYS_sendfile, o, i, off, n);
}
EXPORT ssize_t sendfile64(int o, int i, off_t *off, size_t n) { return sendfile(o, i, off, n); }
EXPORT ssize_t copy_file_range(int a, off_t *b, int c, off_t *d, size_t n, unsigned f) {
    if (armed && c >= 0 && c < 4096 && fdpath[c]) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, a, b, c, d, n, f);
}
EXPORT int ftruncate(int fd, off_t n) {
    if (!(armed && fd >= 0 && fd < 4096 && fdpath[fd])) return syscall(SYS_ftruncate, fd, n);
    uint64_t s = ++seq; int after;
    if (hit(s, OP_TRUNC, &after, fdpath[fd]) < 0) return -1;
    int r = syscall(SYS_ftruncate, fd, n);
    int e = errno; if (r == 0) put(OP_TRUNC, s, fd, 0, n, fdpath[fd], NULL, 0);
    if (after) raise(SIGINT);
    errno = e; return r;
}
EXPORT int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
EXPORT int truncate(const char *p, off_t n) {
    char abs[PATH_MAX];
    if (!below(AT_FDCWD, p, abs)) return syscall(SYS_truncate, p, n);
    uint64_t s = ++seq; int after;
    if (hit(s, OP_TRUNC, &after, abs) < 0) return -1;
    int r = syscall(SYS_truncate, p, n);
    int e = errno; if (r == 0) put(OP_TRUNC, s, -1, 0, n, abs, NULL, 0);
    if (after) raise(SIGINT);
    errno = e; return r;
}
EXPORT int truncate64(const char *p, off_t n) { return truncate(p, n); }
static int do_sync(int fd, long nr) {
    if (!(armed && fd >= 0 && fd < 4096 && fdpath[fd])) return syscall(nr, fd);
    uint64_t s = ++seq; int after;
    if (hit(s, OP_FSYNC, &after, fdpath[fd]) < 0) return -1;
    put(OP_FSYNC, s, fd, 0, 0, fdpath[fd], NULL, 0);
    if (after) raise(SIGINT);
    return 0;            /* durability is the model's business */
}
EXPORT int fsync(int fd) { return do_sync(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
EXPORT void sync(void) { if (armed) put(OP_FSYNC, ++seq, -1, 0, 0, "*", NULL, 0); else syscall(SYS_sync); }

/* ------------------------------------------------------------------ names */
static int do_rename(int od, const char *o, int nd, const char *n, unsigned flags) {
    char a[PATH_MAX], b[PATH_MAX];
    int x = below(od, o, a), y = below(nd, n, b);
    if (!x && !y) return syscall(SYS_renameat2, od, o, nd, n, flags);
    uint64_t s = ++seq; int after;
    if (hit(s, OP_RENAME, &after, b) < 0) return -1;
    int r = syscall(SYS_renameat2, od, o, nd, n, flags);
    int e = errno; if (r == 0) put(OP_RENAME, s, -1, 0, 0, a, b, strlen(b));
    if (after) raise(SIGINT);
    errno = e; return r;
}
EXPORT int rename(const char *o, const char *n) { return do_rename(AT_FDCWD, o, AT_FDCWD, n, 0); }
EXPORT int renameat(int od, const char *o, int nd, const char *n) { return do_rename(od, o, nd, n, 0); }
EXPORT int renameat2(int od, const char *o, int nd, const char *n, unsigned f) { return do_rename(od, o, nd, n, f); }
static int do_unlink(int d, const char *p, int flags) {
    char a[PATH_MAX];
    if (!below(d, p, a)) return syscall(SYS_unlinkat, d, p, flags);
    uint64_t s = ++seq; int after, op = (flags & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK;
    if (hit(s, op, &after, a) < 0) return -1;
    int r = syscall(SYS_unlinkat, d, p, flags);
    int e = errno; if (r == 0) put(op, s, -1, 0, 0, a, NULL, 0);
    if (after) raise(SIGINT);
    errno = e; return r;
}
EXPORT int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
EXPORT int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
EXPORT int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
EXPORT int remove(const char *p) { int r = do_unlink(AT_FDCWD, p, 0); if (r < 0 && errno == EISDIR) r = rmdir(p); return r; }
static int do_mkdir(int d, const char *p, mode_t m) {
    char a[PATH_MAX];
    if (!below(d, p, a)) return syscall(SYS_mkdirat, d, p, m);
    uint64_t s = ++seq; int after;
    if (hit(s, OP_MKDIR, &after, a) < 0) return -1;
    int r = syscall(SYS_mkdirat, d, p, m);
    int e = errno; if (r == 0) put(OP_MKDIR, s, -1, 0, 0, a, NULL, 0);
    if (after) raise(SIGINT);
    errno = e; return r;
}
EXPORT int mkdir(const char *p, mode_t m) { return do_mkdir(AT_FDCWD, p, m); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { return do_mkdir(d, p, m); }
static int do_link(int od, const char *o, int nd, const char *n, int f) {
    char a[PATH_MAX], b[PATH_MAX];
    int x = below(od, o, a), y = below(nd, n, b);
    if (!x && !y) return syscall(SYS_linkat, od, o, nd, n, f);
    uint64_t s = ++seq; int after;
    if (hit(s, OP_LINK, &after, b) < 0) return -1;
    int r = syscall(SYS_linkat, od, o, nd, n, f);
    int e = errno; if (r == 0) put(OP_LINK, s, -1, 0, 0, a, b, strlen(b));
    errno = e; return r;
}
EXPORT int link(const char *o, const char *n) { return do_link(AT_FDCWD, o, AT_FDCWD, n, 0); }
EXPORT int linkat(int od, const char *o, int nd, const char *n, int f) { return do_link(od, o, nd, n, f); }

/* ------------------------------------------------------------------ clock */
static int clk = 0;
static double wall, mono;
static double ticks[1024], jumps[1024];
static int nticks = 1;
static uint64_t reads = 0;
static uint64_t clk_sigint = 0;
EXPORT void simclock_arm(double w, double m, int n, const double *t, const double *j) {
    wall = w; mono = m; nticks = n > 1024 ? 1024 : n; reads = 0; clk_sigint = 0;
    memcpy(ticks, t, nticks * sizeof(double)); memcpy(jumps, j, nticks * sizeof(double));
    clk = 1;
}
EXPORT void simclock_disarm(void) { clk = 0; }
EXPORT void simclock_advance(double dt) { wall += dt; mono += dt; }
EXPORT void simclock_jump(double dj) { wall += dj; }
EXPORT double simclock_wall(void) { return wall; }
EXPORT double simclock_mono(void) { return mono; }
EXPORT uint64_t simclock_reads(void) { return reads; }
EXPORT void simclock_sigint(uint64_t at) { clk_sigint = at; }
static double step(int which) {
    int k = reads % nticks;
    reads++;
    mono += ticks[k]; wall += ticks[k] + jumps[k];
    if (wall < 0) wall = 0;
    if (wall > 8e9) wall = 8e9;
    if (mono > 8e9) mono = 8e9;
    if (clk_sigint && reads == clk_sigint) raise(SIGINT);
    return which ? mono : wall;
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!clk) { REAL(int, clock_gettime, (clockid_t, struct timespec *)); return real_clock_gettime(id, ts); }
    double v = step(!(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE));
    if (v < 0) v = 0;
    ts->tv_sec = (time_t)v; ts->tv_nsec = (long)((v - (double)ts->tv_sec) * 1e9);
    return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
EXPORT time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
EXPORT int nanosleep(const struct timespec *r, struct timespec *rem) {
    if (!clk) { REAL(int, nanosleep, (const struct timespec *, struct timespec *)); return real_nanosleep(r, rem); }
    simclock_advance(r->tv_sec + r->tv_nsec * 1e-9); return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec *r, struct timespec *rem) {
    if (!clk) { REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec *, struct timespec *)); return real_clock_nanosleep(id, flags, r, rem); }
    double t = r->tv_sec + r->tv_nsec * 1e-9;
    if (flags & TIMER_ABSTIME) t -= (id == CLOCK_REALTIME ? wall : mono);
    if (t > 0) simclock_advance(t);
    return 0;
}

/* ------------------------------------------------------------------ memory
 * Large allocations (those numpy makes for array data) can be made to fail: the nth one of at
 * least `min` bytes since simmem_arm(). */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static volatile int mem_on = 0;
static size_t mem_min = 0;
static long mem_nth = 0, mem_count = 0, mem_hits = 0;
EXPORT void simmem_arm(size_t min, long nth) { mem_min = min; mem_nth = nth; mem_count = 0; mem_hits = 0; mem_on = 1; }
EXPORT long simmem_disarm(void) { mem_on = 0; return mem_hits; }
EXPORT long simmem_count(void) { return mem_count; }
static int mem_fail(size_t n) {
    if (!mem_on || n < mem_min) return 0;
    if (++mem_count == mem_nth) { mem_hits++; errno = ENOMEM; return 1; }
    return 0;
}
EXPORT void *malloc(size_t n) { return mem_fail(n) ? NULL : __libc_malloc(n); }
EXPORT void *calloc(size_t a, size_t b) { return mem_fail(a * b) ? NULL : __libc_calloc(a, b); }
EXPORT void *realloc(void *p, size_t n) { return mem_fail(n) ? NULL : __libc_realloc(p, n); }
