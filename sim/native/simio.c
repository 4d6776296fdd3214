/* simio: deterministic simulated operating-system surface (LD_PRELOAD).
 *
 * When armed, every file-system operation of the process on a path below the
 * simulated root passes through one seam: it gets a global sequence number,
 * is logged, may be hit by a fault from the seeded plan (errno, short or torn
 * transfer, crash before/after the operation), is journalled when it changes
 * durable state, and (with a gate) waits until the scheduler lets it run.
 * Directory listings come back in a seeded order, the clock is simulated,
 * getrandom/getpid are deterministic and fresh heap memory holds seeded
 * garbage.  Nothing is changed while it is not armed. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define REAL(name) ({ static __typeof__(&name) f_; if (!f_) f_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f_; })

enum { C_OPENR = 1, C_OPENW = 2, C_READ = 4, C_WRITE = 8, C_TRUNC = 16, C_CLOSE = 32,
       C_RENAME = 64, C_UNLINK = 128, C_MKDIR = 256, C_FSYNC = 512, C_OPENDIR = 1024,
       C_STAT = 2048, C_FLOCK = 4096 };
enum { A_ERR = 1, A_SHORT = 2, A_CRASH_BEFORE = 3, A_CRASH_AFTER = 4, A_TORN_CRASH = 5, A_TORN_ERR = 6, A_EINTR = 7 };
enum { J_CREATE = 1, J_WRITE = 2, J_TRUNC = 3, J_RENAME = 4, J_UNLINK = 5, J_MKDIR = 6, J_FSYNC = 7, J_RMDIR = 8 };

struct rule { int mask, nth, count, act; long arg; char sub[512]; int seen, fired; };
static struct rule rules[64];
static int nrules;
static int armed;
static char root[1024];
static size_t rootlen;
static uint64_t seed0;
static long seq;
static char *lg; static size_t lglen, lgcap;
static int jfd = -1, logfd = -1, gate_w = -1, gate_r = -1;
static int shuffle_dirs, fake_clock, poison;
static uint64_t poison_word;
static long dircount;
static int64_t sim_ns; static uint64_t clk_state, rnd_state;
static long enospc_budget = -1; /* bytes that may still be written */
static long enospc_fired;
static int fake_pid;
#define MAXFD 4096
static char *fdpath[MAXFD];
static char fdwr[MAXFD];

static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }

/* ---- memory garbage ---- */
extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
static inline void fill(void *p, size_t n)
{
    uint64_t w = poison_word, *q = p; size_t k = n / 8;
    for (size_t i = 0; i < k; i++) q[i] = w;
    if (n & 7) memcpy((char *)p + k * 8, &w, n & 7);
}
EXPORT void *malloc(size_t n)
{
    void *p = __libc_malloc(n);
    if (__builtin_expect(poison, 0) && p && n >= 16) fill(p, n);
    return p;
}

/* ---- logging ---- */
static void addlog(const char *fmt, ...)
{
    char tmp[2600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(tmp, sizeof tmp, fmt, ap); va_end(ap);
    if (n > (int)sizeof tmp - 1) n = sizeof tmp - 1;
    if (lglen + n + 1 > lgcap) { size_t c = (lgcap ? lgcap * 2 : 1 << 16) + n; char *b = __libc_malloc(c); if (lg) { memcpy(b, lg, lglen); free(lg); } lg = b; lgcap = c; }
    memcpy(lg + lglen, tmp, n); lglen += n; lg[lglen] = 0;
}
static void rawwrite(int fd, const void *b, size_t n) { const char *p = b; while (n) { long r = syscall(SYS_write, fd, p, n); if (r <= 0) return; p += r; n -= r; } }
static void dumplog(void) { if (logfd >= 0 && lg) rawwrite(logfd, lg, lglen); }
static void crash_now(void) { dumplog(); syscall(SYS_exit_group, 137); }

/* ---- journal ---- */
static void journal(int type, const char *p1, const char *p2, int64_t off, const void *data, uint64_t len)
{
    if (jfd < 0) return;
    struct { int32_t type, l1, l2, pad; int64_t seq, off, len; } h = { type, (int)strlen(p1), p2 ? (int)strlen(p2) : 0, data ? 1 : 0, seq, off, (int64_t)len };
    rawwrite(jfd, &h, sizeof h); rawwrite(jfd, p1, h.l1); if (p2) rawwrite(jfd, p2, h.l2); if (data) rawwrite(jfd, data, len);
}

/* ---- paths ---- */
static int norm(int dirfd, const char *p, char *out, size_t cap)
{
    char tmp[4096];
    if (!p) return 0;
    if (p[0] == '/') { if (strlen(p) >= sizeof tmp) return 0; strcpy(tmp, p); }
    else {
        if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, tmp, sizeof tmp - 2) < 0) return 0; }
        else if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) strcpy(tmp, fdpath[dirfd]);
        else return 0;
        size_t l = strlen(tmp); if (l + strlen(p) + 2 >= sizeof tmp) return 0;
        tmp[l] = '/'; strcpy(tmp + l + 1, p);
    }
    /* lexical normalisation */
    size_t o = 0; char *s = tmp; out[0] = 0;
    while (*s) {
        while (*s == '/') s++;
        if (!*s) break;
        char *e = s; while (*e && *e != '/') e++;
        size_t n = e - s;
        if (n == 1 && s[0] == '.') { }
        else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o && out[o - 1] != '/') o--; if (o) o--; out[o] = 0; }
        else { if (o + n + 2 >= cap) return 0; out[o++] = '/'; memcpy(out + o, s, n); o += n; out[o] = 0; }
        s = e;
    }
    if (!o) strcpy(out, "/");
    return 1;
}
static int scope(int dirfd, const char *p, char *out)
{
    if (!armed) return 0;
    int e = errno; int ok = norm(dirfd, p, out, 4096) && strncmp(out, root, rootlen) == 0 && (out[rootlen] == '/' || out[rootlen] == 0);
    errno = e; return ok;
}
static const char *rel(const char *p) { return p[rootlen] ? p + rootlen + 1 : "."; }
static const char *cname(int c)
{
    switch (c) { case C_OPENR: return "openr"; case C_OPENW: return "openw"; case C_READ: return "read"; case C_WRITE: return "write";
    case C_TRUNC: return "trunc"; case C_CLOSE: return "close"; case C_RENAME: return "rename"; case C_UNLINK: return "unlink";
    case C_MKDIR: return "mkdir"; case C_FSYNC: return "fsync"; case C_OPENDIR: return "opendir"; case C_STAT: return "stat"; case C_FLOCK: return "flock"; }
    return "?";
}

/* one seam for all operations: returns the action to apply, 0 = none */
static int seam(int cls, const char *path, long *arg)
{
    int e = errno; seq++;
    if (seq > 400000) { addlog("%ld livelock\n", seq); crash_now(); }
    if (gate_w >= 0) {
        char b[2] = { 'r', 0 }; rawwrite(gate_w, b, 1);
        char c; long r; do r = syscall(SYS_read, gate_r, &c, 1); while (r < 0 && errno == EINTR);
        if (r != 1 || c == 'k') crash_now();
    }
    int act = 0;
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if (!(r->mask & cls)) continue;
        if (r->sub[0] && !strstr(rel(path), r->sub)) continue;
        r->seen++;
        if (r->seen >= r->nth && (r->count < 0 || r->seen < r->nth + r->count) && !act) { act = r->act; *arg = r->arg; r->fired++; }
    }
    addlog("%ld %s %s", seq, cname(cls), rel(path));
    if (act) addlog(" FAULT:%d:%ld", act, *arg);
    if (act == A_CRASH_BEFORE) { addlog(" crash\n"); crash_now(); }
    errno = e;
    return act;
}
static void done(long ret, long a, long b, int act)
{
    int e = errno; addlog(" %ld %ld -> %ld%s%s\n", a, b, ret, ret < 0 ? " errno=" : "", ret < 0 ? strerrorname_np(errno) : "");
    if (act == A_CRASH_AFTER || act == A_TORN_CRASH) crash_now();
    errno = e;
}

/* ---- open/close ---- */
static int open_common(int dirfd, const char *p, int flags, mode_t mode)
{
    char out[4096];
    if (!scope(dirfd, p, out)) return syscall(SYS_openat, dirfd, p, flags, mode);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    long arg = 0; int act = seam(wr ? C_OPENW : (flags & O_DIRECTORY) ? C_OPENDIR : C_OPENR, out, &arg);
    int fd;
    if (act == A_ERR || act == A_TORN_ERR || act == A_EINTR) { errno = act == A_EINTR ? EINTR : (int)arg; fd = -1; }
    else {
        int existed = 1;
        if (flags & O_CREAT) { struct stat st; existed = syscall(SYS_newfstatat, AT_FDCWD, out, &st, 0) == 0; }
        fd = syscall(SYS_openat, dirfd, p, flags, mode);
        if (fd >= 0 && fd < MAXFD) {
            int e = errno; if (fdpath[fd]) free(fdpath[fd]); fdpath[fd] = strdup(out); fdwr[fd] = wr; errno = e;
            if (!existed) journal(J_CREATE, rel(out), 0, 0, 0, 0);
            else if (flags & O_TRUNC) journal(J_TRUNC, rel(out), 0, 0, 0, 0);
        }
    }
    done(fd < 0 ? -1 : 0, (flags & O_TRUNC) ? 1 : 0, (flags & O_CREAT) ? 1 : 0, act);
    return fd;
}
#define GETMODE() mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
EXPORT int open(const char *p, int flags, ...) { GETMODE(); return open_common(AT_FDCWD, p, flags, m); }
EXPORT int open64(const char *p, int flags, ...) { GETMODE(); return open_common(AT_FDCWD, p, flags, m); }
EXPORT int openat(int d, const char *p, int flags, ...) { GETMODE(); return open_common(d, p, flags, m); }
EXPORT int openat64(int d, const char *p, int flags, ...) { GETMODE(); return open_common(d, p, flags, m); }
EXPORT int __open_2(const char *p, int flags) { return open_common(AT_FDCWD, p, flags, 0); }
EXPORT int __open64_2(const char *p, int flags) { return open_common(AT_FDCWD, p, flags, 0); }
EXPORT int creat(const char *p, mode_t m) { return open_common(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return open_common(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int close(int fd)
{
    if (!armed || fd < 0 || fd >= MAXFD || !fdpath[fd]) return syscall(SYS_close, fd);
    long arg = 0; int act = seam(C_CLOSE, fdpath[fd], &arg);
    int r = syscall(SYS_close, fd);
    if (act == A_ERR) { errno = (int)arg; r = -1; }
    done(r, 0, 0, act);
    int e = errno; free(fdpath[fd]); fdpath[fd] = 0; errno = e;
    return r;
}
EXPORT int dup(int fd)
{
    int n = syscall(SYS_dup, fd);
    if (armed && n >= 0 && n < MAXFD && fd >= 0 && fd < MAXFD && fdpath[fd]) { if (fdpath[n]) free(fdpath[n]); fdpath[n] = strdup(fdpath[fd]); fdwr[n] = fdwr[fd]; }
    return n;
}

/* ---- read/write ---- */
static ssize_t rd(int fd, void *b, size_t n, off_t off, int pos)
{
    if (!armed || fd < 0 || fd >= MAXFD || !fdpath[fd]) return pos ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n);
    long arg = 0; int act = seam(C_READ, fdpath[fd], &arg);
    ssize_t r;
    if (act == A_ERR) { errno = (int)arg; r = -1; }
    else if (act == A_EINTR) { errno = EINTR; r = -1; }
    else {
        size_t want = n;
        if (act == A_SHORT && n > 1) { want = (size_t)((double)n * arg / 100.0); if (want < 1) want = 1; if (want >= n) want = n - 1; }
        r = pos ? syscall(SYS_pread64, fd, b, want, off) : syscall(SYS_read, fd, b, want);
    }
    done(r, pos ? (long)off : -1, (long)n, act);
    return r;
}
EXPORT ssize_t read(int fd, void *b, size_t n) { return rd(fd, b, n, 0, 0); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return rd(fd, b, n, o, 1); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return rd(fd, b, n, o, 1); }
EXPORT ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return rd(fd, b, n, 0, 0); }
EXPORT ssize_t __pread64_chk(int fd, void *b, size_t n, off64_t o, size_t bl) { (void)bl; return rd(fd, b, n, o, 1); }
EXPORT ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t bl) { (void)bl; return rd(fd, b, n, o, 1); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c)
{
    if (!armed || fd < 0 || fd >= MAXFD || !fdpath[fd]) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return rd(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
static ssize_t wr_(int fd, const void *b, size_t n, off_t off, int pos)
{
    if (!armed || fd < 0 || fd >= MAXFD || !fdpath[fd]) return pos ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
    long arg = 0; int act = seam(C_WRITE, fdpath[fd], &arg);
    ssize_t r; size_t want = n; int fail = 0;
    if (act == A_ERR) { want = 0; fail = (int)arg; }
    else if (act == A_EINTR) { want = 0; fail = EINTR; }
    else if (act == A_SHORT || act == A_TORN_CRASH || act == A_TORN_ERR) {
        want = (size_t)((double)n * (arg % 1000) / 100.0); if (want >= n) want = n ? n - 1 : 0;
        if (act == A_SHORT && want < 1) want = n ? 1 : 0;
        if (act == A_TORN_ERR) fail = (int)(arg / 1000);
    }
    if (enospc_budget >= 0) {
        if ((long)want > enospc_budget) { want = enospc_budget; enospc_fired++; if (want == 0) fail = ENOSPC; }
    }
    if (want == 0 && (fail || act == A_TORN_CRASH)) { r = -1; errno = fail ? fail : EIO; }
    else {
        if (!pos) off = syscall(SYS_lseek, fd, 0, SEEK_CUR);
        { int fl = syscall(SYS_fcntl, fd, F_GETFL); if (fl & O_APPEND) { struct stat st; if (fstat(fd, &st) == 0) off = st.st_size; } }
        r = pos ? syscall(SYS_pwrite64, fd, b, want, off) : syscall(SYS_write, fd, b, want);
        if (r > 0) { journal(J_WRITE, rel(fdpath[fd]), 0, off, b, r); if (enospc_budget >= 0) enospc_budget -= r; }
        if (fail) { r = -1; errno = fail; }
    }
    done(r, pos ? (long)off : -1, (long)n, act);
    return r;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) { return wr_(fd, b, n, 0, 0); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return wr_(fd, b, n, o, 1); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return wr_(fd, b, n, o, 1); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!armed || fd < 0 || fd >= MAXFD || !fdpath[fd]) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return wr_(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
EXPORT ssize_t sendfile(int o, int i, off_t *off, size_t n) { if (armed && ((o >= 0 && o < MAXFD && fdpath[o]) || (i >= 0 && i < MAXFD && fdpath[i]))) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
EXPORT ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, (off_t *)off, n); }
EXPORT ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { if (armed && ((o >= 0 && o < MAXFD && fdpath[o]) || (i >= 0 && i < MAXFD && fdpath[i]))) { errno = EXDEV; return -1; } return syscall(SYS_copy_file_range, i, io, o, oo, n, f); }
static int trunc_(int fd, off_t len)
{
    if (!armed || fd < 0 || fd >= MAXFD || !fdpath[fd]) return syscall(SYS_ftruncate, fd, len);
    long arg = 0; int act = seam(C_TRUNC, fdpath[fd], &arg); int r;
    if (act == A_ERR) { errno = (int)arg; r = -1; }
    else {
        if (enospc_budget >= 0) { struct stat st; if (fstat(fd, &st) == 0 && len > st.st_size && enospc_budget == 0) { } }
        r = syscall(SYS_ftruncate, fd, len); if (r == 0) journal(J_TRUNC, rel(fdpath[fd]), 0, len, 0, 0);
    }
    done(r, (long)len, 0, act);
    return r;
}
EXPORT int ftruncate(int fd, off_t l) { return trunc_(fd, l); }
EXPORT int ftruncate64(int fd, off64_t l) { return trunc_(fd, l); }
EXPORT int truncate(const char *p, off_t l)
{
    char out[4096]; if (!scope(AT_FDCWD, p, out)) return syscall(SYS_truncate, p, l);
    long arg = 0; int act = seam(C_TRUNC, out, &arg); int r;
    if (act == A_ERR) { errno = (int)arg; r = -1; } else { r = syscall(SYS_truncate, p, l); if (r == 0) journal(J_TRUNC, rel(out), 0, l, 0, 0); }
    done(r, (long)l, 0, act); return r;
}
EXPORT int truncate64(const char *p, off64_t l) { return truncate(p, l); }
static int sync_(int fd, int nr)
{
    if (!armed || fd < 0 || fd >= MAXFD || !fdpath[fd]) return syscall(nr, fd);
    long arg = 0; int act = seam(C_FSYNC, fdpath[fd], &arg); int r = 0;
    if (act == A_ERR) { errno = (int)arg; r = -1; } else journal(J_FSYNC, rel(fdpath[fd]), 0, 0, 0, 0);
    done(r, 0, 0, act); return r;
}
EXPORT int fsync(int fd) { return sync_(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return sync_(fd, SYS_fdatasync); }
EXPORT int flock(int fd, int op)
{
    if (!armed || fd < 0 || fd >= MAXFD || !fdpath[fd]) return syscall(SYS_flock, fd, op);
    long arg = 0; int act = seam(C_FLOCK, fdpath[fd], &arg); int r;
    if (act == A_ERR) { errno = (int)arg; r = -1; } else r = syscall(SYS_flock, fd, op | LOCK_NB);
    done(r, op, 0, act); return r;
}

/* ---- names ---- */
static int rename_(int d1, const char *a, int d2, const char *b, unsigned fl)
{
    char o1[4096], o2[4096]; int s1 = scope(d1, a, o1), s2 = scope(d2, b, o2);
    if (!s1 && !s2) return syscall(SYS_renameat2, d1, a, d2, b, fl);
    long arg = 0; int act = seam(C_RENAME, s2 ? o2 : o1, &arg); int r;
    if (act == A_ERR || act == A_EINTR) { errno = act == A_EINTR ? EINTR : (int)arg; r = -1; }
    else {
        r = syscall(SYS_renameat2, d1, a, d2, b, fl);
        if (r == 0) {
            if (s1 && s2) journal(J_RENAME, rel(o1), rel(o2), 0, 0, 0);
            else if (s1) journal(J_UNLINK, rel(o1), 0, 0, 0, 0);
            else journal(J_CREATE, rel(o2), 0, 0, 0, 0);
        }
    }
    done(r, 0, 0, act); return r;
}
EXPORT int rename(const char *a, const char *b) { return rename_(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int renameat(int d1, const char *a, int d2, const char *b) { return rename_(d1, a, d2, b, 0); }
EXPORT int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return rename_(d1, a, d2, b, f); }
static int unlink_(int d, const char *p, int fl)
{
    char out[4096]; if (!scope(d, p, out)) return syscall(SYS_unlinkat, d, p, fl);
    long arg = 0; int act = seam(C_UNLINK, out, &arg); int r;
    if (act == A_ERR) { errno = (int)arg; r = -1; } else { r = syscall(SYS_unlinkat, d, p, fl); if (r == 0) journal((fl & AT_REMOVEDIR) ? J_RMDIR : J_UNLINK, rel(out), 0, 0, 0, 0); }
    done(r, fl, 0, act); return r;
}
EXPORT int unlink(const char *p) { return unlink_(AT_FDCWD, p, 0); }
EXPORT int unlinkat(int d, const char *p, int f) { return unlink_(d, p, f); }
EXPORT int rmdir(const char *p) { return unlink_(AT_FDCWD, p, AT_REMOVEDIR); }
EXPORT int remove(const char *p) { int r = unlink_(AT_FDCWD, p, 0); if (r < 0 && errno == EISDIR) r = unlink_(AT_FDCWD, p, AT_REMOVEDIR); return r; }
static int mkdir_(int d, const char *p, mode_t m)
{
    char out[4096]; if (!scope(d, p, out)) return syscall(SYS_mkdirat, d, p, m);
    long arg = 0; int act = seam(C_MKDIR, out, &arg); int r;
    if (act == A_ERR) { errno = (int)arg; r = -1; } else { r = syscall(SYS_mkdirat, d, p, m); if (r == 0) journal(J_MKDIR, rel(out), 0, 0, 0, 0); }
    done(r, 0, 0, act); return r;
}
EXPORT int mkdir(const char *p, mode_t m) { return mkdir_(AT_FDCWD, p, m); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { return mkdir_(d, p, m); }
static int stat_(int d, const char *p, struct stat *st, int fl)
{
    char out[4096];
    if (!p || !p[0] || !scope(d, p, out)) return syscall(SYS_newfstatat, d, p, st, fl);
    long arg = 0; int act = seam(C_STAT, out, &arg); int r;
    if (act == A_ERR) { errno = (int)arg; r = -1; } else r = syscall(SYS_newfstatat, d, p, st, fl);
    done(r, 0, 0, act); return r;
}
EXPORT int stat(const char *restrict p, struct stat *restrict st) { return stat_(AT_FDCWD, p, st, 0); }
EXPORT int stat64(const char *restrict p, struct stat64 *restrict st) { return stat_(AT_FDCWD, p, (struct stat *)st, 0); }
EXPORT int lstat(const char *restrict p, struct stat *restrict st) { return stat_(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
EXPORT int lstat64(const char *restrict p, struct stat64 *restrict st) { return stat_(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
EXPORT int fstatat(int d, const char *restrict p, struct stat *restrict st, int f) { return stat_(d, p, st, f); }
EXPORT int fstatat64(int d, const char *restrict p, struct stat64 *restrict st, int f) { return stat_(d, p, (struct stat *)st, f); }
EXPORT int access(const char *p, int m)
{
    char out[4096]; if (!scope(AT_FDCWD, p, out)) return syscall(SYS_faccessat, AT_FDCWD, p, m);
    long arg = 0; int act = seam(C_STAT, out, &arg); int r;
    if (act == A_ERR) { errno = (int)arg; r = -1; } else r = syscall(SYS_faccessat, AT_FDCWD, p, m);
    done(r, 0, 0, act); return r;
}

/* ---- directory listings in seeded order ---- */
struct dl { DIR *d; struct dirent64 **e; int n, i; };
static struct dl dls[256];
static int cmpent(const void *a, const void *b) { return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name); }
static DIR *register_dir(DIR *d, const char *out)
{
    (void)out;
    if (!d) return d;
    for (int k = 0; k < 256; k++) if (!dls[k].d) {
        struct dl *l = &dls[k]; l->d = d; l->n = l->i = 0; l->e = 0; int cap = 0; struct dirent64 *x;
        while ((x = REAL(readdir64)(d))) {
            if (l->n == cap) { cap = cap ? cap * 2 : 64; l->e = __libc_realloc(l->e, cap * sizeof *l->e); }
            struct dirent64 *c = __libc_malloc(x->d_reclen < sizeof *x ? sizeof *x : x->d_reclen); memcpy(c, x, x->d_reclen); l->e[l->n++] = c;
        }
        if (l->n > 1) qsort(l->e, l->n, sizeof *l->e, cmpent);
        if (shuffle_dirs) {
            uint64_t s = mix(seed0 ^ (uint64_t)(++dircount) * 0x51ed27ULL);
            for (int i = l->n - 1; i > 0; i--) { s = mix(s); int j = s % (i + 1); struct dirent64 *t = l->e[i]; l->e[i] = l->e[j]; l->e[j] = t; }
        }
        break;
    }
    return d;
}
EXPORT DIR *opendir(const char *p)
{
    char out[4096]; if (!scope(AT_FDCWD, p, out)) return REAL(opendir)(p);
    long arg = 0; int act = seam(C_OPENDIR, out, &arg); DIR *d = 0;
    if (act == A_ERR) errno = (int)arg; else d = REAL(opendir)(p);
    done(d ? 0 : -1, 0, 0, act);
    return register_dir(d, out);
}
EXPORT DIR *fdopendir(int fd)
{
    DIR *d = REAL(fdopendir)(fd);
    if (armed && fd >= 0 && fd < MAXFD && fdpath[fd]) return register_dir(d, fdpath[fd]);
    return d;
}
EXPORT struct dirent64 *readdir64(DIR *d)
{
    for (int k = 0; k < 256; k++) if (dls[k].d == d) return dls[k].i < dls[k].n ? dls[k].e[dls[k].i++] : 0;
    return REAL(readdir64)(d);
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT void rewinddir(DIR *d) { for (int k = 0; k < 256; k++) if (dls[k].d == d) dls[k].i = 0; REAL(rewinddir)(d); }
EXPORT int closedir(DIR *d)
{
    for (int k = 0; k < 256; k++) if (dls[k].d == d) { for (int i = 0; i < dls[k].n; i++) free(dls[k].e[i]); free(dls[k].e); memset(&dls[k], 0, sizeof dls[k]); }
    int fd = dirfd(d); if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; }
    return REAL(closedir)(d);
}

/* ---- clock, randomness, identity ---- */
static int64_t tick(void) { clk_state = mix(clk_state); sim_ns += 1000 + clk_state % 1000000; if (clk_state % 97 == 0) sim_ns += (int64_t)((clk_state >> 8) % 7200) * 1000000000LL; return sim_ns; }
static int64_t skew(void) { return ((clk_state >> 20) % 61 == 0) ? -(int64_t)((clk_state >> 30) % 3600) * 1000000000LL : 0; }
EXPORT int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!armed || !fake_clock || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return syscall(SYS_clock_gettime, c, ts);
    int64_t t = tick(); if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) t += 1700000000LL * 1000000000LL + skew();
    ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL; return 0;
}
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    (void)tz; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return 0;
}
EXPORT time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f)
{
    if (!armed) return syscall(SYS_getrandom, b, n, f);
    for (size_t i = 0; i < n; i++) { rnd_state = mix(rnd_state); ((unsigned char *)b)[i] = rnd_state >> 11; } return n;
}
EXPORT pid_t getpid(void) { return armed && fake_pid ? fake_pid : (pid_t)syscall(SYS_getpid); }

/* ---- control ---- */
EXPORT void simio_rule(int mask, const char *sub, int nth, int count, int act, long arg)
{
    struct rule *r = &rules[nrules++]; memset(r, 0, sizeof *r); r->mask = mask; r->nth = nth; r->count = count; r->act = act; r->arg = arg; strncpy(r->sub, sub, sizeof r->sub - 1);
}
EXPORT int simio_fired(int i) { return i < nrules ? rules[i].fired : -1; }
EXPORT long simio_enospc_fired(void) { return enospc_fired; }
EXPORT void simio_arm(const char *r, uint64_t seed, int flags, int journal_fd, int log_fd, long budget, int pid)
{
    strncpy(root, r, sizeof root - 1); rootlen = strlen(root); seed0 = seed; jfd = journal_fd; logfd = log_fd;
    shuffle_dirs = flags & 1; fake_clock = (flags >> 1) & 1;
    clk_state = mix(seed ^ 11); rnd_state = mix(seed ^ 12); enospc_budget = budget; fake_pid = pid; seq = 0; dircount = 0; armed = 1;
    if (flags & 4) { poison_word = mix(seed ^ 13); if ((mix(seed ^ 14) & 3) == 0) poison_word = 0x7ff8dead00000000ULL | (poison_word & 0xffff); poison = 1; }
}
EXPORT void simio_gate(int w, int r) { gate_w = w; gate_r = r; }
EXPORT void simio_disarm(void) { armed = 0; poison = 0; }
EXPORT long simio_seq(void) { return seq; }
EXPORT int64_t simio_simtime(void) { return sim_ns; }
EXPORT const char *simio_log(void) { return lg ? lg : ""; }
EXPORT int simio_present(void) { return 1; }
