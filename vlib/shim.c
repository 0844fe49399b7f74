/* LD_PRELOAD shim: observes, delays, gates, fails or kills at every file-system
 * mutation below one root directory.  Controlled from Python through ctypes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXEV 65536
enum { OP_OPEN = 1, OP_WRITE, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_RMDIR, OP_CHMOD, OP_TRUNC,
       OP_LINK, OP_SYNC, OP_UTIME, OP_ROPEN, OP_OPENDIR, OP_MAP, OP_STAT };
static const char *opname[] = { "?", "open", "write", "close", "rename", "unlink", "mkdir", "rmdir", "chmod",
                                "truncate", "link", "sync", "utime", "ropen", "opendir", "map", "stat" };
enum { M_OFF = 0, M_COUNT, M_KILL_BEFORE, M_KILL_AFTER, M_KILL_MID, M_FAIL, M_SHORT, M_FAIL_FROM, M_ALL_SHORT };

struct ev { int op, ret, err, tid; int64_t ts, size; char path[200], path2[200]; };
static struct ev *evs;
static volatile int nev;
static char root[PATH_MAX];
static size_t rootlen;
static unsigned char fdmark[MAXFD];
static char (*fdpath)[200];
static volatile int mode, target, count, ferrno, opmask, hits, see_ropen;
static unsigned delay_max, delay_state;
/* gate: shared schedule */
struct gate { volatile int pos, len, nproc; volatile int done[16]; volatile int waiting[16]; volatile int timeouts; unsigned char who[8192]; };
static struct gate *gate;
static int gate_id_global = -1;
static __thread int gate_id_thread = -1;
static __thread int busy;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int64_t now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }

static int absolutize(int dirfd, const char *p, char *out) {
    if (!p) return 0;
    if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); return 1; }
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
    else {
        char lk[64]; snprintf(lk, sizeof lk, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(lk, base, sizeof base - 1); if (n < 0) return 0; base[n] = 0;
    }
    snprintf(out, PATH_MAX, "%s/%s", base, p);
    return 1;
}
static int under(const char *abs) {
    return rootlen && strncmp(abs, root, rootlen) == 0 && (abs[rootlen] == '/' || abs[rootlen] == 0);
}
static int watched(int dirfd, const char *p, char *abs) {
    if (mode == M_OFF || busy || !rootlen) return 0;
    return absolutize(dirfd, p, abs) && under(abs);
}
static int watched_fd(int fd) { return mode != M_OFF && !busy && fd >= 0 && fd < MAXFD && fdmark[fd]; }

static void die(void) { syscall(SYS_exit_group, 77); }

/* returns event slot; *act: 0 normal, 1 fail with ferrno, 2 short; */
static struct ev *begin(int op, const char *p1, const char *p2, int64_t size, int *act) {
    *act = 0;
    int gid = gate_id_thread >= 0 ? gate_id_thread : gate_id_global;
    if (gate && gid >= 0) {
        int spins = 0;
        gate->waiting[gid] = 1;
        for (;;) {
            int pos = gate->pos;
            if (pos >= gate->len) break;
            int w = gate->who[pos];
            if (w == gid) break;
            if (gate->done[w]) { __sync_bool_compare_and_swap(&gate->pos, pos, pos + 1); continue; }
            usleep(20);
            if (++spins > 200000) { __sync_fetch_and_add(&gate->timeouts, 1); break; }
        }
        gate->waiting[gid] = 0;
    } else if (delay_max) {
        delay_state = delay_state * 1103515245u + 12345u + (unsigned)(uintptr_t)&gid;
        unsigned d = (delay_state >> 8) % (delay_max + 1);
        if (d) usleep(d);
    }
    pthread_mutex_lock(&mu);
    struct ev *e = NULL;
    if (evs && nev < MAXEV) {
        e = &evs[nev++];
        e->op = op; e->size = size; e->tid = gid; e->ret = 0; e->err = 0;
        snprintf(e->path, sizeof e->path, "%s", p1 ? p1 : "");
        snprintf(e->path2, sizeof e->path2, "%s", p2 ? p2 : "");
        e->ts = now();
    }
    int sel = opmask == 0 || (opmask >> op) & 1;
    if (op >= OP_ROPEN && !((opmask >> op) & 1)) sel = 0;
    int c = 0;
    if (sel) c = ++count;
    pthread_mutex_unlock(&mu);
    if (sel) {
        if (mode == M_KILL_BEFORE && c == target) die();
        if (mode == M_FAIL && c == target) { *act = 1; hits++; }
        if (mode == M_FAIL_FROM && c >= target) { *act = 1; hits++; }
        if (mode == M_SHORT && c == target && op == OP_WRITE && size > 1) { *act = 2; hits++; }
        if (mode == M_ALL_SHORT && op == OP_WRITE && size > 1) { *act = 2; hits++; }
        if (mode == M_KILL_MID && c == target) *act = 3;
        if (mode == M_KILL_AFTER && c == target) *act = 4;
    }
    return e;
}
static void end(struct ev *e, int ret, int act) {
    int er = errno;
    if (e) { e->ret = ret; e->err = ret < 0 ? er : 0; }
    if (act == 4 || act == 3) die();
    int gid = gate_id_thread >= 0 ? gate_id_thread : gate_id_global;
    if (gate && gid >= 0 && gate->pos < gate->len && gate->who[gate->pos] == gid)
        __sync_fetch_and_add(&gate->pos, 1);
    errno = er;
}

/* ---- control ---- */
void shim_init(void) {
    if (!evs) evs = calloc(MAXEV, sizeof *evs);
    if (!fdpath) fdpath = calloc(MAXFD, 200);
}
void shim_set_root(const char *p) { snprintf(root, sizeof root, "%s", p); rootlen = strlen(root); while (rootlen > 1 && root[rootlen-1] == '/') root[--rootlen] = 0; }
void shim_arm(int m, int n, int err, int mask) { mode = M_OFF; target = n; ferrno = err; opmask = mask; count = 0; hits = 0; nev = 0; mode = m; }
void shim_disarm(void) { mode = M_OFF; }
int shim_count(void) { return count; }
int shim_hits(void) { return hits; }
int shim_nev(void) { return nev; }
void shim_see_ropen(int v) { see_ropen = v; }
void shim_delay(unsigned max_us, unsigned seed) { delay_max = max_us; delay_state = seed; }
void shim_gate(void *g, int id) { gate = g; gate_id_global = id; }
void shim_gate_thread(int id) { gate_id_thread = id; }
void shim_gate_done(int id) { if (gate && id >= 0) gate->done[id] = 1; }
int shim_event(int i, char *out, int n) {
    if (i < 0 || i >= nev) return 0;
    struct ev *e = &evs[i];
    snprintf(out, n, "%s\t%d\t%d\t%d\t%lld\t%lld\t%s\t%s", opname[e->op], e->ret, e->err, e->tid, (long long)e->ts, (long long)e->size, e->path, e->path2);
    return 1;
}

/* ---- interposed calls ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t m) {
    char abs[PATH_MAX]; int act; struct ev *e;
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
#ifdef O_TMPFILE
    if ((flags & O_TMPFILE) == O_TMPFILE) wr = 1;
#endif
    if ((!wr && !see_ropen) || !watched(dirfd, path, abs)) return syscall(SYS_openat, dirfd, path, flags | O_LARGEFILE, m);
    e = begin(wr ? OP_OPEN : OP_ROPEN, abs, NULL, flags, &act);
    if (act == 1) { errno = ferrno; end(e, -1, act); return -1; }
    int r = syscall(SYS_openat, dirfd, path, flags | O_LARGEFILE, m);
    if (r >= 0 && r < MAXFD && wr) { fdmark[r] = 1; if (fdpath) snprintf(fdpath[r], 200, "%s", abs); }
    end(e, r, act);
    return r;
}
#define MODEARG mode_t m = 0; if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODEARG return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODEARG return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODEARG return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODEARG return do_open(d, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void *b, size_t n) {
    if (!watched_fd(fd)) return syscall(SYS_write, fd, b, n);
    int act; struct ev *e = begin(OP_WRITE, fdpath ? fdpath[fd] : "", NULL, n, &act);
    if (act == 1) { errno = ferrno; end(e, -1, act); return -1; }
    size_t k = (act == 2 || act == 3) ? (n + 1) / 2 : n;
    ssize_t r = syscall(SYS_write, fd, b, k);
    end(e, (int)r, act);
    return r;
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t o) {
    if (!watched_fd(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
    int act; struct ev *e = begin(OP_WRITE, fdpath ? fdpath[fd] : "", NULL, n, &act);
    if (act == 1) { errno = ferrno; end(e, -1, act); return -1; }
    size_t k = (act == 2 || act == 3) ? (n + 1) / 2 : n;
    ssize_t r = syscall(SYS_pwrite64, fd, b, k, o);
    end(e, (int)r, act);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!watched_fd(fd)) return syscall(SYS_writev, fd, v, c);
    int act; struct ev *e = begin(OP_WRITE, fdpath ? fdpath[fd] : "", NULL, c > 0 ? v[0].iov_len : 0, &act);
    if (act == 1) { errno = ferrno; end(e, -1, act); return -1; }
    ssize_t r;
    if (act == 2 || act == 3) r = syscall(SYS_write, fd, v[0].iov_base, (v[0].iov_len + 1) / 2);
    else r = syscall(SYS_writev, fd, v, c);
    end(e, (int)r, act);
    return r;
}
int close(int fd) {
    if (!watched_fd(fd)) { if (fd >= 0 && fd < MAXFD) fdmark[fd] = 0; return syscall(SYS_close, fd); }
    int act; struct ev *e = begin(OP_CLOSE, fdpath ? fdpath[fd] : "", NULL, fd, &act);
    fdmark[fd] = 0;
    int r = syscall(SYS_close, fd);          /* like Linux: closed even when an error is reported */
    if (act == 1) { errno = ferrno; r = -1; }
    end(e, r, act);
    return r;
}
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
    char x[PATH_MAX], y[PATH_MAX]; int act;
    int w = watched(d1, a, x), w2 = watched(d2, b, y);
    if (!w && !w2) return syscall(SYS_renameat2, d1, a, d2, b, fl);
    struct ev *e = begin(OP_RENAME, x, y, 0, &act);
    if (act == 1) { errno = ferrno; end(e, -1, act); return -1; }
    if (act == 3) die();
    int r = syscall(SYS_renameat2, d1, a, d2, b, fl);
    end(e, r, act);
    return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }
static int do_link(int d1, const char *a, int d2, const char *b, int fl) {
    char x[PATH_MAX], y[PATH_MAX]; int act;
    int w = watched(d1, a, x), w2 = watched(d2, b, y);
    if (!w && !w2) return syscall(SYS_linkat, d1, a, d2, b, fl);
    struct ev *e = begin(OP_LINK, x, y, 0, &act);
    if (act == 1) { errno = ferrno; end(e, -1, act); return -1; }
    if (act == 3) die();
    int r = syscall(SYS_linkat, d1, a, d2, b, fl);
    end(e, r, act);
    return r;
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { return do_link(d1, a, d2, b, f); }
int symlink(const char *t, const char *p) {
    char x[PATH_MAX]; int act;
    if (!watched(AT_FDCWD, p, x)) return syscall(SYS_symlinkat, t, AT_FDCWD, p);
    struct ev *e = begin(OP_LINK, t, x, 0, &act);
    if (act == 1) { errno = ferrno; end(e, -1, act); return -1; }
    if (act == 3) die();
    int r = syscall(SYS_symlinkat, t, AT_FDCWD, p);
    end(e, r, act);
    return r;
}
#define PATHOP(OPC, DFD, P, CALL) { \
    char x[PATH_MAX]; int act; \
    if (!watched(DFD, P, x)) return CALL; \
    struct ev *e = begin(OPC, x, NULL, 0, &act); \
    if (act == 1) { errno = ferrno; end(e, -1, act); return -1; } \
    if (act == 3) die(); \
    int r = CALL; \
    end(e, r, act); \
    return r; }
int unlink(const char *p) PATHOP(OP_UNLINK, AT_FDCWD, p, syscall(SYS_unlinkat, AT_FDCWD, p, 0))
int unlinkat(int d, const char *p, int f) PATHOP((f & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, d, p, syscall(SYS_unlinkat, d, p, f))
int rmdir(const char *p) PATHOP(OP_RMDIR, AT_FDCWD, p, syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR))
int mkdir(const char *p, mode_t m) PATHOP(OP_MKDIR, AT_FDCWD, p, syscall(SYS_mkdirat, AT_FDCWD, p, m))
int mkdirat(int d, const char *p, mode_t m) PATHOP(OP_MKDIR, d, p, syscall(SYS_mkdirat, d, p, m))
int chmod(const char *p, mode_t m) PATHOP(OP_CHMOD, AT_FDCWD, p, syscall(SYS_fchmodat, AT_FDCWD, p, m))
int fchmodat(int d, const char *p, mode_t m, int f) PATHOP(OP_CHMOD, d, p, syscall(SYS_fchmodat, d, p, m))
int truncate(const char *p, off_t n) PATHOP(OP_TRUNC, AT_FDCWD, p, syscall(SYS_truncate, p, n))
int truncate64(const char *p, off64_t n) PATHOP(OP_TRUNC, AT_FDCWD, p, syscall(SYS_truncate, p, n))
int utimensat(int d, const char *p, const struct timespec t[2], int f) {
    if (!p) return syscall(SYS_utimensat, d, p, t, f);
    PATHOP(OP_UTIME, d, p, syscall(SYS_utimensat, d, p, t, f))
}
#define FDOP(OPC, CALL) { \
    if (!watched_fd(fd)) return CALL; \
    int act; struct ev *e = begin(OPC, fdpath ? fdpath[fd] : "", NULL, 0, &act); \
    if (act == 1) { errno = ferrno; end(e, -1, act); return -1; } \
    if (act == 3) die(); \
    int r = CALL; \
    end(e, r, act); \
    return r; }
int fchmod(int fd, mode_t m) FDOP(OP_CHMOD, syscall(SYS_fchmod, fd, m))
int ftruncate(int fd, off_t n) FDOP(OP_TRUNC, syscall(SYS_ftruncate, fd, n))
int ftruncate64(int fd, off64_t n) FDOP(OP_TRUNC, syscall(SYS_ftruncate, fd, n))
int fsync(int fd) FDOP(OP_SYNC, syscall(SYS_fsync, fd))
int fdatasync(int fd) FDOP(OP_SYNC, syscall(SYS_fdatasync, fd))

/* ---- reading (only if asked for) ---- */
DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *);
    char abs[PATH_MAX]; int act; struct ev *e;
    if (see_ropen < 2 || !watched(AT_FDCWD, p, abs)) return real_opendir(p);
    e = begin(OP_OPENDIR, abs, NULL, 0, &act);
    if (act == 1) { errno = ferrno; end(e, -1, act); return NULL; }
    DIR *r = real_opendir(p);
    end(e, r ? 0 : -1, act);
    return r;
}
static int do_stat(const char *p, struct stat *st) {
    char abs[PATH_MAX]; int act; struct ev *e;
    if (see_ropen < 3 || mode == M_OFF || busy || !watched(AT_FDCWD, p, abs)) return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
    e = begin(OP_STAT, abs, NULL, 0, &act);
    if (act == 1) { errno = ferrno; end(e, -1, act); return -1; }
    int r = syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
    end(e, r, act);
    return r;
}
int stat(const char *p, struct stat *st) { return do_stat(p, st); }
int stat64(const char *p, struct stat64 *st) { return do_stat(p, (struct stat *)st); }
static void *do_mmap(void *a, size_t n, int prot, int flags, int fd, off64_t off) {
    if (fd < 0 || see_ropen < 2 || mode == M_OFF || busy) return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off);
    char lk[64], abs[PATH_MAX]; int act; struct ev *e;
    snprintf(lk, sizeof lk, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(lk, abs, sizeof abs - 1); if (l < 0) l = 0; abs[l] = 0;
    if (!under(abs)) return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off);
    e = begin(OP_MAP, abs, NULL, n, &act);
    if (act == 1) { errno = ferrno; end(e, -1, act); return MAP_FAILED; }
    void *r = (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off);
    end(e, r == MAP_FAILED ? -1 : 0, act);
    return r;
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) { return do_mmap(a, n, prot, flags, fd, off); }
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t off) { return do_mmap(a, n, prot, flags, fd, off); }
