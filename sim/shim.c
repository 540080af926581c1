/* libc seam of the simulator.
 *
 * Preloaded into the simulated process.  Every file operation on a path below
 * one scratch directory ("the simulated disk") is announced to the simulator
 * (a Python callback) before it happens; the answer decides whether it
 * happens, fails with an errno, or is cut short.  CLOCK_REALTIME is virtual
 * while switched on.  Everything else goes straight to libc.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_FSYNC, OP_RENAME, OP_UNLINK,
       OP_MKDIR, OP_RMDIR, OP_STAT, OP_OPENDIR, OP_TRUNC, OP_LINK, OP_CHMOD };

/* ret: 0 go on; <0 fail with errno -ret; >0 (read/write only) at most that many
 * bytes; for OP_OPENDIR >0 is the seed of the listing order */
typedef long (*sim_cb)(int op, const char *path, const char *path2, int fd, long arg);

static sim_cb cb;
static char root[PATH_MAX];
static size_t root_len;
static int active;
static __thread int busy;
#define MAXFD 4096
static char *fdpath[MAXFD];

static int time_on;
static long long time_ns, time_tick;
static long time_reads;

void sim_init(const char *r, sim_cb f) {
    strncpy(root, r, sizeof root - 1);
    root_len = strlen(root);
    cb = f;
}
void sim_active(int on) { active = on; }
void sim_time(int on, long long ns, long long tick) { time_on = on; time_ns = ns; time_tick = tick; }
long long sim_time_now(void) { return time_ns; }
long sim_time_reads(void) { return time_reads; }

static void *sym(const char *n) { return dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))sym(name)

static int under(const char *p) {
    return root_len && strncmp(p, root, root_len) == 0 && (p[root_len] == '/' || p[root_len] == 0);
}
/* absolute form of path if it is on the simulated disk, else NULL */
static const char *simpath(int dfd, const char *p, char *buf) {
    if (!p || !active || busy || !cb) return NULL;
    if (p[0] == '/') {
        if (!under(p)) return NULL;
        strncpy(buf, p, PATH_MAX - 1); buf[PATH_MAX - 1] = 0;
        return buf;
    }
    char cwd[PATH_MAX];
    if (dfd == AT_FDCWD) {
        if (!getcwd(cwd, sizeof cwd)) return NULL;
    } else {
        if (dfd < 0 || dfd >= MAXFD || !fdpath[dfd]) return NULL;
        strncpy(cwd, fdpath[dfd], sizeof cwd - 1); cwd[sizeof cwd - 1] = 0;
    }
    if (!under(cwd)) return NULL;
    snprintf(buf, PATH_MAX, "%s/%s", cwd, p);
    return buf;
}
static long ask(int op, const char *p, const char *p2, int fd, long arg) {
    busy = 1;
    long r = cb(op, p, p2, fd, arg);
    busy = 0;
    return r;
}
#define FAIL_IF(r) do { if ((r) < 0) { errno = (int)-(r); return -1; } } while (0)
#define FDSIM(fd) (active && !busy && cb && (fd) >= 0 && (fd) < MAXFD && fdpath[fd])

static void remember(int fd, const char *p) {
    if (fd >= 0 && fd < MAXFD) {
        free(fdpath[fd]);
        fdpath[fd] = strdup(p);
    }
}

static int do_open(int dfd, const char *p, int flags, mode_t mode) {
    REAL(int, "openat", int, const char *, int, ...);
    char buf[PATH_MAX];
    const char *s = simpath(dfd, p, buf);
    if (s) { long r = ask(OP_OPEN, s, NULL, -1, flags); FAIL_IF(r); }
    int fd = real(dfd, p, flags, mode);
    if (s && fd >= 0) remember(fd, s);
    else if (fd >= 0 && fd < MAXFD && fdpath[fd] && !busy) { free(fdpath[fd]); fdpath[fd] = NULL; }
    return fd;
}
#define MODE_ARG mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE_ARG return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE_ARG return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static FILE *do_fopen(const char *p, const char *m, const char *name) {
    FILE *(*real)(const char *, const char *) = sym(name);
    char buf[PATH_MAX];
    const char *s = simpath(AT_FDCWD, p, buf);
    if (s) {
        int fl = m[0] == 'r' && !strchr(m, '+') ? O_RDONLY : (m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_RDWR | O_CREAT);
        long r = ask(OP_OPEN, s, NULL, -1, fl);
        if (r < 0) { errno = (int)-r; return NULL; }
    }
    return real(p, m);
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m, "fopen64"); }

ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t);
    if (FDSIM(fd)) {
        long r = ask(OP_READ, fdpath[fd], NULL, fd, (long)n);
        FAIL_IF(r);
        if (r > 0 && (size_t)r < n) n = (size_t)r;
    }
    return real(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (FDSIM(fd)) {
        long r = ask(OP_WRITE, fdpath[fd], NULL, fd, (long)n);
        FAIL_IF(r);
        if (r > 0 && (size_t)r < n) n = (size_t)r;
    }
    return real(fd, b, n);
}
int close(int fd) {
    REAL(int, "close", int);
    long r = 0;
    if (FDSIM(fd)) r = ask(OP_CLOSE, fdpath[fd], NULL, fd, 0);
    if (fd >= 0 && fd < MAXFD && fdpath[fd] && !busy) { free(fdpath[fd]); fdpath[fd] = NULL; }
    int rc = real(fd);
    FAIL_IF(r);
    return rc;
}
#define FD1(name, op) int name(int fd) { REAL(int, #name, int); \
    if (FDSIM(fd)) { long r = ask(op, fdpath[fd], NULL, fd, 0); FAIL_IF(r); } return real(fd); }
FD1(fsync, OP_FSYNC)
FD1(fdatasync, OP_FSYNC)
#define TR(name, T) int name(int fd, T n) { REAL(int, #name, int, T); \
    if (FDSIM(fd)) { long r = ask(OP_TRUNC, fdpath[fd], NULL, fd, (long)n); FAIL_IF(r); } return real(fd, n); }
TR(ftruncate, off_t)
TR(ftruncate64, off64_t)
int truncate(const char *p, off_t n) {
    REAL(int, "truncate", const char *, off_t);
    char b[PATH_MAX]; const char *s = simpath(AT_FDCWD, p, b);
    if (s) { long r = ask(OP_TRUNC, s, NULL, -1, (long)n); FAIL_IF(r); }
    return real(p, n);
}

static int two(int op, int d1, const char *a, int d2, const char *b2) {
    char x[PATH_MAX], y[PATH_MAX];
    const char *s = simpath(d1, a, x), *t = simpath(d2, b2, y);
    if (s || t) { long r = ask(op, s ? s : a, t ? t : b2, -1, 0); FAIL_IF(r); }
    return 0;
}
int rename(const char *a, const char *b) {
    REAL(int, "rename", const char *, const char *);
    if (two(OP_RENAME, AT_FDCWD, a, AT_FDCWD, b)) return -1;
    return real(a, b);
}
int renameat(int d1, const char *a, int d2, const char *b) {
    REAL(int, "renameat", int, const char *, int, const char *);
    if (two(OP_RENAME, d1, a, d2, b)) return -1;
    return real(d1, a, d2, b);
}
int link(const char *a, const char *b) {
    REAL(int, "link", const char *, const char *);
    if (two(OP_LINK, AT_FDCWD, a, AT_FDCWD, b)) return -1;
    return real(a, b);
}
int linkat(int d1, const char *a, int d2, const char *b, int f) {
    REAL(int, "linkat", int, const char *, int, const char *, int);
    if (two(OP_LINK, d1, a, d2, b)) return -1;
    return real(d1, a, d2, b, f);
}
int symlink(const char *a, const char *b) {
    REAL(int, "symlink", const char *, const char *);
    if (two(OP_LINK, AT_FDCWD, a, AT_FDCWD, b)) return -1;
    return real(a, b);
}
#define P1(name, op) int name(const char *p) { REAL(int, #name, const char *); char b[PATH_MAX]; \
    const char *s = simpath(AT_FDCWD, p, b); if (s) { long r = ask(op, s, NULL, -1, 0); FAIL_IF(r); } return real(p); }
P1(unlink, OP_UNLINK)
P1(remove, OP_UNLINK)
P1(rmdir, OP_RMDIR)
int unlinkat(int d, const char *p, int f) {
    REAL(int, "unlinkat", int, const char *, int);
    char b[PATH_MAX]; const char *s = simpath(d, p, b);
    if (s) { long r = ask(f & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, s, NULL, -1, 0); FAIL_IF(r); }
    return real(d, p, f);
}
int mkdir(const char *p, mode_t m) {
    REAL(int, "mkdir", const char *, mode_t);
    char b[PATH_MAX]; const char *s = simpath(AT_FDCWD, p, b);
    if (s) { long r = ask(OP_MKDIR, s, NULL, -1, 0); FAIL_IF(r); }
    return real(p, m);
}
int mkdirat(int d, const char *p, mode_t m) {
    REAL(int, "mkdirat", int, const char *, mode_t);
    char b[PATH_MAX]; const char *s = simpath(d, p, b);
    if (s) { long r = ask(OP_MKDIR, s, NULL, -1, 0); FAIL_IF(r); }
    return real(d, p, m);
}
int chmod(const char *p, mode_t m) {
    REAL(int, "chmod", const char *, mode_t);
    char b[PATH_MAX]; const char *s = simpath(AT_FDCWD, p, b);
    if (s) { long r = ask(OP_CHMOD, s, NULL, -1, 0); FAIL_IF(r); }
    return real(p, m);
}
#define ST(name, T) int name(const char *p, T *st) { REAL(int, #name, const char *, T *); char b[PATH_MAX]; \
    const char *s = simpath(AT_FDCWD, p, b); if (s) { long r = ask(OP_STAT, s, NULL, -1, 0); FAIL_IF(r); } return real(p, st); }
ST(stat, struct stat)
ST(stat64, struct stat64)
ST(lstat, struct stat)
ST(lstat64, struct stat64)
#define STAT_AT(name, T) int name(int d, const char *p, T *st, int f) { REAL(int, #name, int, const char *, T *, int); char b[PATH_MAX]; \
    const char *s = p && *p ? simpath(d, p, b) : NULL; if (s) { long r = ask(OP_STAT, s, NULL, -1, 0); FAIL_IF(r); } return real(d, p, st, f); }
STAT_AT(fstatat, struct stat)
STAT_AT(fstatat64, struct stat64)

/* ---- directory listings: sorted, or shuffled by the simulator's seed ---- */
struct list { DIR *d; struct dirent64 *e; int n, i; struct list *next; };
static struct list *lists;

static int bynames(const void *a, const void *b) {
    return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name);
}
static void capture(DIR *d, unsigned long long seed) {
    REAL(struct dirent64 *, "readdir64", DIR *);
    struct list *l = calloc(1, sizeof *l);
    struct dirent64 *x; int cap = 0;
    l->d = d;
    while ((x = real(d))) {
        if (l->n == cap) { cap = cap ? cap * 2 : 32; l->e = realloc(l->e, cap * sizeof *l->e); }
        memcpy(&l->e[l->n++], x, x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x);
    }
    if (l->n) qsort(l->e, l->n, sizeof *l->e, bynames);
    if (seed > 1)
        for (int i = l->n - 1; i > 0; i--) {
            seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
            int j = (int)(seed % (unsigned)(i + 1));
            struct dirent64 t = l->e[i]; l->e[i] = l->e[j]; l->e[j] = t;
        }
    l->next = lists; lists = l;
}
DIR *opendir(const char *p) {
    REAL(DIR *, "opendir", const char *);
    char b[PATH_MAX]; const char *s = simpath(AT_FDCWD, p, b);
    long r = 0;
    if (s) { r = ask(OP_OPENDIR, s, NULL, -1, 0); if (r < 0) { errno = (int)-r; return NULL; } }
    DIR *d = real(p);
    if (s && d) capture(d, (unsigned long long)r);
    return d;
}
DIR *fdopendir(int fd) {
    REAL(DIR *, "fdopendir", int);
    long r = 0; int s = FDSIM(fd);
    if (s) { r = ask(OP_OPENDIR, fdpath[fd], NULL, fd, 0); if (r < 0) { errno = (int)-r; return NULL; } }
    DIR *d = real(fd);
    if (s && d) capture(d, (unsigned long long)r);
    return d;
}
static struct list *find(DIR *d) { for (struct list *l = lists; l; l = l->next) if (l->d == d) return l; return NULL; }
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, "readdir64", DIR *);
    struct list *l = lists ? find(d) : NULL;
    if (!l) return real(d);
    return l->i < l->n ? &l->e[l->i++] : NULL;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    REAL(int, "closedir", DIR *);
    for (struct list **q = &lists; *q; q = &(*q)->next)
        if ((*q)->d == d) { struct list *l = *q; *q = l->next; free(l->e); free(l); break; }
    return real(d);
}

/* ---- clock ---- */
static long long vnow(void) { time_reads++; time_ns += time_tick; return time_ns; }
int clock_gettime(clockid_t c, struct timespec *t) {
    REAL(int, "clock_gettime", clockid_t, struct timespec *);
    if (time_on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        long long n = vnow();
        long long s = n / 1000000000LL, r = n % 1000000000LL;
        if (r < 0) { r += 1000000000LL; s--; }
        t->tv_sec = s; t->tv_nsec = r;
        return 0;
    }
    return real(c, t);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    REAL(int, "gettimeofday", struct timeval *, void *);
    if (time_on && tv) {
        struct timespec t;
        clock_gettime(CLOCK_REALTIME, &t);
        tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
        return 0;
    }
    return real(tv, tz);
}
time_t time(time_t *out) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out) *out = t.tv_sec;
    return t.tv_sec;
}
