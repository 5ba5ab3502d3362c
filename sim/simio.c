/* libsimio.so -- LD_PRELOAD seam between the process and the kernel's file and
 * clock interface.  Only descriptors opened on a path under the scratch prefix
 * are "tracked"; for those every open/read/write/truncate/sync/close/rename/
 * unlink is counted, logged, optionally captured, and may be hit by a planned
 * fault.  Nothing here draws a random number or reads a clock: the plan is
 * data, written by the simulator before the run, so a run is a pure function of
 * (plan, code).  Disabled (the initial state) everything is passed through. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN, OP_READ, OP_WRITE, OP_TRUNC, OP_SYNC, OP_CLOSE, OP_RENAME, OP_UNLINK, N_OP };
enum { ACT_NONE, ACT_ERR, ACT_SHORT, ACT_KILL };   /* KILL: the process dies here */

typedef struct {
    int32_t op, file, action, err;
    int64_t off, len, ret, data;   /* data: offset into arena, -1 if not captured */
    int32_t flags, file2;
} Rec;

typedef struct { int32_t op, action; int64_t nth, count, arg; int64_t fired; } Rule;

#define MAXFD 4096
#define MAXFILE 4096
#define MAXRULE 256
static struct {
    int on, capture, clock_on, nofault;
    char prefix[4096]; size_t plen;
    int fdfile[MAXFD];             /* 0 = untracked, else file id + 1 */
    int fdflags[MAXFD];
    char *files[MAXFILE]; int64_t size[MAXFILE]; int nfiles;
    int64_t cnt[N_OP];
    Rule rules[MAXRULE]; int nrules;
    Rec *log; int64_t nlog, caplog;
    char *arena; int64_t narena, caparena;
    int64_t capacity;              /* -1: unlimited */
    int64_t enospc;
    int64_t now_ns, mono_ns, tick_ns, nclock;
} S;
static pthread_mutex_t M = PTHREAD_MUTEX_INITIALIZER;
static __thread int inside;

#define REAL(ret, name, ...) static ret (*p)(__VA_ARGS__); if (!p) p = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

/* ---- control interface (ctypes) ---- */
void sim_reset(void) {
    pthread_mutex_lock(&M);
    for (int i = 0; i < S.nfiles; i++) { free(S.files[i]); S.files[i] = 0; }
    S.nfiles = 0; memset(S.fdfile, 0, sizeof S.fdfile); memset(S.cnt, 0, sizeof S.cnt);
    S.nrules = 0; S.nlog = 0; S.narena = 0; S.capacity = -1; S.enospc = 0; S.nofault = 0;
    pthread_mutex_unlock(&M);
}
void sim_enable(const char *prefix, int capture) {
    sim_reset();
    strncpy(S.prefix, prefix, sizeof S.prefix - 1); S.plen = strlen(S.prefix);
    S.capture = capture; S.on = 1;
}
void sim_disable(void) { S.on = 0; }
void sim_nofault(int x) { S.nofault = x; }
void sim_capacity(int64_t c) { S.capacity = c; }
int64_t sim_enospc(void) { return S.enospc; }
int sim_rule(int op, int64_t nth, int64_t count, int action, int64_t arg) {
    if (S.nrules >= MAXRULE) return -1;
    S.rules[S.nrules] = (Rule){op, action, nth, count, arg, 0};
    return S.nrules++;
}
void sim_clear_rules(void) { S.nrules = 0; }
int64_t sim_rule_fired(int i) { return S.rules[i].fired; }
int64_t sim_count(int op) { return S.cnt[op]; }
int64_t sim_nlog(void) { return S.nlog; }
const Rec *sim_log(void) { return S.log; }
const char *sim_arena(void) { return S.arena; }
const char *sim_file(int i) { return i >= 0 && i < S.nfiles ? S.files[i] : ""; }
int sim_nfiles(void) { return S.nfiles; }
int sim_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += S.fdfile[i] != 0; return n; }
void sim_clock(int on, int64_t now_ns, int64_t tick_ns) { S.now_ns = now_ns; S.mono_ns = now_ns; S.tick_ns = tick_ns; S.nclock = 0; S.clock_on = on; }
void sim_clock_set(int64_t now_ns) { S.now_ns = now_ns; }
int64_t sim_clock_now(void) { return S.now_ns; }
int64_t sim_clock_reads(void) { return S.nclock; }

/* ---- helpers ---- */
static int file_id(const char *abs) {
    for (int i = 0; i < S.nfiles; i++) if (!strcmp(S.files[i], abs)) return i;
    if (S.nfiles >= MAXFILE) return -1;
    S.files[S.nfiles] = strdup(abs); S.size[S.nfiles] = 0;
    return S.nfiles++;
}
static int under(const char *path, char *abs, size_t n) {
    if (!S.on || inside || !path) return 0;
    if (path[0] == '/') snprintf(abs, n, "%s", path);
    else { char cwd[2048]; if (!getcwd(cwd, sizeof cwd)) return 0; snprintf(abs, n, "%s/%s", cwd, path); }
    return !strncmp(abs, S.prefix, S.plen) && abs[S.plen] == '/';
}
static void add_log(int op, int file, int action, int err, int64_t off, int64_t len, int64_t ret,
                    const void *data, int flags, int file2) {
    if (S.nlog == S.caplog) {
        S.caplog = S.caplog ? S.caplog * 2 : 4096; S.log = realloc(S.log, S.caplog * sizeof(Rec));
    }
    int64_t d = -1;
    if (data && S.capture && ret > 0) {
        while (S.narena + ret > S.caparena) {
            S.caparena = S.caparena ? S.caparena * 2 : 1 << 20; S.arena = realloc(S.arena, S.caparena);
        }
        memcpy(S.arena + S.narena, data, ret); d = S.narena; S.narena += ret;
    }
    S.log[S.nlog++] = (Rec){op, file, action, err, off, len, ret, d, flags, file2};
}
/* next operation of class op: returns the action planned for it */
static int plan(int op, int64_t *arg) {
    int64_t k = S.cnt[op]++;
    if (S.nofault) return ACT_NONE;
    for (int i = 0; i < S.nrules; i++) {
        Rule *r = &S.rules[i];
        if (r->op == op && k >= r->nth && k < r->nth + r->count) {
            r->fired++; *arg = r->arg;
            if (r->action == ACT_KILL && op != OP_WRITE) kill(getpid(), SIGKILL);
            return r->action;
        }
    }
    return ACT_NONE;
}
static int tracked(int fd) { return S.on && !inside && fd >= 0 && fd < MAXFD && S.fdfile[fd]; }
static int64_t used(void) { int64_t u = 0; for (int i = 0; i < S.nfiles; i++) u += S.size[i]; return u; }

/* ---- open ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode, int at) {
    REAL(int, openat, int, const char *, int, ...);
    char abs[6144];
    int t = (!at || path[0] == '/') ? under(path, abs, sizeof abs) : 0;
    if (!t) return p(at ? dirfd : AT_FDCWD, path, flags, mode);
    if (flags & O_DIRECTORY) return p(AT_FDCWD, path, flags, mode);
    pthread_mutex_lock(&M); inside = 1;
    int64_t arg = 0; int act = plan(OP_OPEN, &arg); int fd = -1, e = 0;
    int fid = file_id(abs);
    if (act == ACT_ERR) e = (int)arg;
    else {
        struct stat st; int existed = !stat(abs, &st);
        fd = p(AT_FDCWD, path, flags, mode); e = fd < 0 ? errno : 0;
        if (fd >= 0 && fd < MAXFD && fid >= 0) {
            S.fdfile[fd] = fid + 1; S.fdflags[fd] = flags;
            S.size[fid] = (existed && !(flags & O_TRUNC)) ? st.st_size : 0;
        }
        if (fd >= 0 && !existed) flags |= 0x40000000;   /* log: this call created the file */
    }
    if (fid >= 0) add_log(OP_OPEN, fid, act, e, 0, 0, fd >= 0 ? 0 : -1, 0, flags, -1);
    inside = 0; pthread_mutex_unlock(&M);
    if (fd < 0) errno = e;
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode, 0); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode, 0); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode, d != AT_FDCWD); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode, d != AT_FDCWD); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode, 0); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode, 0); }
/* fopen: route through open() so the descriptor is tracked */
static FILE *do_fopen(const char *path, const char *m) {
    REAL(FILE *, fopen64, const char *, const char *);
    char abs[6144];
    if (!under(path, abs, sizeof abs)) return p(path, m);
    int fl = strchr(m, '+') ? O_RDWR : (m[0] == 'r' ? O_RDONLY : O_WRONLY);
    if (m[0] == 'w') fl |= O_CREAT | O_TRUNC; if (m[0] == 'a') fl |= O_CREAT | O_APPEND;
    int fd = do_open(AT_FDCWD, path, fl, 0666, 0);
    return fd < 0 ? NULL : fdopen(fd, m);
}
FILE *fopen(const char *path, const char *m) { return do_fopen(path, m); }
FILE *fopen64(const char *path, const char *m) { return do_fopen(path, m); }

/* ---- descriptor duplication ---- */
static void dup_track(int a, int b) { if (S.on && a >= 0 && a < MAXFD && b >= 0 && b < MAXFD) { S.fdfile[b] = S.fdfile[a]; S.fdflags[b] = S.fdflags[a]; } }
int dup(int fd) { REAL(int, dup, int); int r = p(fd); if (r >= 0) dup_track(fd, r); return r; }
int dup2(int fd, int n) { REAL(int, dup2, int, int); int r = p(fd, n); if (r >= 0 && fd != n) dup_track(fd, r); return r; }
int dup3(int fd, int n, int f) { REAL(int, dup3, int, int, int); int r = p(fd, n, f); if (r >= 0) dup_track(fd, r); return r; }
#define FCNTL(name) int name(int fd, int cmd, ...) { \
    REAL(int, name, int, int, ...); va_list a; va_start(a, cmd); void *x = va_arg(a, void *); va_end(a); \
    int r = p(fd, cmd, x); if (r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) dup_track(fd, r); return r; }
FCNTL(fcntl)
FCNTL(fcntl64)

/* ---- read ---- */
#define READ_BODY(CALL_FULL, CALL_N, OFF, LEN) \
    if (!tracked(fd)) return CALL_FULL; \
    pthread_mutex_lock(&M); inside = 1; \
    int64_t arg = 0; int act = plan(OP_READ, &arg); ssize_t r; int e = 0; size_t n_ = (LEN); \
    if (act == ACT_ERR) { r = -1; e = (int)arg; } \
    else { if (act == ACT_SHORT && n_ > 1) { size_t lim = arg > 0 ? (size_t)arg : 1; if (lim < n_) n_ = lim; } \
           r = CALL_N; e = r < 0 ? errno : 0; } \
    add_log(OP_READ, S.fdfile[fd] - 1, act, e, (OFF), (LEN), r, 0, 0, -1); \
    inside = 0; pthread_mutex_unlock(&M); if (r < 0) errno = e; return r;
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t); READ_BODY(p(fd, b, n), p(fd, b, n_), -1, n) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, pread, int, void *, size_t, off_t); READ_BODY(p(fd, b, n, o), p(fd, b, n_, o), o, n) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(ssize_t, pread64, int, void *, size_t, off64_t); READ_BODY(p(fd, b, n, o), p(fd, b, n_, o), o, n) }
size_t fread(void *b, size_t sz, size_t n, FILE *f) {
    REAL(size_t, fread, void *, size_t, size_t, FILE *);
    int fd = f ? fileno(f) : -1;
    if (!tracked(fd) || sz == 0 || n == 0) return p(b, sz, n, f);
    pthread_mutex_lock(&M); inside = 1;
    int64_t arg = 0; int act = plan(OP_READ, &arg); size_t r; int e = 0;
    if (act == ACT_ERR && arg == EINTR) act = ACT_NONE;      /* stdio retries by itself */
    if (act == ACT_ERR) { e = (int)arg; r = n > 1 ? p(b, sz, n / 2, f) : 0; f->_flags |= 0x20; /* _IO_ERR_SEEN */ }
    else r = p(b, sz, n, f);   /* a short kernel transfer is completed inside stdio */
    add_log(OP_READ, S.fdfile[fd] - 1, act, e, -2, (int64_t)(sz * n), (int64_t)(r * sz), 0, 0, -1);
    inside = 0; pthread_mutex_unlock(&M); if (e) errno = e; return r;
}

/* ---- write ---- */
static ssize_t do_write(int fd, const void *b, size_t n, int64_t off, ssize_t (*pw)(int, const void *, size_t, off64_t), ssize_t (*w)(int, const void *, size_t)) {
    pthread_mutex_lock(&M); inside = 1;
    int fid = S.fdfile[fd] - 1; int64_t arg = 0; int act = plan(OP_WRITE, &arg); ssize_t r; int e = 0; size_t n_ = n;
    int64_t pos = off;
    if (off < 0) pos = (S.fdflags[fd] & O_APPEND) ? S.size[fid] : lseek64(fd, 0, SEEK_CUR);
    if (act == ACT_ERR) { r = -1; e = (int)arg; }
    else {
        if (act == ACT_SHORT && n_ > 1) { size_t lim = arg > 0 ? (size_t)arg : 1; if (lim < n_) n_ = lim; }
        if (S.capacity >= 0 && !S.nofault) {
            int64_t grow = pos + (int64_t)n_ - S.size[fid];
            if (grow > 0) {
                int64_t room = S.capacity - used();
                if (room < grow) {
                    S.enospc++;
                    int64_t ok = (int64_t)n_ - (grow - (room > 0 ? room : 0));
                    n_ = ok > 0 ? (size_t)ok : 0;
                    if (!n_) { r = -1; e = ENOSPC; act = ACT_ERR; goto out; }
                }
            }
        }
        if (act == ACT_KILL && (int64_t)n_ > arg) n_ = (size_t)arg;      /* torn: only a part reaches the disk */
        r = off >= 0 ? pw(fd, b, n_, off) : w(fd, b, n_); e = r < 0 ? errno : 0;
        if (act == ACT_KILL) kill(getpid(), SIGKILL);
        if (r > 0 && pos + r > S.size[fid]) S.size[fid] = pos + r;
    }
out:
    add_log(OP_WRITE, fid, act, e, pos, (int64_t)n, r, b, 0, -1);
    inside = 0; pthread_mutex_unlock(&M); if (r < 0) errno = e; return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (!tracked(fd)) return p(fd, b, n);
    return do_write(fd, b, n, -1, 0, p);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    if (!tracked(fd)) return p(fd, b, n, o);
    return do_write(fd, b, n, o, p, 0);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }

/* ---- truncate, sync, close ---- */
static int do_trunc(int fd, off64_t len) {
    REAL(int, ftruncate64, int, off64_t);
    if (!tracked(fd)) return p(fd, len);
    pthread_mutex_lock(&M); inside = 1;
    int64_t arg = 0; int act = plan(OP_TRUNC, &arg), r, e = 0, fid = S.fdfile[fd] - 1;
    if (act == ACT_ERR) { r = -1; e = (int)arg; }
    else { r = p(fd, len); e = r < 0 ? errno : 0; if (!r) S.size[fid] = len; }
    add_log(OP_TRUNC, fid, act, e, len, 0, r, 0, 0, -1);
    inside = 0; pthread_mutex_unlock(&M); if (r < 0) errno = e; return r;
}
int ftruncate(int fd, off_t len) { return do_trunc(fd, len); }
int ftruncate64(int fd, off64_t len) { return do_trunc(fd, len); }
#define SYNC(name) int name(int fd) { REAL(int, name, int); if (!tracked(fd)) return p(fd); \
    pthread_mutex_lock(&M); inside = 1; int64_t arg = 0; int act = plan(OP_SYNC, &arg), r = 0, e = 0; \
    if (act == ACT_ERR) { r = -1; e = (int)arg; } \
    add_log(OP_SYNC, S.fdfile[fd] - 1, act, e, 0, 0, r, 0, 0, -1); \
    inside = 0; pthread_mutex_unlock(&M); if (r < 0) errno = e; return r; }
SYNC(fsync)
SYNC(fdatasync)
int close(int fd) {
    REAL(int, close, int);
    if (!tracked(fd)) { if (fd >= 0 && fd < MAXFD) S.fdfile[fd] = 0; return p(fd); }
    pthread_mutex_lock(&M); inside = 1;
    int64_t arg = 0; int act = plan(OP_CLOSE, &arg), r = p(fd), e = r < 0 ? errno : 0, fid = S.fdfile[fd] - 1;
    if (act == ACT_ERR) { r = -1; e = (int)arg; }        /* the descriptor is gone either way, as on Linux */
    S.fdfile[fd] = 0;
    add_log(OP_CLOSE, fid, act, e, 0, 0, r, 0, 0, -1);
    inside = 0; pthread_mutex_unlock(&M); if (r < 0) errno = e; return r;
}
int fclose(FILE *f) {
    REAL(int, fclose, FILE *);
    int fd = f ? fileno(f) : -1;
    if (tracked(fd)) {
        pthread_mutex_lock(&M); int fid = S.fdfile[fd] - 1; S.fdfile[fd] = 0; S.cnt[OP_CLOSE]++;
        add_log(OP_CLOSE, fid, 0, 0, 0, 0, 0, 0, 0, -1); pthread_mutex_unlock(&M);
    }
    return p(f);
}
/* ---- names ---- */
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    char x[6144], y[6144];
    if (!under(a, x, sizeof x) || !under(b, y, sizeof y)) return p(a, b);
    pthread_mutex_lock(&M); inside = 1;
    int64_t arg = 0; int act = plan(OP_RENAME, &arg), r, e = 0;
    int i = file_id(x), j = file_id(y);
    if (act == ACT_ERR) { r = -1; e = (int)arg; }
    else { r = p(a, b); e = r < 0 ? errno : 0; if (!r) { S.size[j] = S.size[i]; S.size[i] = 0; } }
    add_log(OP_RENAME, i, act, e, 0, 0, r, 0, 0, j);
    inside = 0; pthread_mutex_unlock(&M); if (r < 0) errno = e; return r;
}
int renameat(int d1, const char *a, int d2, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    if (d1 == AT_FDCWD && d2 == AT_FDCWD) return rename(a, b);
    return p(d1, a, d2, b);
}
int unlink(const char *a) {
    REAL(int, unlink, const char *);
    char x[6144];
    if (!under(a, x, sizeof x)) return p(a);
    pthread_mutex_lock(&M); inside = 1;
    int64_t arg = 0; int act = plan(OP_UNLINK, &arg), r, e = 0, i = file_id(x);
    if (act == ACT_ERR) { r = -1; e = (int)arg; }
    else { r = p(a); e = r < 0 ? errno : 0; if (!r && i >= 0) S.size[i] = 0; }
    add_log(OP_UNLINK, i, act, e, 0, 0, r, 0, 0, -1);
    inside = 0; pthread_mutex_unlock(&M); if (r < 0) errno = e; return r;
}
/* ---- clock ---- */
int clock_gettime(clockid_t id, struct timespec *ts) {
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    if (!S.clock_on || id != CLOCK_REALTIME) return p(id, ts);
    int64_t t = __atomic_fetch_add(&S.now_ns, S.tick_ns, __ATOMIC_SEQ_CST);
    __atomic_fetch_add(&S.nclock, 1, __ATOMIC_SEQ_CST);
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
}
time_t time(time_t *out) {
    REAL(time_t, time, time_t *);
    if (!S.clock_on) return p(out);
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (out) *out = ts.tv_sec; return ts.tv_sec;
}
int gettimeofday(struct timeval *tv, void *tz) {
    REAL(int, gettimeofday, struct timeval *, void *);
    if (!S.clock_on) return p(tv, tz);
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
