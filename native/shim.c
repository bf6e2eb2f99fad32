/* LD_PRELOAD shim for cargo-mutants: owns the sources of nondeterminism and is the fault injector.
 *
 * Environment:
 *   SHIM_CTL    unix socket of the controller (one stream connection, line protocol)
 *   SHIM_LOG    file to append the operation/decision log to
 *   SHIM_ROOTS  ':'-separated name=prefix list: files below these prefixes are "ours"
 *   SHIM_FAULT  k:action   action in err=<errno> | full | bad | kill | torn | tornkill | int ; k counts ops from 1
 *   SHIM_SCHED  if set: serialize threads; comma list of choices at decision points (may be empty)
 *   SHIM_SEED   seed of getrandom()
 *   SHIM_CLOCK  if set: CLOCK_MONOTONIC is virtual (starts at 1000 s, advanced by sleeps and controller)
 *   SHIM_READS  if set: reads/opens for reading of our files are operations too
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <spawn.h>

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)
REAL(int, open64, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, writev, int, const struct iovec *, int);
REAL(int, rename, const char *, const char *);
REAL(int, mkdir, const char *, mode_t);
REAL(int, rmdir, const char *);
REAL(int, unlink, const char *);
REAL(int, unlinkat, int, const char *, int);
REAL(int, symlink, const char *, const char *);
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
REAL(int, fchmod, int, mode_t);
REAL(int, chmod, const char *, mode_t);
REAL(int, ftruncate64, int, off64_t);
REAL(int, close, int);
REAL(pid_t, fork, void);
REAL(int, posix_spawnp, pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
REAL(int, pidfd_spawnp, int *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
REAL(int, waitid, idtype_t, id_t, siginfo_t *, int);
REAL(pid_t, waitpid, pid_t, int *, int);
REAL(int, killpg, pid_t, int);
REAL(int, kill, pid_t, int);
REAL(int, clock_gettime, clockid_t, struct timespec *);
REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *);
REAL(int, nanosleep, const struct timespec *, struct timespec *);
REAL(ssize_t, getrandom, void *, size_t, unsigned);
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
REAL(int, pthread_join, pthread_t, void **);
REAL(int, pthread_setname_np, pthread_t, const char *);
REAL(long, syscall, long, ...);
REAL(int, flock, int, int);
REAL(DIR *, opendir, const char *);
REAL(struct dirent64 *, readdir64, DIR *);

static pid_t main_pid;
static int active;
static int log_fd = -1, ctl_fd = -1;
static pthread_mutex_t ctl_mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int nroots; static struct { char name[16]; char prefix[512]; } roots[8];
static long fault_k; static char fault_action[32];
static atomic_long opno;
static int reads_on, virt_clock, sched_on;
static _Atomic int64_t vclock_ns = 1000LL * 1000000000LL;
static _Atomic uint64_t rng;
static char *fdpath[4096];
static atomic_int pipe_reads;
static __thread int tid_me = -1;    /* managed thread id, -1 = unmanaged */
static __thread int in_shim;

static void load(void) {
    #define L(n) if (!real_##n) real_##n = dlsym(RTLD_NEXT, #n)
    L(open64); L(openat64); L(write); L(read); L(writev); L(rename); L(mkdir); L(rmdir); L(unlink); L(unlinkat);
    L(symlink); L(copy_file_range); L(sendfile64); L(fchmod); L(chmod); L(ftruncate64); L(close); L(fork);
    L(posix_spawnp); L(pidfd_spawnp); L(waitid); L(waitpid); L(killpg); L(kill); L(clock_gettime); L(clock_nanosleep);
    L(nanosleep); L(getrandom); L(pthread_create); L(pthread_join); L(pthread_setname_np); L(syscall); L(flock);
    L(opendir); L(readdir64);
}

static void raw_sleep_us(long us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000}; real_nanosleep(&t, NULL); }

static void logf_(const char *fmt, ...) {
    if (log_fd < 0) return;
    char b[1600];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 2, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    ssize_t r = real_write(log_fd, b, n); (void)r;
}

static int on(void) { return active && getpid() == main_pid && !in_shim; }

/* ------------------------------------------------------------------ paths */
static const char *norm(const char *path, char *out, size_t cap) {
    char full[PATH_MAX];
    if (path[0] != '/') {
        if (!getcwd(full, sizeof full)) return NULL;
        size_t l = strlen(full);
        snprintf(full + l, sizeof full - l, "/%s", path);
        path = full;
    }
    /* collapse "/./" and "//" so the same file always logs alike */
    char c[PATH_MAX]; size_t n = 0;
    for (const char *p = path; *p && n < sizeof c - 1;) {
        if (p[0] == '/' && p[1] == '.' && (p[2] == '/' || !p[2])) { p += 2; continue; }
        if (p[0] == '/' && p[1] == '/') { p++; continue; }
        c[n++] = *p++;
    }
    c[n] = 0;
    for (int i = 0; i < nroots; i++) {
        size_t l = strlen(roots[i].prefix);
        if (!strncmp(c, roots[i].prefix, l) && (c[l] == '/' || !c[l])) {
            snprintf(out, cap, "%s%s", roots[i].name, c + l);
            return out;
        }
    }
    return NULL;
}
static void setfd(int fd, const char *norm_path) {
    if (fd < 0 || fd >= 4096) return;
    char *n = norm_path ? strdup(norm_path) : NULL;
    pthread_mutex_lock(&mu);
    char *old = fdpath[fd]; fdpath[fd] = n;
    pthread_mutex_unlock(&mu);
    free(old);
}
static int getfd(int fd, char *out, size_t cap) {
    int r = 0;
    if (fd < 0 || fd >= 4096) return 0;
    pthread_mutex_lock(&mu);
    if (fdpath[fd]) { snprintf(out, cap, "%s", fdpath[fd]); r = 1; }
    pthread_mutex_unlock(&mu);
    return r;
}

/* ------------------------------------------------------------------ scheduler */
#define MAXT 64
enum { T_NONE, T_READY, T_FUTEX, T_JOIN, T_DONE, T_EXT };
static struct th { int st; uint32_t *faddr; int timed; int woken; int join; pthread_t pt; pthread_cond_t cv; int64_t wake_at; } T[MAXT];
static int nT, cur = 0;
static pthread_mutex_t smu = PTHREAD_MUTEX_INITIALIZER;
static int *sched; static int sched_len, sched_pos;
static long fifo; static long futex_seq[MAXT];
static long npoints;
static char branch_kinds[512]; /* ,kind,kind, : only these are decision points; empty = all */
static int is_branch(const char *why) {
    if (!branch_kinds[0]) return 1;
    char k[64]; snprintf(k, sizeof k, ",%s,", why);
    return strstr(branch_kinds, k) != NULL;
}

static int choose(const char *why, int me, int me_enabled) {
    /* smu held.  canonical order: running thread first if enabled, then ascending id. */
    int en[MAXT], n = 0;
    if (me_enabled) en[n++] = me;
    for (int i = 0; i < nT; i++) if (i != me && T[i].st == T_READY) en[n++] = i;
    if (n == 0) return -1;
    int c = 0;
    if (n > 1 && is_branch(why)) {
        npoints++;
        if (sched_pos < sched_len) {
            c = sched[sched_pos];
            if (c < 0 || c >= n) { logf_("DIVERGED pos=%d choice=%d n=%d", sched_pos, c, n); _exit(77); }
        }
        char b[256]; int l = 0;
        for (int i = 0; i < n && l < 240; i++) l += snprintf(b + l, sizeof b - l, "%s%d", i ? "," : "", en[i]);
        logf_("D %d %d %d %s %s", sched_pos, c, me_enabled, b, why);
        sched_pos++;
    }
    return en[c];
}
static void give(int next) { cur = next; pthread_cond_signal(&T[next].cv); }
static void wait_turn(int me) { while (cur != me) pthread_cond_wait(&T[me].cv, &smu); }

static void sched_point(const char *why) {
    if (!sched_on || tid_me < 0) return;
    pthread_mutex_lock(&smu);
    int me = tid_me;
    int nx = choose(why, me, 1);
    if (nx != me) { give(nx); wait_turn(me); }
    pthread_mutex_unlock(&smu);
}
/* a thread that only polls: it becomes the last choice (a yield is not a preemption) */
static void sched_yield_point(const char *why) {
    if (!sched_on || tid_me < 0) return;
    pthread_mutex_lock(&smu);
    int me = tid_me, others = 0;
    for (int i = 0; i < nT; i++) if (i != me && T[i].st == T_READY) others++;
    if (others) {
        /* round robin to the next ready thread, deterministic, not a decision */
        int nx = me;
        do { nx = (nx + 1) % nT; } while (nx == me || T[nx].st != T_READY);
        logf_("Y %d %d %s", me, nx, why);
        give(nx); wait_turn(me);
    }
    pthread_mutex_unlock(&smu);
}
static void block_and_switch(int me, const char *why) {
    /* smu held, T[me].st set to a blocked state */
    for (;;) {
        int nx = choose(why, me, 0);
        if (nx >= 0) { give(nx); break; }
        /* nobody ready: a timed futex waiter times out, smallest id first */
        int t = -1;
        for (int i = 0; i < nT; i++) if (T[i].st == T_FUTEX && T[i].timed) { t = i; break; }
        if (t >= 0) { T[t].st = T_READY; T[t].woken = 2; give(t); break; }
        int ext = 0;
        for (int i = 0; i < nT; i++) if (T[i].st == T_EXT) ext = 1;
        if (ext) { cur = -1; break; }
        /* threads outside our control (the signal thread) could still wake us */
        logf_("DEADLOCK %s", why);
        pthread_mutex_unlock(&smu);
        raw_sleep_us(300000);
        _exit(78);
    }
    while (!(cur == me)) pthread_cond_wait(&T[me].cv, &smu);
}
struct startarg { void *(*fn)(void *); void *arg; int id; };
static void *tramp(void *p) {
    struct startarg a = *(struct startarg *)p; free(p);
    tid_me = a.id;
    pthread_mutex_lock(&smu);
    wait_turn(a.id);
    pthread_mutex_unlock(&smu);
    void *r = a.fn(a.arg);
    if (tid_me < 0) return r;
    pthread_mutex_lock(&smu);
    T[a.id].st = T_DONE;
    for (int i = 0; i < nT; i++) if (T[i].st == T_JOIN && T[i].join == a.id) T[i].st = T_READY;
    int nx = choose("exit", a.id, 0);
    tid_me = -1;
    if (nx >= 0) give(nx);
    else {
        int t = -1;
        for (int i = 0; i < nT; i++) if (T[i].st == T_FUTEX && T[i].timed) { t = i; break; }
        if (t >= 0) { T[t].st = T_READY; T[t].woken = 2; give(t); }
        else {
            int alive = 0;
            for (int i = 0; i < nT; i++) if (T[i].st == T_FUTEX || T[i].st == T_JOIN) alive = 1;
            if (alive) { logf_("DEADLOCK exit"); _exit(78); }
        }
    }
    pthread_mutex_unlock(&smu);
    return r;
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    load();
    if (!on() || !sched_on || tid_me < 0) return real_pthread_create(t, at, fn, arg);
    struct startarg *a = malloc(sizeof *a);
    pthread_mutex_lock(&smu);
    int id = nT++;
    if (id >= MAXT) abort();
    T[id].st = T_READY; pthread_cond_init(&T[id].cv, NULL);
    pthread_mutex_unlock(&smu);
    a->fn = fn; a->arg = arg; a->id = id;
    in_shim++;
    int r = real_pthread_create(t, at, tramp, a);
    in_shim--;
    if (r == 0) {
        /* the new thread runs up to its first visible operation (or names itself "ctrl-c" and leaves) */
        pthread_mutex_lock(&smu);
        T[id].pt = *t;
        give(id); wait_turn(tid_me);
        pthread_mutex_unlock(&smu);
    } else T[id].st = T_DONE;
    return r;
}
int pthread_join(pthread_t t, void **ret) {
    load();
    if (on() && sched_on && tid_me >= 0) {
        pthread_mutex_lock(&smu);
        int id = -1;
        for (int i = 0; i < nT; i++) if (T[i].st != T_NONE && pthread_equal(T[i].pt, t)) id = i;
        if (id >= 0 && T[id].st != T_DONE) { T[tid_me].st = T_JOIN; T[tid_me].join = id; block_and_switch(tid_me, "join"); }
        pthread_mutex_unlock(&smu);
    }
    return real_pthread_join(t, ret);
}
int pthread_setname_np(pthread_t t, const char *name) {
    load();
    if (on() && sched_on && tid_me > 0 && name && !strcmp(name, "ctrl-c")) {
        /* the signal-handler thread: leave it outside the scheduler */
        pthread_mutex_lock(&smu);
        int me = tid_me;
        T[me].st = T_DONE; tid_me = -1;
        give(0);
        pthread_mutex_unlock(&smu);
    }
    return real_pthread_setname_np(t, name);
}
static long do_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t *a2, uint32_t v3) {
    int cmd = op & 127;
    if (on() && sched_on) {
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
            if (tid_me >= 0) {
                pthread_mutex_lock(&smu);
                int me = tid_me;
                if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { pthread_mutex_unlock(&smu); errno = EAGAIN; return -1; }
                T[me].st = T_FUTEX; T[me].faddr = addr; T[me].timed = to != NULL; T[me].woken = 0; futex_seq[me] = ++fifo;
                block_and_switch(me, "futex_wait");
                int w = T[me].woken;
                pthread_mutex_unlock(&smu);
                if (w == 2) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
        } else if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
            long n = 0;
            pthread_mutex_lock(&smu);
            while (n < (long)val) {
                int best = -1;
                for (int i = 0; i < nT; i++)
                    if (T[i].st == T_FUTEX && T[i].faddr == addr && (best < 0 || futex_seq[i] < futex_seq[best])) best = i;
                if (best < 0) break;
                T[best].st = T_READY; T[best].woken = 1; n++;
                if (cur == -1) give(best);
            }
            pthread_mutex_unlock(&smu);
            if (tid_me >= 0 && n) sched_point("futex_wake");
            if (!n || tid_me < 0) n += real_syscall(SYS_futex, addr, op, val, to, a2, v3);
            return n;
        }
    }
    return real_syscall(SYS_futex, addr, op, val, to, a2, v3);
}
long syscall(long n, ...) {
    load();
    va_list ap; va_start(ap, n);
    long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex) return do_futex((uint32_t *)a[0], a[1], a[2], (void *)a[3], (uint32_t *)a[4], a[5]);
    if (n == SYS_copy_file_range) return copy_file_range(a[0], (void *)a[1], a[2], (void *)a[3], a[4], a[5]);
    return real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

/* ------------------------------------------------------------------ controller */
static char ctl_ask(const char *fmt, ...) {
    if (ctl_fd < 0) return 0;
    char b[256]; va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    pthread_mutex_lock(&ctl_mu);
    char c = 0;
    if (real_write(ctl_fd, b, n) == n) {
        ssize_t r;
        do r = real_read(ctl_fd, &c, 1); while (r < 0 && errno == EINTR);
        if (r != 1) c = 0;
        if (c == 'A') { /* advance the clock: 8 bytes of ns, then the real answer */
            int64_t d = 0; size_t got = 0;
            while (got < 8) { r = real_read(ctl_fd, (char *)&d + got, 8 - got); if (r <= 0) break; got += r; }
            vclock_ns += d;
            do r = real_read(ctl_fd, &c, 1); while (r < 0 && errno == EINTR);
            if (r != 1) c = 0;
        }
        if (c == 'X') raise(SIGKILL);
    }
    pthread_mutex_unlock(&ctl_mu);
    return c;
}
static void do_sigint(void) {
    int before = pipe_reads;
    real_kill(main_pid, SIGINT);
    for (int i = 0; i < 400 && pipe_reads == before; i++) raw_sleep_us(500);
}

/* ------------------------------------------------------------------ operations and faults */
enum { A_GO, A_ERR, A_TORN, A_TORNKILL };
static int op_point(const char *name, const char *path, int *err) {
    size_t pl = strlen(path);
    if (pl > 10 && !strcmp(path + pl - 10, "/debug.log") && !strcmp(name, "write")) return A_GO;
    long k = ++opno;
    logf_("O %ld %d %s %s", k, tid_me, name, path);
    if (sched_on) {
        /* writes to per-scenario logs and the copying and deleting of private trees commute */
        int quiet = (!strcmp(name, "write") && strstr(path, "/log/")) || !strcmp(name, "copy") || !strcmp(name, "fchmod")
            || (path[0] == 'T' && (!strcmp(name, "unlink") || !strcmp(name, "mkdir")));
        if (!quiet) sched_point(name);
    }
    if (fault_k && k >= fault_k && !strcmp(fault_action, "full") && (!strcmp(name, "write") || !strcmp(name, "copy") || !strcmp(name, "sendfile"))) {
        *err = ENOSPC;      /* the disk is full from here on */
        if (k == fault_k) logf_("F full");
        return A_ERR;
    }
    static char bad[PATH_MAX];
    if (k == fault_k && !strcmp(fault_action, "bad")) { snprintf(bad, sizeof bad, "%s", path); logf_("F bad"); }
    if (bad[0] && !strcmp(name, "write") && !strcmp(path, bad)) { *err = EIO; return A_ERR; }   /* this file can't be written from here on */
    if (k == fault_k) {
        if (!strncmp(fault_action, "err=", 4)) { *err = atoi(fault_action + 4); logf_("F %s", fault_action); return A_ERR; }
        if (!strcmp(fault_action, "kill")) { logf_("F kill"); raise(SIGKILL); }
        if (!strcmp(fault_action, "int")) { logf_("F int"); ctl_ask("N int\n"); do_sigint(); return A_GO; }
        if (!strcmp(fault_action, "torn")) return A_TORN;
        if (!strcmp(fault_action, "tornkill")) return A_TORNKILL;
    }
    return A_GO;
}
#define POINT(name, path, fail) do { int e_ = 0; if (op_point(name, path, &e_) == A_ERR) { errno = e_; return fail; } } while (0)

static int open_common(int dirfd, const char *path, int flags, mode_t mode, int at) {
    char nb[PATH_MAX]; const char *np = NULL;
    int mine = on();
    if (mine && (!at || dirfd == AT_FDCWD || path[0] == '/')) np = norm(path, nb, sizeof nb);
    else if (mine) { char d[PATH_MAX]; if (getfd(dirfd, d, sizeof d)) { snprintf(nb, sizeof nb, "%s/%s", d, path); np = nb; } }
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (np && (w || (reads_on && !(flags & O_DIRECTORY)))) POINT(w ? ((flags & O_TRUNC) ? "open_trunc" : (flags & O_CREAT) ? "open_create" : "open_write") : "open_read", np, -1);
    int fd = at ? real_openat64(dirfd, path, flags, mode) : real_open64(path, flags, mode);
    if (np && fd >= 0) { char p[PATH_MAX + 2]; snprintf(p, sizeof p, "%s", np); setfd(fd, p); }
    else if (mine && fd >= 0) setfd(fd, NULL);
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open64(const char *path, int flags, ...) { load(); MODE; return open_common(0, path, flags, mode, 0); }
int open(const char *path, int flags, ...) { load(); MODE; return open_common(0, path, flags, mode, 0); }
int openat64(int d, const char *path, int flags, ...) { load(); MODE; return open_common(d, path, flags, mode, 1); }
int openat(int d, const char *path, int flags, ...) { load(); MODE; return open_common(d, path, flags, mode, 1); }
int close(int fd) {
    load();
    if (on() && fd >= 0 && fd < 4096 && fdpath[fd]) setfd(fd, NULL);
    return real_close(fd);
}
ssize_t write(int fd, const void *b, size_t n) {
    load();
    char p[PATH_MAX];
    if (on() && getfd(fd, p, sizeof p)) {
        int e = 0;
        switch (op_point("write", p, &e)) {
        case A_ERR: errno = e; return -1;
        case A_TORN: logf_("F torn"); return real_write(fd, b, n > 1 ? n / 2 : n);
        case A_TORNKILL: { ssize_t r = real_write(fd, b, n / 2); (void)r; logf_("F tornkill"); raise(SIGKILL); }
        }
    }
    return real_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *iov, int c) {
    load();
    char p[PATH_MAX];
    if (on() && getfd(fd, p, sizeof p)) POINT("write", p, -1);
    return real_writev(fd, iov, c);
}
ssize_t read(int fd, void *b, size_t n) {
    load();
    if (on()) {
        if (fd >= 0 && fd < 4096 && fdpath[fd]) {
            char p[PATH_MAX];
            if (reads_on && getfd(fd, p, sizeof p)) POINT("read", p, -1);
        } else if (n == 1) {
            struct stat st;
            if (fstat(fd, &st) == 0 && S_ISFIFO(st.st_mode)) pipe_reads++;
        }
    }
    return real_read(fd, b, n);
}
#define PATH1(name, path, call) do { load(); char nb_[PATH_MAX]; const char *np_; \
    if (on() && (np_ = norm(path, nb_, sizeof nb_))) POINT(name, np_, -1); return call; } while (0)
int mkdir(const char *p, mode_t m) { PATH1("mkdir", p, real_mkdir(p, m)); }
int rmdir(const char *p) { PATH1("rmdir", p, real_rmdir(p)); }
int unlink(const char *p) { PATH1("unlink", p, real_unlink(p)); }
int chmod(const char *p, mode_t m) { PATH1("chmod", p, real_chmod(p, m)); }
int symlink(const char *t, const char *p) { PATH1("symlink", p, real_symlink(t, p)); }
int rename(const char *a, const char *b) { PATH1("rename", b, real_rename(a, b)); }
int unlinkat(int d, const char *p, int fl) {
    load();
    if (on()) {
        char nb[PATH_MAX], dd[PATH_MAX];
        if (d == AT_FDCWD || p[0] == '/') { const char *np = norm(p, nb, sizeof nb); if (np) POINT("unlink", np, -1); }
        else if (getfd(d, dd, sizeof dd)) { snprintf(nb, sizeof nb, "%.2000s/%.2000s", dd, p); POINT("unlink", nb, -1); }
    }
    return real_unlinkat(d, p, fl);
}
#define FDOP(name, fd, call, fail) do { load(); char p_[PATH_MAX]; \
    if (on() && getfd(fd, p_, sizeof p_)) POINT(name, p_, fail); return call; } while (0)
int fchmod(int fd, mode_t m) { FDOP("fchmod", fd, real_fchmod(fd, m), -1); }
int ftruncate64(int fd, off64_t n) { FDOP("ftruncate", fd, real_ftruncate64(fd, n), -1); }
int ftruncate(int fd, off_t n) { FDOP("ftruncate", fd, real_ftruncate64(fd, n), -1); }
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) { FDOP("copy", b, real_copy_file_range(a, ao, b, bo, n, f), -1); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { FDOP("sendfile", o, real_sendfile64(o, i, off, n), -1); }
int flock(int fd, int op) { FDOP("flock", fd, real_flock(fd, op), -1); }
DIR *opendir(const char *p) {
    load();
    char nb[PATH_MAX]; const char *np;
    if (on() && reads_on && (np = norm(p, nb, sizeof nb))) POINT("opendir", np, NULL);
    return real_opendir(p);
}

/* ------------------------------------------------------------------ processes */
static int spawn_gate(int *err) {
    if (!on()) return 0;
    return op_point("spawn", "cargo", err) == A_ERR;
}
static void spawned(pid_t pid) {
    if (!on() || ctl_fd < 0) return;
    logf_("S %d", tid_me);
    ctl_ask("S %d\n", pid);
}
/* A fork()ed child may do anything before exec; the shim is off there because its pid differs.
 * The parent waits (in the RPC) until the child has reached the controller or has gone. */
pid_t fork(void) {
    load();
    int e = 0;
    if (spawn_gate(&e)) { errno = e; return -1; }
    pid_t p = real_fork();
    if (p > 0 && sched_on) spawned(p);
    return p;
}
int posix_spawnp(pid_t *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const av[], char *const ev[]) {
    load();
    int e = 0;
    if (spawn_gate(&e)) return e;
    return real_posix_spawnp(pid, f, fa, at, av, ev);
}
int pidfd_spawnp(int *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const av[], char *const ev[]) {
    load();
    int e = 0;
    if (spawn_gate(&e)) return e;
    return real_pidfd_spawnp(pid, f, fa, at, av, ev);
}
/* polling wait: the controller decides whether the child has finished yet */
static int poll_wait(pid_t pid) { /* 1: do a blocking wait; 0: not yet */
    logf_("W %d", tid_me);
    sched_point("wait");
    char c = ctl_ask("W %d %lld\n", pid, (long long)vclock_ns);
    switch (c) {
    case 'R': return 1;
    case 'I': logf_("F int"); ctl_ask("N int\n"); do_sigint(); return 0;
    case 'N': return 0;
    default: return -1;
    }
}
int waitid(idtype_t t, id_t id, siginfo_t *si, int opt) {
    load();
    if (on() && ctl_fd >= 0 && t == P_PID && (opt & WNOHANG) && (opt & WEXITED)) {
        int r = poll_wait(id);
        if (r == 1) opt &= ~WNOHANG;
        else if (r == 0) { if (si) memset(si, 0, sizeof *si); return 0; }
    }
    return real_waitid(t, id, si, opt);
}
pid_t waitpid(pid_t pid, int *st, int opt) {
    load();
    if (on() && ctl_fd >= 0 && pid > 0 && (opt & WNOHANG)) {
        int r = poll_wait(pid);
        if (r == 1) opt &= ~WNOHANG;
        else if (r == 0) return 0;
    } else if (on() && ctl_fd >= 0 && pid > 0 && opt == 0) {
        ctl_ask("B %d %lld\n", pid, (long long)vclock_ns); /* blocking wait begins */
    }
    return real_waitpid(pid, st, opt);
}
int killpg(pid_t pg, int sig) {
    load();
    if (on()) { logf_("K %d %d", pg, sig); ctl_ask("K %d %d %lld\n", pg, sig, (long long)vclock_ns); }
    return real_killpg(pg, sig);
}
int kill(pid_t p, int sig) {
    load();
    if (on()) { logf_("K %d %d", p, sig); ctl_ask("K %d %d %lld\n", p, sig, (long long)vclock_ns); }
    return real_kill(p, sig);
}

/* ------------------------------------------------------------------ time and randomness */
int clock_gettime(clockid_t c, struct timespec *ts) {
    load();
    if (active && virt_clock && getpid() == main_pid && (c == CLOCK_MONOTONIC || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_RAW)) {
        int64_t t = vclock_ns; ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
    }
    return real_clock_gettime(c, ts);
}
static int vsleep(const struct timespec *d) {
    vclock_ns += (int64_t)d->tv_sec * 1000000000 + d->tv_nsec;
    if (ctl_fd < 0) raw_sleep_us(500);
    sched_yield_point("sleep");
    if (!sched_on) { raw_sleep_us(200); }
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *d, struct timespec *rem) {
    load();
    if (on() && virt_clock && !(fl & TIMER_ABSTIME)) return vsleep(d);
    return real_clock_nanosleep(c, fl, d, rem);
}
int nanosleep(const struct timespec *d, struct timespec *rem) {
    load();
    if (on() && virt_clock) return vsleep(d);
    return real_nanosleep(d, rem);
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    load();
    if (on() && rng) {
        unsigned char *p = b;
        for (size_t i = 0; i < n; i++) {
            uint64_t x = rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; rng = x; p[i] = x >> 24;
        }
        return n;
    }
    return real_getrandom(b, n, fl);
}

__attribute__((constructor)) static void init(void) {
    load();
    const char *s = getenv("SHIM_LOG");
    if (!s) return;
    main_pid = getpid();
    /* children must not inherit the shim */
    log_fd = real_open64(s, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
    if (log_fd >= 0) { int hi = fcntl(log_fd, F_DUPFD_CLOEXEC, 900); real_close(log_fd); log_fd = hi; }
    if ((s = getenv("SHIM_ROOTS"))) {
        char *c = strdup(s), *sv = NULL;
        for (char *t = strtok_r(c, ":", &sv); t && nroots < 8; t = strtok_r(NULL, ":", &sv)) {
            char *eq = strchr(t, '='); if (!eq) continue;
            *eq = 0;
            snprintf(roots[nroots].name, sizeof roots[0].name, "%s", t);
            snprintf(roots[nroots].prefix, sizeof roots[0].prefix, "%s", eq + 1);
            nroots++;
        }
        free(c);
    }
    if ((s = getenv("SHIM_FAULT"))) { fault_k = atol(s); const char *c = strchr(s, ':'); if (c) snprintf(fault_action, sizeof fault_action, "%s", c + 1); }
    reads_on = getenv("SHIM_READS") != NULL;
    virt_clock = getenv("SHIM_CLOCK") != NULL;
    if ((s = getenv("SHIM_SEED"))) { rng = strtoull(s, NULL, 10) * 0x9E3779B97F4A7C15ull + 0x1234567; }
    if ((s = getenv("SHIM_CTL"))) {
        int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        struct sockaddr_un a = {.sun_family = AF_UNIX};
        strncpy(a.sun_path, s, sizeof a.sun_path - 1);
        if (connect(fd, (struct sockaddr *)&a, sizeof a) == 0) {
            ctl_fd = fcntl(fd, F_DUPFD_CLOEXEC, 901);
            uint32_t n = 5; real_write(ctl_fd, &n, 4); real_write(ctl_fd, "shim", 5);
        }
        real_close(fd);
    }
    if ((s = getenv("SHIM_SCHED"))) {
        sched_on = 1;
        sched = calloc(strlen(s) + 1, sizeof *sched);
        char *c = strdup(s), *sv = NULL;
        for (char *t = strtok_r(c, ",", &sv); t; t = strtok_r(NULL, ",", &sv)) sched[sched_len++] = atoi(t);
        free(c);
        if ((s = getenv("SHIM_PTS"))) snprintf(branch_kinds, sizeof branch_kinds, ",%s,", s);
        nT = 1; T[0].st = T_READY; T[0].pt = pthread_self(); pthread_cond_init(&T[0].cv, NULL);
        tid_me = 0; cur = 0;
    }
    unsetenv("LD_PRELOAD"); unsetenv("SHIM_LOG"); unsetenv("SHIM_CTL"); unsetenv("SHIM_ROOTS"); unsetenv("SHIM_FAULT");
    unsetenv("SHIM_READS"); unsetenv("SHIM_CLOCK"); unsetenv("SHIM_SEED"); unsetenv("SHIM_SCHED"); unsetenv("SHIM_PTS");
    active = 1;
}
