// Everything between the twiggy tool and the operating system that the
// simulation decides about: files, writes, reads, memory, hash seeds, clocks.
// Preloaded into the real tool. What happens comes from a plan in TWSHIM_PLAN,
// what happened is left in the file TWSHIM_TRACE (shared memory, so that it
// survives a kill).
#define _GNU_SOURCE
#include <errno.h>
#include <sched.h>
#include <sys/ioctl.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

enum { // plan, all decimal numbers separated by blanks
    P_SEED, P_RSHORT, P_RINTR, P_WSHORT, P_WINTR,
    P_RFAIL_WHO, P_RFAIL_AT, P_RFAIL_ERR, P_RFAIL_STICKY,
    P_OPEN_WHO, P_OPEN_ERR, P_OPEN_STICKY,
    P_STAT_WHO, P_STAT_KIND,
    P_OUT_ERR,
    P_WFAIL_ON, P_WFAIL_AT, P_WFAIL_ERR, P_WFAIL_STICKY,
    P_KILL_AT, P_MFAIL_AT, P_HASH, P_CLOCK, P_PID, P_WMAX,
    P_TTY, P_CPUS, P_ENV, P_N
};
struct trace {
    uint64_t magic, calls, mallocs, killed, mfailed;
    uint64_t reads, rbytes[2], reof[2], rshort, rintr, rerr;
    uint64_t opens[2], openerr, staterr;
    uint64_t outopen, outerr;
    uint64_t writes, wbytes, wshort, wintr, werr, wzero;
    uint64_t stray, hash, clock, pid, alien;
    uint64_t mallocs_at_out, calls_at_out;
    uint64_t syncs, ebytes, huge;
    uint64_t tty, cpus, env, pipe;
    char path[256];
};
static uint64_t P[P_N];
static struct trace *T, dummy;
static int on;
static char in[2][512], out[512], dir[512];
static int kind[1024]; // 0 nothing of ours, 1 and 2 inputs, 3 the output
static uint64_t pos[1024];
static uint64_t rng, intr_run, wfailed, rfailed, openfailed;

static uint64_t next(void) {
    uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("TWSHIM_PLAN"), *t = getenv("TWSHIM_TRACE");
    T = &dummy;
    if (!p || !t) return;
    for (int i = 0; i < P_N && *p; i++) {
        P[i] = strtoull(p, (char **)&p, 10);
        while (*p == ' ') p++;
    }
    int fd = syscall(SYS_openat, AT_FDCWD, t, O_RDWR | O_CREAT | O_CLOEXEC, 0600);
    if (fd < 0 || syscall(SYS_ftruncate, fd, sizeof *T)) _exit(99);
    T = mmap(0, sizeof *T, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (T == MAP_FAILED) _exit(99);
    const char *s;
    if ((s = getenv("TWSHIM_IN0"))) strncpy(in[0], s, 511);
    if ((s = getenv("TWSHIM_IN1"))) strncpy(in[1], s, 511);
    if ((s = getenv("TWSHIM_OUT"))) strncpy(out, s, 511);
    if ((s = getenv("TWSHIM_DIR"))) strncpy(dir, s, 511);
    static const char *const mine[] = {"TWSHIM_PLAN", "TWSHIM_TRACE", "TWSHIM_IN0", "TWSHIM_IN1", "TWSHIM_OUT", "TWSHIM_DIR", "LD_PRELOAD"};
    for (unsigned i = 0; i < sizeof mine / sizeof *mine; i++) unsetenv(mine[i]);
    kind[1] = 3; // unless there is an output file
    if (out[0]) kind[1] = 0;
    rng = P[P_SEED];
    T->magic = 0x7477736869;
    on = 1;
}

// A call into the system: this may be the last one.
static void step(void) {
    if (!on) return;
    T->calls++;
    if (P[P_KILL_AT] && T->calls == P[P_KILL_AT]) {
        T->killed = 1;
        syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL);
        for (;;) pause();
    }
}

static int whose(const char *path) {
    if (!strcmp(path, in[0])) return 1;
    if (in[1][0] && !strcmp(path, in[1])) return 2;
    if (out[0] && !strcmp(path, out)) return 3;
    return 0;
}

static int stray(const char *what, const char *path) {
    T->stray++;
    if (!T->path[0]) {
        strncpy(T->path, what, 20);
        strncat(T->path, path, 200);
    }
    errno = EACCES;
    return -1;
}

static int do_open(int at, const char *path, int flags, mode_t mode) {
    if (!on) return syscall(SYS_openat, at, path, flags, mode);
    step();
    int w = whose(path);
    int writes = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (writes && w != 3) return stray("write to ", path);
    if (w == 1 || w == 2) {
        T->opens[w - 1]++;
        if (P[P_OPEN_ERR] && (int)P[P_OPEN_WHO] == w - 1 && (P[P_OPEN_STICKY] || !openfailed)) {
            openfailed = 1;
            T->openerr++;
            errno = P[P_OPEN_ERR];
            return -1;
        }
    } else if (w == 3 && writes) {
        if (P[P_OUT_ERR]) {
            T->outerr++;
            errno = P[P_OUT_ERR];
            return -1;
        }
        T->mallocs_at_out = T->mallocs;
        T->calls_at_out = T->calls;
    } else if (w == 0) {
        T->alien++;
    }
    int fd = syscall(SYS_openat, at, path, flags, mode);
    if (fd >= 0 && fd < 1024) {
        kind[fd] = w;
        pos[fd] = 0;
        if (w == 3 && writes) T->outopen++;
    }
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int openat(int at, const char *p, int flags, ...) { MODE return do_open(at, p, flags, mode); }
int openat64(int at, const char *p, int flags, ...) { MODE return do_open(at, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }

#define FORBID(decl, path, what, sys) \
    decl { if (on) { step(); return stray(what, path); } return sys; }
FORBID(int unlink(const char *p), p, "unlink ", syscall(SYS_unlink, p))
FORBID(int unlinkat(int f, const char *p, int g), p, "unlink ", syscall(SYS_unlinkat, f, p, g))
FORBID(int rename(const char *p, const char *q), p, "rename ", syscall(SYS_rename, p, q))
FORBID(int renameat(int f, const char *p, int g, const char *q), p, "rename ", syscall(SYS_renameat, f, p, g, q))
FORBID(int mkdir(const char *p, mode_t m), p, "mkdir ", syscall(SYS_mkdir, p, m))
FORBID(int rmdir(const char *p), p, "rmdir ", syscall(SYS_rmdir, p))
FORBID(int truncate(const char *p, off_t n), p, "truncate ", syscall(SYS_truncate, p, n))
FORBID(int truncate64(const char *p, off64_t n), p, "truncate ", syscall(SYS_truncate, p, n))
FORBID(int chmod(const char *p, mode_t m), p, "chmod ", syscall(SYS_chmod, p, m))
FORBID(int symlink(const char *p, const char *q), q, "symlink ", syscall(SYS_symlink, p, q))
FORBID(int link(const char *p, const char *q), q, "link ", syscall(SYS_link, p, q))

// An input that is a pipe: no size, no position.
static int piped(int w) {
    if (!on || P[P_STAT_KIND] != 6 || (w != 1 && w != 2) || (int)P[P_STAT_WHO] != w - 1) return 0;
    T->pipe++;
    return 1;
}
static int piped_fd(int fd) { return piped(fd >= 0 && fd < 1024 ? kind[fd] : 0); }

static ssize_t do_read(int fd, void *buf, size_t n, int64_t at) {
    int k = fd >= 0 && fd < 1024 ? kind[fd] : 0;
    if (!on || (k != 1 && k != 2))
        return at < 0 ? syscall(SYS_read, fd, buf, n) : syscall(SYS_pread64, fd, buf, n, at);
    step();
    if (at >= 0 && piped(k)) {
        errno = ESPIPE;
        return -1;
    }
    T->reads++;
    uint64_t here = at < 0 ? pos[fd] : (uint64_t)at;
    if (n && next() % 1000 < P[P_RINTR] && intr_run < 20) {
        intr_run++;
        T->rintr++;
        errno = EINTR;
        return -1;
    }
    intr_run = 0;
    if (n > 1 && next() % 1000 < P[P_RSHORT]) {
        size_t m = 1 + next() % (next() % 3 ? (n < 40 ? n : 40) : n);
        if (m < n) {
            T->rshort++;
            n = m;
        }
    }
    if (P[P_RFAIL_ERR] && (int)P[P_RFAIL_WHO] == k - 1 && (P[P_RFAIL_STICKY] || !rfailed) && here + n > P[P_RFAIL_AT]) {
        if (here < P[P_RFAIL_AT]) {
            n = P[P_RFAIL_AT] - here;
        } else {
            rfailed = 1;
            T->rerr++;
            errno = P[P_RFAIL_ERR];
            return -1;
        }
    }
    ssize_t r = at < 0 ? syscall(SYS_read, fd, buf, n) : syscall(SYS_pread64, fd, buf, n, at);
    if (r > 0) {
        T->rbytes[k - 1] += r;
        if (at < 0) pos[fd] += r;
    } else if (r == 0 && n) {
        T->reof[k - 1]++;
    }
    return r;
}
ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n, -1); }
ssize_t pread(int fd, void *buf, size_t n, off_t at) { return do_read(fd, buf, n, at); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t at) { return do_read(fd, buf, n, at); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!on) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}

static ssize_t do_write(int fd, const void *buf, size_t n) {
    int k = fd >= 0 && fd < 1024 ? kind[fd] : 0;
    if (!on) return syscall(SYS_write, fd, buf, n);
    step();
    if (k == 1 || k == 2) return stray("write to input", "");
    if (k != 3) {
        if (fd == 2) T->ebytes += n;
        return syscall(SYS_write, fd, buf, n);
    }
    T->writes++;
    if (!n) return 0;
    if (next() % 1000 < P[P_WINTR] && intr_run < 20) {
        intr_run++;
        T->wintr++;
        errno = EINTR;
        return -1;
    }
    intr_run = 0;
    if (next() % 1000 < P[P_WSHORT]) {
        size_t m = 1 + next() % n;
        if (m < n) {
            T->wshort++;
            n = m;
        }
    }
    if (P[P_WMAX] && n > P[P_WMAX]) {
        n = P[P_WMAX];
        T->wshort++;
    }
    if (P[P_WFAIL_ON] && (P[P_WFAIL_STICKY] || !wfailed) && T->wbytes + n > P[P_WFAIL_AT]) {
        if (T->wbytes < P[P_WFAIL_AT]) {
            n = P[P_WFAIL_AT] - T->wbytes;
            T->wshort++;
        } else {
            wfailed = 1;
            T->werr++;
            if (!P[P_WFAIL_ERR]) {
                T->wzero++;
                return 0;
            }
            errno = P[P_WFAIL_ERR];
            return -1;
        }
    }
    ssize_t r = syscall(SYS_write, fd, buf, n);
    if (r > 0) T->wbytes += r;
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    int k = fd >= 0 && fd < 1024 ? kind[fd] : 0;
    if (!on || k == 0) return syscall(SYS_writev, fd, v, c);
    ssize_t total = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return total ? total : r;
        total += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return total;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t at) {
    if (on && fd >= 0 && fd < 1024 && (kind[fd] == 1 || kind[fd] == 2)) return stray("write to input", "");
    if (on) step();
    return syscall(SYS_pwrite64, fd, buf, n, at);
}
int ftruncate64(int fd, off64_t n) {
    if (on) step();
    if (on && fd >= 0 && fd < 1024 && kind[fd] != 3) return stray("truncate", "");
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int close(int fd) {
    step();
    if (fd > 2 && fd < 1024) kind[fd] = 0;
    return syscall(SYS_close, fd);
}
int fsync(int fd) { step(); T->syncs++; return syscall(SYS_fsync, fd); }

// Positions and mappings.
off64_t lseek64(int fd, off64_t n, int how) {
    if (on) step();
    if (piped_fd(fd)) {
        errno = ESPIPE;
        return -1;
    }
    off64_t r = syscall(SYS_lseek, fd, n, how);
    if (r >= 0 && fd < 1024) pos[fd] = r;
    return r;
}
off_t lseek(int fd, off_t n, int how) { return lseek64(fd, n, how); }
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t at) {
    if (!(flags & MAP_ANONYMOUS) && piped_fd(fd)) {
        errno = ENODEV;
        return MAP_FAILED;
    }
    return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, at);
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t at) { return mmap64(a, n, prot, flags, fd, at); }

// What kind of file it is and when it was written.
static mode_t mode_of(int w, int fd, mode_t m) {
    if (piped(w)) return S_IFIFO | 0600;
    if (on && fd >= 0 && fd < 3 && P[P_TTY] >> fd & 1) return S_IFCHR | 0620;
    return m;
}
static int64_t time_of(int w, int64_t t) { return on && (w == 1 || w == 2) && P[P_CLOCK] ? (int64_t)(P[P_CLOCK] / 1000) - 3600 * w : t; }

// Size queries about the inputs: fail, or say something else, as on special
// files and files that change.
static int stat_fault(int w, int64_t *size) {
    if (piped(w)) *size = 0;
    if (!on || !P[P_STAT_KIND] || (w != 1 && w != 2) || (int)P[P_STAT_WHO] != w - 1) return 0;
    T->staterr++;
    switch (P[P_STAT_KIND]) {
    case 6: return 0;
    case 1: errno = EIO; return -1;
    case 2: *size = 0; return 0;
    case 3: *size = *size / 2; return 0;
    case 4: *size = *size + 1 + *size / 3; return 0;
    default: errno = EACCES; return -1;
    }
}
int statx(int at, const char *path, int flags, unsigned mask, struct statx *b) {
    if (on) step();
    int r = syscall(SYS_statx, at, path, flags, mask, b);
    if (r || !on) return r;
    int w = path[0] ? whose(path) : (at >= 0 && at < 1024 ? kind[at] : 0);
    int64_t s = b->stx_size;
    r = stat_fault(w, &s);
    b->stx_size = s;
    b->stx_mode = mode_of(w, path[0] ? -1 : at, b->stx_mode);
    b->stx_mtime.tv_sec = time_of(w, b->stx_mtime.tv_sec);
    return r;
}
int fstat64(int fd, struct stat64 *b) {
    if (on) step();
    int r = syscall(SYS_fstat, fd, b);
    if (r || !on) return r;
    int64_t s = b->st_size;
    int w = fd >= 0 && fd < 1024 ? kind[fd] : 0;
    r = stat_fault(w, &s);
    b->st_size = s;
    b->st_mode = mode_of(w, fd, b->st_mode);
    b->st_mtim.tv_sec = time_of(w, b->st_mtim.tv_sec);
    return r;
}
int fstat(int fd, struct stat *b) { return fstat64(fd, (struct stat64 *)b); }
int stat64(const char *p, struct stat64 *b) {
    if (on) step();
    int r = syscall(SYS_stat, p, b);
    if (r || !on) return r;
    int64_t s = b->st_size;
    int w = whose(p);
    r = stat_fault(w, &s);
    b->st_size = s;
    b->st_mode = mode_of(w, -1, b->st_mode);
    b->st_mtim.tv_sec = time_of(w, b->st_mtim.tv_sec);
    return r;
}
int stat(const char *p, struct stat *b) { return stat64(p, (struct stat64 *)b); }

// Memory.
static int no_memory(size_t n) {
    if (!on) return 0;
    if (n > (256u << 20)) {
        T->huge++;
        errno = ENOMEM;
        return 1;
    }
    T->mallocs++;
    if (P[P_MFAIL_AT] && T->mallocs >= P[P_MFAIL_AT]) {
        T->mfailed++;
        errno = ENOMEM;
        return 1;
    }
    return 0;
}
void *malloc(size_t n) { return no_memory(n) ? 0 : __libc_malloc(n); }
void *calloc(size_t m, size_t n) { return no_memory(m * n) ? 0 : __libc_calloc(m, n); }
void *realloc(void *p, size_t n) { return no_memory(n) ? 0 : __libc_realloc(p, n); }
int posix_memalign(void **r, size_t a, size_t n) {
    if (no_memory(n)) return ENOMEM;
    *r = __libc_memalign(a, n);
    return *r ? 0 : ENOMEM;
}

// Randomness, clocks, identity.
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    T->hash++;
    uint64_t keep = rng;
    rng = P[P_HASH] ^ 0x5851F42D4C957F2Dull * T->hash;
    for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = next();
    rng = keep;
    return n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    (void)c;
    T->clock++;
    t->tv_sec = P[P_CLOCK] / 1000 + T->clock;
    t->tv_nsec = P[P_CLOCK] % 1000 * 1000000;
    return 0;
}
int gettimeofday(struct timeval *t, void *z) {
    (void)z;
    T->clock++;
    t->tv_sec = P[P_CLOCK] / 1000 + T->clock;
    t->tv_usec = 0;
    return 0;
}
time_t time(time_t *t) {
    T->clock++;
    time_t r = P[P_CLOCK] / 1000 + T->clock;
    if (t) *t = r;
    return r;
}
pid_t getpid(void) {
    if (!on || !P[P_PID]) return syscall(SYS_getpid);
    T->pid++;
    return P[P_PID];
}

// Terminals, processors, variables.
int isatty(int fd) {
    if (on && fd >= 0 && fd < 3) {
        T->tty++;
        if (P[P_TTY] >> fd & 1) return 1;
    }
    errno = ENOTTY;
    return 0;
}
int ioctl(int fd, unsigned long what, ...) {
    va_list a;
    va_start(a, what);
    void *p = va_arg(a, void *);
    va_end(a);
    if (on && what == TIOCGWINSZ && fd >= 0 && fd < 3 && P[P_TTY] >> fd & 1) {
        struct winsize *w = p;
        memset(w, 0, sizeof *w);
        w->ws_row = 25;
        w->ws_col = P[P_TTY] >> 8;
        T->tty++;
        return 0;
    }
    return syscall(SYS_ioctl, fd, what, p);
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
    if (!on || !P[P_CPUS]) {
        int r = syscall(SYS_sched_getaffinity, p, n, s);
        if (r < 0) return -1;
        memset((char *)s + r, 0, n - r);
        return 0;
    }
    T->cpus++;
    memset(s, 0, n);
    for (uint64_t i = 0; i < P[P_CPUS] && i < n * 8; i++) ((unsigned char *)s)[i / 8] |= 1 << i % 8;
    return 0;
}
// Every variable may be set to something. Those of Rust itself are left alone:
// they change what a crash looks like and how large stacks are.
extern char **environ;
char *getenv(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    if (!on || !P[P_ENV] || !strncmp(name, "RUST", 4)) return 0;
    T->env++;
    static char *const values[] = {"1", "0", "3", "20", "200", "json", "csv", "text", "true", "never", "always", "xterm-256color", "de_DE.UTF-8", "/nonexistent", ""};
    uint64_t h = P[P_ENV];
    for (; *name; name++) h = (h ^ (unsigned char)*name) * 0x100000001B3ull;
    h ^= h >> 29;
    h *= 0xBF58476D1CE4E5B9ull;
    h ^= h >> 32;
    return h & 1 ? values[(h >> 1) % (sizeof values / sizeof *values)] : 0;
}
