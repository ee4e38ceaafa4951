/* Interposed on the program under test with LD_PRELOAD: controls the seed of
 * hash randomisation, records the I/O calls that the program makes, and makes
 * chosen ones fail, be interrupted, or transfer fewer bytes than asked.
 *
 *  SHIM_SEED=N              getrandom() returns a stream that depends on N
 *  SHIM_TIME=N              the real-time clock is N seconds off
 *  SHIM_TTY=1               every descriptor is said to be a terminal
 *  SHIM_LOG=FILE            append one line per open/read/write/getenv/... call
 *  SHIM_FAULT=call:n:what[,...]  call: open read write mkdir; n: which call
 *                           (1..), '*' for every one or 'N+' for this one and
 *                           those after it; what: an errno number, "short"
 *                           (one byte), "half", or "eintr" (every other
 *                           matching call is interrupted)
 * Only the program under test is affected, not the programs that it runs.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static int ready, logfd = -1;
static long time_off;
static int have_seed, tty; static uint64_t seed, seed0;
static struct fault { char call[16]; long n; int plus, err, shrt, half, eintr, flip; } F[8];
static int nf;
static long n_open, n_read, n_write, n_mkdir;

static void init(void) {
    if (ready) return;
    ready = 1;
    char exe[4096];
    ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (l < 0) return;
    exe[l] = 0;
    char *base = strrchr(exe, '/');
    if (!base || strncmp(base + 1, "accountmerge", 12)) return;
    const char *s = getenv("SHIM_SEED");
    if (s) { have_seed = 1; seed = strtoull(s, 0, 10) * 0x9E3779B97F4A7C15ull + 1; seed0 = seed; }
    tty = getenv("SHIM_TTY") != 0;
    s = getenv("SHIM_TIME");
    if (s) time_off = atol(s);
    s = getenv("SHIM_LOG");
    if (s) logfd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    char *c = getenv("SHIM_FAULT");
    while (c && *c && nf < 8) {
        char what[16] = "", n[16] = "";
        struct fault *f = &F[nf];
        if (sscanf(c, "%15[^:]:%15[^:]:%15[^,]", f->call, n, what) == 3) {
            nf++;
            f->n = n[0] == '*' ? -1 : atol(n);
            f->plus = strchr(n, '+') != 0;
            if (!strcmp(what, "short")) f->shrt = 1;
            else if (!strcmp(what, "half")) f->half = 1;
            else if (!strcmp(what, "eintr")) f->eintr = 1;
            else f->err = atoi(what);
        }
        c = strchr(c, ',');
        if (c) c++;
    }
}
__attribute__((constructor)) static void start(void) { init(); }

static void logf_(const char *fmt, ...) {
    if (logfd < 0) return;
    char buf[4400];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    if (n > 0) syscall(SYS_write, logfd, buf, n);
}

/* 0: no fault; 1: fail with errno set; 2: one byte only; 3: half */
static int fault(const char *call, long k) {
    int r = 0;
    for (int i = 0; i < nf; i++) {
        struct fault *f = &F[i];
        if (strcmp(call, f->call)) continue;
        if (f->n != -1 && f->n != k && !(f->plus && k > f->n)) continue;
        if (f->eintr) { f->flip = !f->flip; if (f->flip) { errno = EINTR; return 1; } continue; }
        if (f->shrt) { r = 2; continue; }
        if (f->half) { r = 3; continue; }
        errno = f->err;
        return 1;
    }
    return r;
}
static size_t part(int f, size_t n) { return f == 2 && n > 1 ? 1 : f == 3 && n > 1 ? n / 2 : n; }

extern char **environ;
char *getenv(const char *name) {
    size_t n = strlen(name);
    if (ready) logf_("getenv %s\n", name);
    for (char **e = environ; n && e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return 0;
}

pid_t getpid(void) {
    init();
    pid_t p = syscall(SYS_getpid);
    return have_seed ? 2 + (pid_t)((p + seed0) % 30000) : p;
}

int gethostname(char *buf, size_t n) {
    init();
    logf_("gethostname\n");
    snprintf(buf, n, "host%u", (unsigned)(seed0 % 100000));
    return 0;
}

int isatty(int fd) {
    init();
    if (tty) return 1;
    char b[64];
    return syscall(SYS_ioctl, fd, 0x5401 /* TCGETS */, b) == 0;
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    init();
    logf_("getrandom %zu\n", n);
    if (!have_seed) return syscall(SYS_getrandom, buf, n, flags);
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) {
        seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
        p[i] = (unsigned char)(seed >> 33);
    }
    return n;
}

int clock_gettime(clockid_t c, struct timespec *ts) {
    init();
    int r = syscall(SYS_clock_gettime, c, ts);
    if (r == 0 && c == CLOCK_REALTIME) ts->tv_sec += time_off;
    return r;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    init();
    n_open++;
    int r;
    if (fault("open", n_open) == 1) r = -1;
    else r = syscall(SYS_openat, dirfd, path, flags, mode);
    int e = errno;
    logf_("open %d %d %s\n", r, flags & (O_ACCMODE | O_TRUNC | O_CREAT | O_DIRECTORY), path);
    errno = e;
    return r;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, m); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags | O_LARGEFILE, m); }

ssize_t read(int fd, void *buf, size_t n) {
    init();
    n_read++;
    ssize_t r;
    int f = fault("read", n_read);
    if (f == 1) r = -1;
    else r = syscall(SYS_read, fd, buf, part(f, n));
    int e = errno;
    logf_("read %d %zd\n", fd, r);
    errno = e;
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
    init();
    if (fd == 2) return syscall(SYS_write, fd, buf, n);
    n_write++;
    ssize_t r;
    int f = fault("write", n_write);
    if (f == 1) r = -1;
    else r = syscall(SYS_write, fd, buf, part(f, n));
    int e = errno;
    logf_("write %d %zd %zu\n", fd, r, n);
    errno = e;
    return r;
}
int unlink(const char *p) { init(); logf_("unlink %s\n", p); return syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int rename(const char *a, const char *b) { init(); logf_("rename %s %s\n", a, b); return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
int mkdir(const char *p, mode_t m) {
    init();
    n_mkdir++;
    int r = fault("mkdir", n_mkdir) == 1 ? -1 : (int)syscall(SYS_mkdirat, AT_FDCWD, p, m);
    int e = errno;
    logf_("mkdir %d %s\n", r, p);
    errno = e;
    return r;
}
