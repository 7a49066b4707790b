/* LD_PRELOAD seam of the command-line tool: opens, reads and sizes of two named files follow a plan;
 * hash seeds come from a key. Everything else goes to the real libc.
 *   SIM_F<i>  path of file i (0 = grammar, 1 = script)
 *   SIM_O<i>  errno for its open, or 0
 *   SIM_S<i>  size queries: 0 real, 1 fail with EIO, 2 size 0
 *   SIM_R<i>  one step per read: n normal, i interrupted, sK at most K bytes, eN fails with errno N
 *   SIM_KEY   key of the hash seeds
 *   SIM_LOG   fired faults are appended here, one line each
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int owner[1024]; /* 0 = not ours, else file + 1 */
static char *plan_at[2];
static int started[2];

static void note(int f, const char *what, int n) {
    const char *p = getenv("SIM_LOG");
    if (!p) return;
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd < 0) return;
    char b[64];
    int l = snprintf(b, sizeof b, "%d %s %d\n", f, what, n);
    syscall(SYS_write, fd, b, l);
    syscall(SYS_close, fd);
}

static char *env(const char *k, int f) {
    char n[16];
    snprintf(n, sizeof n, "%s%d", k, f);
    return getenv(n);
}

static int which(const char *path) {
    for (int f = 0; f < 2; f++) {
        char *p = env("SIM_F", f);
        if (p && path && strcmp(p, path) == 0) return f;
    }
    return -1;
}

static int do_open(int dir, const char *path, int flags, mode_t mode) {
    int f = which(path);
    if (f >= 0) {
        char *o = env("SIM_O", f);
        if (o && atoi(o)) {
            note(f, "open", atoi(o));
            errno = atoi(o);
            return -1;
        }
    }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (fd >= 0 && fd < 1024) {
        owner[fd] = f + 1;
        if (f >= 0 && !started[f]) {
            started[f] = 1;
            plan_at[f] = env("SIM_R", f);
        }
    }
    return fd;
}

#define MODE                                  \
    mode_t mode = 0;                          \
    if (flags & (O_CREAT | O_TMPFILE)) {      \
        va_list ap;                           \
        va_start(ap, flags);                  \
        mode = va_arg(ap, mode_t);            \
        va_end(ap);                           \
    }

int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }

int close(int fd) {
    if (fd >= 0 && fd < 1024) owner[fd] = 0;
    return syscall(SYS_close, fd);
}

/* Number of bytes the next read may return, or -1 with errno set. */
static ssize_t step(int fd, size_t n) {
    if (fd < 0 || fd >= 1024 || owner[fd] == 0) return n;
    int f = owner[fd] - 1;
    char *p = plan_at[f];
    if (!p || !*p) return n;
    char k = *p++;
    long v = 0;
    while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0');
    while (*p == ' ') p++;
    plan_at[f] = p;
    switch (k) {
    case 'i':
        note(f, "eintr", 0);
        errno = EINTR;
        return -1;
    case 's':
        if ((size_t)v < n) {
            note(f, "short", v);
            return v;
        }
        return n;
    case 'e':
        note(f, "read", v);
        errno = v;
        return -1;
    }
    return n;
}

ssize_t read(int fd, void *buf, size_t n) {
    if (n == 0) return syscall(SYS_read, fd, buf, n);
    ssize_t m = step(fd, n);
    if (m < 0) return -1;
    return syscall(SYS_read, fd, buf, (size_t)m);
}

ssize_t pread64(int fd, void *buf, size_t n, off_t at) {
    ssize_t m = n ? step(fd, n) : 0;
    if (m < 0) return -1;
    return syscall(SYS_pread64, fd, buf, (size_t)m, at);
}

ssize_t readv(int fd, const struct iovec *v, int c) {
    if (c > 0 && fd >= 0 && fd < 1024 && owner[fd]) {
        for (int i = 0; i < c; i++)
            if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    }
    return syscall(SYS_readv, fd, v, c);
}

static int size_plan(int fd) {
    if (fd < 0 || fd >= 1024 || owner[fd] == 0) return 0;
    char *p = env("SIM_S", owner[fd] - 1);
    int k = p ? atoi(p) : 0;
    if (k) note(owner[fd] - 1, k == 1 ? "stat" : "size0", k);
    return k;
}

int statx(int d, const char *path, int flags, unsigned mask, struct statx *b) {
    /* declared nonnull, but std probes with a null path */
    const char *volatile p = path;
    const char *q = p;
    int k = q && !*q ? size_plan(d) : 0;
    if (k == 1) {
        errno = EIO;
        return -1;
    }
    int r = syscall(SYS_statx, d, q, flags, mask, b);
    if (r == 0 && k == 2 && b) b->stx_size = 0;
    return r;
}

int fstat64(int fd, struct stat64 *b) {
    int k = size_plan(fd);
    if (k == 1) {
        errno = EIO;
        return -1;
    }
    int r = syscall(SYS_fstat, fd, b);
    if (r == 0 && k == 2) b->st_size = 0;
    return r;
}

int fstat(int fd, struct stat *b) { return fstat64(fd, (struct stat64 *)b); }

static uint64_t state;

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    char *k = getenv("SIM_KEY");
    if (!k) return syscall(SYS_getrandom, buf, n, flags);
    if (!state) state = strtoull(k, 0, 10) | 1;
    unsigned char *b = buf;
    for (size_t i = 0; i < n; i++) {
        state += 0x9E3779B97F4A7C15ull;
        uint64_t z = state;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        b[i] = (unsigned char)(z >> 56);
    }
    return n;
}
