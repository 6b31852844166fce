/* Stands between the program and the file system (LD_PRELOAD): numbers the operations which change
 * files, logs them, and makes one of them a crash, a failure or a short write.
 *
 * VF_LOG   file for the operations, one per line: number, kind, path, size
 * VF_MODE  none | before | torn | after  (SIGKILL at operation VF_AT)
 *          fail  (operations fail with VF_ERRNO from VF_AT on, VF_COUNT of them, those of VF_KINDS)
 *          short (writes are shortened or interrupted at random, from VF_AT as seed)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define NFD 4096
static char path_of[NFD][192];
static atomic_long ops, failed;
static int log_fd = -1;
static enum { NONE, BEFORE, TORN, AFTER, FAIL, SHORT } mode;
static long at = -1, count = 1L << 60;
static int err_no = ENOSPC;
static char kinds[64] = "write";
static _Atomic unsigned long long rnd;

__attribute__((constructor)) static void start(void) {
    const char *s = getenv("VF_MODE");
    const char *names[] = {"none", "before", "torn", "after", "fail", "short"};
    for (int i = 0; s && i < 6; i++)
        if (!strcmp(s, names[i])) mode = i;
    if ((s = getenv("VF_AT"))) at = atol(s);
    if ((s = getenv("VF_COUNT"))) count = atol(s);
    if ((s = getenv("VF_ERRNO"))) err_no = atoi(s);
    if ((s = getenv("VF_KINDS"))) snprintf(kinds, sizeof kinds, "%s", s);
    rnd = at * 2654435761u + 88172645463325252ull;
    if ((s = getenv("VF_LOG"))) log_fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}

static unsigned long long next(void) {
    unsigned long long x = atomic_fetch_add(&rnd, 0x9e3779b97f4a7c15ull);
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

static void die(void) {
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;) pause();
}

/* Number of this operation, after logging it */
static long op(const char *kind, const char *path, long size) {
    long n = atomic_fetch_add(&ops, 1);
    if (log_fd >= 0) {
        char b[320];
        int k = snprintf(b, sizeof b, "%ld\t%s\t%s\t%ld\n", n, kind, path, size);
        syscall(SYS_write, log_fd, b, (size_t)k);
    }
    if (mode == BEFORE && n == at) die();
    return n;
}
static void done(long n) {
    int e = errno;
    if ((mode == AFTER || mode == TORN) && n == at) die();
    errno = e;
}
static int fails(long n, const char *kind) {
    if (mode != FAIL || n < at || !strstr(kinds, kind)) return 0;
    if (atomic_fetch_add(&failed, 1) >= count) return 0;
    errno = err_no;
    return 1;
}

static int ours(const char *p) {
    return strncmp(p, "/dev/", 5) && strncmp(p, "/proc/", 6) && strncmp(p, "/sys/", 5);
}

static int do_open(int dir, const char *p, int flags, mode_t m) {
    int changes = (flags & O_ACCMODE) != O_RDONLY && ours(p);
    long n = -1;
    if (changes) {
        n = op(flags & O_TRUNC ? "trunc" : "open", p, 0);
        if (fails(n, "open")) return -1;
    }
    int fd = syscall(SYS_openat, dir, p, flags, m);
    if (fd >= 0 && fd < NFD) snprintf(path_of[fd], sizeof path_of[fd], "%s", changes ? p : "");
    if (changes) done(n);
    return fd;
}
#define MODE_ARG \
    mode_t m = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE_ARG return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE_ARG return do_open(d, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int close(int fd) {
    if (fd >= 0 && fd < NFD) path_of[fd][0] = 0;
    return syscall(SYS_close, fd);
}

static const char *tracked(int fd) {
    return fd > 2 && fd < NFD && fd != log_fd && path_of[fd][0] ? path_of[fd] : NULL;
}
static ssize_t do_write(int fd, const void *b, size_t len, int pos, off_t off) {
    const char *p = tracked(fd);
    size_t k = len;
    long n = -1;
    if (p) {
        n = op("write", p, (long)len);
        if (fails(n, "write")) return -1;
        if (mode == TORN && n == at) k = len / 2;
        if (mode == SHORT && len > 0) {
            unsigned long long x = next();
            if (x % 5 == 0) { errno = EINTR; return -1; }
            if (x % 5 < 4) k = 1 + (x >> 8) % len;
        }
    }
    ssize_t r = pos ? syscall(SYS_pwrite64, fd, b, k, off) : syscall(SYS_write, fd, b, k);
    if (p) done(n);
    return r;
}
ssize_t write(int fd, const void *b, size_t len) { return do_write(fd, b, len, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t len, off_t o) { return do_write(fd, b, len, 1, o); }
ssize_t pwrite64(int fd, const void *b, size_t len, off_t o) { return do_write(fd, b, len, 1, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    const char *p = tracked(fd);
    if (!p || c == 0) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned f) {
    long n = op("rename", b, 0);
    if (fails(n, "rename")) return -1;
    int r = syscall(SYS_renameat2, d1, a, d2, b, f);
    done(n);
    return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int x, const char *a, int y, const char *b) { return do_rename(x, a, y, b, 0); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { return do_rename(x, a, y, b, f); }

static int do_ftruncate(int fd, off_t l) {
    const char *p = tracked(fd);
    long n = -1;
    if (p) {
        n = op("ftruncate", p, (long)l);
        if (fails(n, "open")) return -1;
    }
    int r = syscall(SYS_ftruncate, fd, l);
    if (p) done(n);
    return r;
}
int ftruncate(int fd, off_t l) { return do_ftruncate(fd, l); }
int ftruncate64(int fd, off_t l) { return do_ftruncate(fd, l); }
int unlink(const char *a) {
    long n = op("unlink", a, 0);
    int r = syscall(SYS_unlink, a);
    done(n);
    return r;
}
