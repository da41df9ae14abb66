/* Interposes the file-system calls of a process (LD_PRELOAD) below one scratch
 * directory, so that a driver can look at the directory before every single
 * call, stop there, or make the call fail.
 *
 * The callback gets (op, path, length) and returns
 *    0       go on
 *   -errno   fail
 *    n > 0   (write only) write n bytes and report a short write
 *  100000    raise SIGINT, then go on
 * A write is performed in two halves with a callback ("mid") in between. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

typedef int (*cb_t)(const char *, const char *, long);
static cb_t cb;
static char prefix[PATH_MAX];
static __thread int inside;
#define MAXFD 4096
static char *fdpath[MAXFD];

void fsx_arm(const char *p, cb_t f) { snprintf(prefix, sizeof prefix, "%s", p); cb = f; }
void fsx_disarm(void) { cb = 0; }

static int under(const char *p) {
    size_t n = strlen(prefix);
    return p && !strncmp(p, prefix, n) && (p[n] == '/' || p[n] == 0);
}
static const char *at(int dir, const char *p, char *buf) {
    char l[64];
    ssize_t n;
    if (!p || p[0] == '/' || dir == AT_FDCWD) {
        if (p && p[0] != '/' && dir == AT_FDCWD && getcwd(buf, PATH_MAX / 2)) {
            strcat(buf, "/");
            strncat(buf, p, PATH_MAX / 2 - 2);
            return buf;
        }
        return p;
    }
    snprintf(l, sizeof l, "/proc/self/fd/%d", dir);
    n = readlink(l, buf, PATH_MAX / 2);
    if (n < 0) return p;
    buf[n] = '/';
    buf[n + 1] = 0;
    strncat(buf, p, PATH_MAX / 2 - 2);
    return buf;
}
static int ask(const char *op, const char *path, long len) {
    int r;
    if (!cb || inside || !under(path)) return 0;
    inside = 1;
    r = cb(op, path, len);
    inside = 0;
    if (r == 100000) { cb = 0; raise(SIGINT); r = 0; }
    return r;
}
#define REAL(t, name, ...) static t (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)
#define FAIL(r) do { if ((r) < 0) { errno = -(r); return -1; } } while (0)

static int doopen(int (*real)(int, const char *, int, ...), int dir, const char *p, int fl, int mode) {
    char buf[PATH_MAX];
    const char *full = at(dir, p, buf);
    int fd, r = 0;
    int w = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC));
    if (cb && !inside && under(full)) { r = ask(w ? "openw" : "openr", full, fl); FAIL(r); }
    fd = real(dir, p, fl, mode);
    if (fd >= 0 && fd < MAXFD) {
        free(fdpath[fd]);
        fdpath[fd] = cb && !inside && under(full) ? strdup(full) : 0;
    }
    return fd;
}
#define MODE int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int fl, ...) { REAL(int, "openat", int, const char *, int, ...); MODE return doopen(real, AT_FDCWD, p, fl, mode); }
int open64(const char *p, int fl, ...) { REAL(int, "openat64", int, const char *, int, ...); MODE return doopen(real, AT_FDCWD, p, fl, mode); }
int openat(int d, const char *p, int fl, ...) { REAL(int, "openat", int, const char *, int, ...); MODE return doopen(real, d, p, fl, mode); }
int openat64(int d, const char *p, int fl, ...) { REAL(int, "openat64", int, const char *, int, ...); MODE return doopen(real, d, p, fl, mode); }
int creat(const char *p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }

static const char *fp(int fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : 0; }
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    const char *p = cb && !inside ? fp(fd) : 0;
    ssize_t k, h;
    int r;
    if (!p) return real(fd, b, n);
    r = ask("write", p, n);
    FAIL(r);
    if (r > 0) return real(fd, b, (size_t)r < n ? (size_t)r : n);
    if (n < 2) return real(fd, b, n);
    k = real(fd, b, n / 2);
    if (k < 0) return k;
    r = ask("mid", p, n);
    if (r < 0) return k;
    h = real(fd, (const char *)b + k, n - k);
    return h < 0 ? k : k + h;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    int r = ask("write", fp(fd), n);
    FAIL(r);
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    int r = ask("write", fp(fd), c);
    FAIL(r);
    return real(fd, v, c);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t);
    const char *p = cb && !inside ? fp(fd) : 0;
    if (p) { int r = ask("read", p, n); FAIL(r); }
    return real(fd, b, n);
}
int close(int fd) {
    REAL(int, "close", int);
    const char *p = cb && !inside ? fp(fd) : 0;
    int r = 0;
    if (p) r = ask("close", p, 0);
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; }
    if (r < 0) { real(fd); errno = -r; return -1; }
    return real(fd);
}
#define FD1(name) int name(int fd) { REAL(int, #name, int); const char *p = cb && !inside ? fp(fd) : 0; \
    if (p) { int r = ask(#name, p, 0); FAIL(r); } return real(fd); }
FD1(fsync)
FD1(fdatasync)
#define P1(name) int name(const char *p) { REAL(int, #name, const char *); char b[PATH_MAX]; \
    if (cb && !inside) { int r = ask(#name, at(AT_FDCWD, p, b), 0); FAIL(r); } return real(p); }
P1(unlink)
P1(rmdir)
P1(remove)
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); char b[PATH_MAX];
    if (cb && !inside) { int r = ask("unlink", at(d, p, b), 0); FAIL(r); } return real(d, p, f); }
#define P2(name) int name(const char *p, const char *q) { REAL(int, #name, const char *, const char *); char b[PATH_MAX]; \
    if (cb && !inside) { int r = ask(#name, at(AT_FDCWD, q, b), 0); FAIL(r); } return real(p, q); }
P2(rename)
P2(link)
P2(symlink)
int renameat(int d, const char *p, int e, const char *q) { REAL(int, "renameat", int, const char *, int, const char *); char b[PATH_MAX];
    if (cb && !inside) { int r = ask("rename", at(e, q, b), 0); FAIL(r); } return real(d, p, e, q); }
int renameat2(int d, const char *p, int e, const char *q, unsigned f) { REAL(int, "renameat2", int, const char *, int, const char *, unsigned); char b[PATH_MAX];
    if (cb && !inside) { int r = ask("rename", at(e, q, b), 0); FAIL(r); } return real(d, p, e, q, f); }
int linkat(int d, const char *p, int e, const char *q, int f) { REAL(int, "linkat", int, const char *, int, const char *, int); char b[PATH_MAX];
    if (cb && !inside) { int r = ask("link", at(e, q, b), 0); FAIL(r); } return real(d, p, e, q, f); }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); char b[PATH_MAX];
    if (cb && !inside) { int r = ask("mkdir", at(AT_FDCWD, p, b), 0); FAIL(r); } return real(p, m); }
int chmod(const char *p, mode_t m) { REAL(int, "chmod", const char *, mode_t); char b[PATH_MAX];
    if (cb && !inside) { int r = ask("chmod", at(AT_FDCWD, p, b), 0); FAIL(r); } return real(p, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { REAL(int, "fchmodat", int, const char *, mode_t, int); char b[PATH_MAX];
    if (cb && !inside) { int r = ask("chmod", at(d, p, b), 0); FAIL(r); } return real(d, p, m, f); }
int fchmod(int fd, mode_t m) { REAL(int, "fchmod", int, mode_t); const char *p = cb && !inside ? fp(fd) : 0;
    if (p) { int r = ask("chmod", p, 0); FAIL(r); } return real(fd, m); }
int truncate64(const char *p, off64_t n) { REAL(int, "truncate64", const char *, off64_t); char b[PATH_MAX];
    if (cb && !inside) { int r = ask("truncate", at(AT_FDCWD, p, b), n); FAIL(r); } return real(p, n); }
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); const char *p = cb && !inside ? fp(fd) : 0;
    if (p) { int r = ask("truncate", p, n); FAIL(r); } return real(fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) { REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t); const char *p = cb && !inside ? fp(o) : 0;
    if (p) { int r = ask("write", p, n); FAIL(r); } return real(o, i, f, n); }
ssize_t sendfile(int o, int i, off_t *f, size_t n) { return sendfile64(o, i, (off64_t *)f, n); }
ssize_t copy_file_range(int i, off64_t *fi, int o, off64_t *fo, size_t n, unsigned fl) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned); const char *p = cb && !inside ? fp(o) : 0;
    if (p) { int r = ask("write", p, n); FAIL(r); } return real(i, fi, o, fo, n, fl); }
