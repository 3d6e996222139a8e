/* Counts the calls that change the filesystem under one directory and makes
 * the k-th of them crash or fail.  Loaded with LD_PRELOAD, armed from inside
 * the process through fsf_arm(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, COUNT, KILL_BEFORE, KILL_AFTER, FAIL, TORN_KILL, TORN_FAIL, SHORT };
static int mode = OFF, at = -1, seen = 0, err = 0, busy = 0;
static long keep = 0;
static char root[PATH_MAX];
static char trace[1 << 16];
static size_t tlen = 0;

void fsf_arm(const char *dir, int m, int k, int e, long n) {
    strncpy(root, dir, sizeof root - 1);
    at = k; err = e; keep = n; seen = 0; tlen = 0; trace[0] = 0; mode = m;
}
int fsf_disarm(void) { mode = OFF; return seen; }
const char *fsf_trace(void) { return trace; }

static int under_path(const char *p) {
    char buf[PATH_MAX];
    if (mode == OFF || busy || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, sizeof buf)) return 0;
        return strncmp(buf, root, strlen(root)) == 0;
    }
    return strncmp(p, root, strlen(root)) == 0;
}
static int under_fd(int fd) {
    char l[64], buf[PATH_MAX];
    ssize_t n;
    if (mode == OFF || busy) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    n = readlink(l, buf, sizeof buf - 1);
    if (n < 0) return 0;
    buf[n] = 0;
    return strncmp(buf, root, strlen(root)) == 0;
}
static void note(const char *name, long n) {
    if (tlen < sizeof trace - 64)
        tlen += snprintf(trace + tlen, 60, "%s:%ld\n", name, n);
}
/* 0: do it; 1: fail it; 2: torn */
static int gate(const char *name, long n) {
    int me = seen++;
    note(name, n);
    if (me != at) return 0;
    if (mode == KILL_BEFORE) kill(getpid(), SIGKILL);
    if (mode == FAIL) { errno = err; return 1; }
    if ((mode == TORN_KILL || mode == TORN_FAIL || mode == SHORT)) return n >= 0 ? 2 : 0;
    return 0;
}
static void done(int me) {
    if (me == at && mode == KILL_AFTER) kill(getpid(), SIGKILL);
}
#define REAL(name, type) static __typeof__(type) real; if (!real) real = (__typeof__(type))dlsym(RTLD_NEXT, #name)

#define WRITE_BODY(call, fullcall, cnt) \
    if (!under_fd(fd)) return fullcall; \
    { int me = seen, g = gate("write", (long)(cnt)); ssize_t r; \
      if (g == 1) return -1; \
      if (g == 2) { size_t n = keep < 0 ? (cnt) / 2 : (size_t)keep; \
        if (n > (cnt)) n = (cnt); \
        if (n == 0 && mode == SHORT && (cnt)) n = 1; \
        r = n ? call : 0; \
        if (mode == TORN_KILL) kill(getpid(), SIGKILL); \
        if (mode == TORN_FAIL) { errno = err; return -1; } \
        return r; } \
      r = fullcall; done(me); return r; }

ssize_t write(int fd, const void *b, size_t c) {
    REAL(write, ssize_t (*)(int, const void *, size_t));
    WRITE_BODY(real(fd, b, n), real(fd, b, c), c)
}
ssize_t pwrite64(int fd, const void *b, size_t c, off64_t o) {
    REAL(pwrite64, ssize_t (*)(int, const void *, size_t, off64_t));
    WRITE_BODY(real(fd, b, n, o), real(fd, b, c, o), c)
}
ssize_t pwrite(int fd, const void *b, size_t c, off_t o) {
    REAL(pwrite, ssize_t (*)(int, const void *, size_t, off_t));
    WRITE_BODY(real(fd, b, n, o), real(fd, b, c, o), c)
}
static ssize_t first(ssize_t (*real)(int, const struct iovec *, int), int fd,
                     const struct iovec *v, size_t n) {
    struct iovec x = v[0];
    if (x.iov_len > n) x.iov_len = n;
    return real(fd, &x, 1);
}
ssize_t writev(int fd, const struct iovec *v, int nv) {
    REAL(writev, ssize_t (*)(int, const struct iovec *, int));
    size_t c = 0; int i;
    for (i = 0; i < nv; i++) c += v[i].iov_len;
    WRITE_BODY(first(real, fd, v, n), real(fd, v, nv), c)
}
static int changes(int fl) { return (fl & (O_CREAT | O_TRUNC)) != 0; }
#define OPEN_BODY(path, call) \
    if (!changes(fl) || !under_path(path)) return call; \
    { int me = seen, r; if (gate("open", -1)) return -1; r = call; done(me); return r; }
#define GETM mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { GETM REAL(open, int (*)(const char *, int, ...)); OPEN_BODY(p, real(p, fl, m)) }
int open64(const char *p, int fl, ...) { GETM REAL(open64, int (*)(const char *, int, ...)); OPEN_BODY(p, real(p, fl, m)) }
int openat(int d, const char *p, int fl, ...) { GETM REAL(openat, int (*)(int, const char *, int, ...)); OPEN_BODY(p, real(d, p, fl, m)) }
int openat64(int d, const char *p, int fl, ...) { GETM REAL(openat64, int (*)(int, const char *, int, ...)); OPEN_BODY(p, real(d, p, fl, m)) }
int creat(const char *p, mode_t m) { int fl = O_CREAT; REAL(creat, int (*)(const char *, mode_t)); OPEN_BODY(p, real(p, m)) }

#define SIMPLE(cond, name, call) \
    if (!(cond)) return call; \
    { int me = seen, r; if (gate(name, -1)) return -1; r = call; done(me); return r; }
int rename(const char *a, const char *b) { REAL(rename, int (*)(const char *, const char *)); SIMPLE(under_path(a) || under_path(b), "rename", real(a, b)) }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat, int (*)(int, const char *, int, const char *)); SIMPLE(under_path(a) || under_path(b), "rename", real(x, a, y, b)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { REAL(renameat2, int (*)(int, const char *, int, const char *, unsigned)); SIMPLE(under_path(a) || under_path(b), "rename", real(x, a, y, b, f)) }
int unlink(const char *a) { REAL(unlink, int (*)(const char *)); SIMPLE(under_path(a), "unlink", real(a)) }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat, int (*)(int, const char *, int)); SIMPLE(under_path(a), "unlink", real(d, a, f)) }
int remove(const char *a) { REAL(remove, int (*)(const char *)); SIMPLE(under_path(a), "unlink", real(a)) }
int link(const char *a, const char *b) { REAL(link, int (*)(const char *, const char *)); SIMPLE(under_path(a) || under_path(b), "link", real(a, b)) }
int linkat(int x, const char *a, int y, const char *b, int f) { REAL(linkat, int (*)(int, const char *, int, const char *, int)); SIMPLE(under_path(a) || under_path(b), "link", real(x, a, y, b, f)) }
int symlink(const char *a, const char *b) { REAL(symlink, int (*)(const char *, const char *)); SIMPLE(under_path(b), "link", real(a, b)) }
int truncate(const char *a, off_t n) { REAL(truncate, int (*)(const char *, off_t)); SIMPLE(under_path(a), "truncate", real(a, n)) }
int truncate64(const char *a, off64_t n) { REAL(truncate64, int (*)(const char *, off64_t)); SIMPLE(under_path(a), "truncate", real(a, n)) }
int ftruncate(int fd, off_t n) { REAL(ftruncate, int (*)(int, off_t)); SIMPLE(under_fd(fd), "truncate", real(fd, n)) }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64, int (*)(int, off64_t)); SIMPLE(under_fd(fd), "truncate", real(fd, n)) }
int chmod(const char *a, mode_t m) { REAL(chmod, int (*)(const char *, mode_t)); SIMPLE(under_path(a), "chmod", real(a, m)) }
int fchmod(int fd, mode_t m) { REAL(fchmod, int (*)(int, mode_t)); SIMPLE(under_fd(fd), "chmod", real(fd, m)) }
int fsync(int fd) { REAL(fsync, int (*)(int)); SIMPLE(under_fd(fd), "fsync", real(fd)) }
int fdatasync(int fd) { REAL(fdatasync, int (*)(int)); SIMPLE(under_fd(fd), "fsync", real(fd)) }
int mkdir(const char *a, mode_t m) { REAL(mkdir, int (*)(const char *, mode_t)); SIMPLE(under_path(a), "mkdir", real(a, m)) }
int rmdir(const char *a) { REAL(rmdir, int (*)(const char *)); SIMPLE(under_path(a), "rmdir", real(a)) }
ssize_t sendfile64(int fd, int in, off64_t *o, size_t c) { REAL(sendfile64, ssize_t (*)(int, int, off64_t *, size_t)); WRITE_BODY(real(fd, in, o, n), real(fd, in, o, c), c) }
ssize_t sendfile(int fd, int in, off_t *o, size_t c) { REAL(sendfile, ssize_t (*)(int, int, off_t *, size_t)); WRITE_BODY(real(fd, in, o, n), real(fd, in, o, c), c) }
int close(int fd) {
    REAL(close, int (*)(int));
    if (!under_fd(fd)) return real(fd);
    { int me = seen, r; if (gate("close", -1)) { int e = errno; real(fd); errno = e; return -1; } r = real(fd); done(me); return r; }
}
