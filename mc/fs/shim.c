/* Records (and can fail or shorten) every operation that changes files below one directory.
   Loaded with LD_PRELOAD into the process that saves; controlled through ct_* with ctypes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <unistd.h>

static char root[PATH_MAX];
static size_t nroot;
static int on = 0, count = 0, fail_at = -1, fail_errno = 0, busy = 0;
static char *buf = NULL;
static size_t nbuf = 0, cap = 0;
static ino_t known[4096];
static int nknown = 0;

static void put(const void *p, size_t n) {
    if (nbuf + n > cap) { cap = (nbuf + n) * 2 + 4096; buf = realloc(buf, cap); }
    memcpy(buf + nbuf, p, n); nbuf += n;
}
static void put_op(char kind, long a, long b, const char *p1, const char *p2, const void *data, size_t n) {
    char h[96];
    int m = snprintf(h, sizeof h, "%c %ld %ld %zu %zu %zu\n", kind, a, b, p1 ? strlen(p1) : 0, p2 ? strlen(p2) : 0, n);
    put(h, m);
    if (p1) put(p1, strlen(p1));
    if (p2) put(p2, strlen(p2));
    if (n) put(data, n);
}
void ct_start(const char *dir, int at, int err) {
    snprintf(root, sizeof root, "%s/", dir); nroot = strlen(root);
    count = 0; fail_at = at; fail_errno = err; nbuf = 0; nknown = 0; on = 1;
}
int ct_stop(void) { on = 0; return count; }
size_t ct_size(void) { return nbuf; }
const char *ct_data(void) { return buf; }

static int under(const char *p) { return strncmp(p, root, nroot) == 0; }
static void abspath(int dfd, const char *path, char *out) {
    if (path[0] == '/') { snprintf(out, PATH_MAX, "%s", path); return; }
    char base[PATH_MAX], link[64];
    if (dfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) base[0] = 0; }
    else { snprintf(link, sizeof link, "/proc/self/fd/%d", dfd); ssize_t n = readlink(link, base, sizeof base - 1); base[n > 0 ? n : 0] = 0; }
    snprintf(out, PATH_MAX, "%s/%s", base, path);
}
/* 0: go on, -1: fail with errno, 1: do only half */
static int gate(void) {
    int i = count++;
    if (i != fail_at) return 0;
    if (fail_errno < 0) return 1;
    errno = fail_errno;
    return -1;
}
static ino_t inode(int fd) {
    struct stat s;
    if (fstat(fd, &s) != 0 || !S_ISREG(s.st_mode)) return 0;
    for (int i = 0; i < nknown; i++) if (known[i] == s.st_ino) return s.st_ino;
    return 0;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = NULL; if (!real) real = dlsym(RTLD_NEXT, name)
#define ENTER(cond) (on && !busy && (cond))

static int opened(int fd, const char *p, int flags) {
    struct stat s;
    if (fd >= 0 && fstat(fd, &s) == 0 && S_ISREG(s.st_mode)) {
        int e = errno;
        if (nknown < 4096) known[nknown++] = s.st_ino;
        put_op('o', (long) s.st_ino, (flags & O_TRUNC) ? 1 : 0, p, NULL, NULL, 0);
        errno = e;
    }
    return fd;
}
#define OPENER(NAME) \
int NAME(const char *path, int flags, ...) { \
    REAL(int, #NAME, const char *, int, ...); \
    va_list ap; va_start(ap, flags); mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); \
    char p[PATH_MAX]; \
    if (ENTER(flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) { abspath(AT_FDCWD, path, p); \
        if (under(p)) { if (gate() < 0) return -1; return opened(real(path, flags, mode), p, flags); } } \
    return real(path, flags, mode); }
OPENER(open)
OPENER(open64)
#define OPENERAT(NAME) \
int NAME(int dfd, const char *path, int flags, ...) { \
    REAL(int, #NAME, int, const char *, int, ...); \
    va_list ap; va_start(ap, flags); mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); \
    char p[PATH_MAX]; \
    if (ENTER(flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) { abspath(dfd, path, p); \
        if (under(p)) { if (gate() < 0) return -1; return opened(real(dfd, path, flags, mode), p, flags); } } \
    return real(dfd, path, flags, mode); }
OPENERAT(openat)
OPENERAT(openat64)

static ssize_t wrote(ino_t i, off_t off, const void *b, ssize_t n) {
    int e = errno;
    if (n > 0) put_op('w', (long) i, (long) off, NULL, NULL, b, n);
    errno = e;
    return n;
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    ino_t i;
    if (ENTER(1) && (i = inode(fd))) {
        int g = gate();
        if (g < 0) return -1;
        if (g > 0 && n > 1) n /= 2;
        int fl = fcntl(fd, F_GETFL);
        off_t off = (fl & O_APPEND) ? lseek(fd, 0, SEEK_END) : lseek(fd, 0, SEEK_CUR);
        return wrote(i, off, b, real(fd, b, n));
    }
    return real(fd, b, n);
}
#define PWRITER(NAME, OFF) \
ssize_t NAME(int fd, const void *b, size_t n, OFF off) { \
    REAL(ssize_t, #NAME, int, const void *, size_t, OFF); \
    ino_t i; \
    if (ENTER(1) && (i = inode(fd))) { int g = gate(); if (g < 0) return -1; if (g > 0 && n > 1) n /= 2; return wrote(i, off, b, real(fd, b, n, off)); } \
    return real(fd, b, n, off); }
PWRITER(pwrite, off_t)
PWRITER(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (ENTER(1) && inode(fd)) {
        size_t n = 0; for (int k = 0; k < c; k++) n += v[k].iov_len;
        char *t = malloc(n + 1); size_t m = 0;
        for (int k = 0; k < c; k++) { memcpy(t + m, v[k].iov_base, v[k].iov_len); m += v[k].iov_len; }
        ssize_t r = write(fd, t, n); free(t); return r;
    }
    return real(fd, v, c);
}
/* copies inside the kernel become ordinary writes of at most 4096 bytes */
static ssize_t copied(int in, off_t *off, int out, size_t n) {
    char t[4096];
    if (n > sizeof t) n = sizeof t;
    ssize_t r = off ? pread(in, t, n, *off) : read(in, t, n);
    if (r <= 0) return r;
    ssize_t w = write(out, t, r);
    if (off && w > 0) *off += w;
    if (!off && w >= 0 && w < r) lseek(in, w - r, SEEK_CUR);
    return w;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) {
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
    return ENTER(1) && inode(out) ? copied(in, off, out, n) : real(out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    return ENTER(1) && inode(out) ? copied(in, off, out, n) : real(out, in, off, n);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (ENTER(1) && inode(out)) { errno = ENOSYS; return -1; }      /* callers fall back to reading and writing */
    return real(in, oi, out, oo, n, fl);
}
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) {
    REAL(size_t, "fwrite", const void *, size_t, size_t, FILE *);
    if (ENTER(1) && inode(fileno(f))) {
        fflush(f);
        ssize_t r = write(fileno(f), p, s * n);
        if (r > 0) fseeko(f, 0, SEEK_CUR);
        return r <= 0 ? 0 : (size_t) r / s;
    }
    return real(p, s, n, f);
}
#define TRUNC(NAME, OFF) \
int NAME(int fd, OFF len) { \
    REAL(int, #NAME, int, OFF); \
    ino_t i; \
    if (ENTER(1) && (i = inode(fd))) { if (gate() < 0) return -1; int r = real(fd, len); if (r == 0) put_op('t', (long) i, (long) len, NULL, NULL, NULL, 0); return r; } \
    return real(fd, len); }
TRUNC(ftruncate, off_t)
TRUNC(ftruncate64, off64_t)
#define TRUNCP(NAME, OFF) \
int NAME(const char *path, OFF len) { \
    REAL(int, #NAME, const char *, OFF); \
    char p[PATH_MAX]; \
    if (ENTER(1)) { abspath(AT_FDCWD, path, p); \
        if (under(p)) { if (gate() < 0) return -1; int r = real(path, len); if (r == 0) put_op('T', 0, (long) len, p, NULL, NULL, 0); return r; } } \
    return real(path, len); }
TRUNCP(truncate, off_t)
TRUNCP(truncate64, off64_t)

#define TWO(NAME, KIND) \
int NAME(const char *a, const char *b) { \
    REAL(int, #NAME, const char *, const char *); \
    char p[PATH_MAX], q[PATH_MAX]; \
    if (ENTER(1)) { abspath(AT_FDCWD, a, p); abspath(AT_FDCWD, b, q); \
        if (under(p) || under(q)) { if (gate() < 0) return -1; int r = real(a, b); if (r == 0) put_op(KIND, 0, 0, p, q, NULL, 0); return r; } } \
    return real(a, b); }
TWO(rename, 'r')
TWO(link, 'l')
TWO(symlink, 'y')
#define T4 int, const char *, int, const char *
#define T5 int, const char *, int, const char *, unsigned
#define T5I int, const char *, int, const char *, int
int renameat(int ad, const char *a, int bd, const char *b) {
    REAL(int, "renameat", T4);
    char p[PATH_MAX], q[PATH_MAX];
    if (ENTER(1)) { abspath(ad, a, p); abspath(bd, b, q);
        if (under(p) || under(q)) { if (gate() < 0) return -1; int r = real(ad, a, bd, b); if (r == 0) put_op('r', 0, 0, p, q, NULL, 0); return r; } }
    return real(ad, a, bd, b);
}
int renameat2(int ad, const char *a, int bd, const char *b, unsigned f) {
    REAL(int, "renameat2", T5);
    char p[PATH_MAX], q[PATH_MAX];
    if (ENTER(1)) { abspath(ad, a, p); abspath(bd, b, q);
        if (under(p) || under(q)) { if (gate() < 0) return -1; int r = real(ad, a, bd, b, f); if (r == 0) put_op((f & RENAME_EXCHANGE) ? 'x' : 'r', 0, 0, p, q, NULL, 0); return r; } }
    return real(ad, a, bd, b, f);
}
int linkat(int ad, const char *a, int bd, const char *b, int f) {
    REAL(int, "linkat", T5I);
    char p[PATH_MAX], q[PATH_MAX];
    if (ENTER(1)) { abspath(ad, a, p); abspath(bd, b, q);
        if (under(p) || under(q)) { if (gate() < 0) return -1; int r = real(ad, a, bd, b, f); if (r == 0) put_op('l', 0, 0, p, q, NULL, 0); return r; } }
    return real(ad, a, bd, b, f);
}
int unlink(const char *a) {
    REAL(int, "unlink", const char *);
    char p[PATH_MAX];
    if (ENTER(1)) { abspath(AT_FDCWD, a, p);
        if (under(p)) { if (gate() < 0) return -1; int r = real(a); if (r == 0) put_op('u', 0, 0, p, NULL, NULL, 0); return r; } }
    return real(a);
}
int unlinkat(int d, const char *a, int f) {
    REAL(int, "unlinkat", int, const char *, int);
    char p[PATH_MAX];
    if (ENTER(!(f & AT_REMOVEDIR))) { abspath(d, a, p);
        if (under(p)) { if (gate() < 0) return -1; int r = real(d, a, f); if (r == 0) put_op('u', 0, 0, p, NULL, NULL, 0); return r; } }
    return real(d, a, f);
}
int fsync(int fd) {
    REAL(int, "fsync", int);
    ino_t i;
    if (ENTER(1) && (i = inode(fd))) { if (gate() < 0) return -1; int r = real(fd); put_op('s', (long) i, 0, NULL, NULL, NULL, 0); return r; }
    return real(fd);
}
int close(int fd) {
    REAL(int, "close", int);
    ino_t i;
    if (ENTER(1) && (i = inode(fd))) {
        int g = gate(), e = errno;
        int r = real(fd);
        put_op('c', (long) i, 0, NULL, NULL, NULL, 0);
        if (g < 0) { errno = e; return -1; }
        return r;
    }
    return real(fd);
}
