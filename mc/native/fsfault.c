/* Preloaded into the process under test: counts the calls that change the file system
   below a given folder, and makes the process die at the k-th of them (before it, or in
   the middle of a write), or makes the k-th of them fail.  STEP: the process stops itself
   before the k-th of them, calls that read there included, until it is continued; k and the
   number of calls are in memory shared with the controller. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <limits.h>

enum { OFF, COUNT, DIE, TORN, FAIL, STEP };
static int mode = OFF;
static long target = -1, seen = 0;
static char root[PATH_MAX];
static size_t rootlen = 0;
static int err = ENOSPC;
static volatile long *shared;
void fsfault_shared(long *p) { shared = p; }
static char last[PATH_MAX + 64];

void fsfault_arm(const char *r, int m, long k, int e)
{
    strncpy(root, r, sizeof root - 1);
    rootlen = strlen(root);
    mode = m; target = k; seen = 0; err = e;
}
long fsfault_seen(void) { return seen; }
static int saved = OFF;
void fsfault_pause(int on) { if (on) { saved = mode; mode = OFF; } else mode = saved; }
void fsfault_off(void) { mode = OFF; }
const char *fsfault_last(void) { return last; }

static int below(const char *p)
{
    char buf[PATH_MAX];
    if (!p) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, sizeof buf)) return 0;
        return strncmp(buf, root, rootlen) == 0;
    }
    return strncmp(p, root, rootlen) == 0;
}
static int fdbelow(int fd)
{
    char l[64], buf[PATH_MAX];
    ssize_t n;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    n = readlink(l, buf, sizeof buf - 1);
    if (n < 0) return 0;
    buf[n] = 0;
    return below(buf);
}
/* returns 1 when the call has to fail */
static int hit(const char *what, const char *path, int fd, const void *b, size_t n)
{
    if (mode == OFF) return 0;
    if (mode == STEP) { if (++shared[1] == shared[0]) raise(SIGSTOP); return 0; }
    if (++seen != target) return 0;
    snprintf(last, sizeof last, "%s %s", what, path ? path : "");
    if (mode == DIE) _exit(77);
    if (mode == TORN) {
        if (b && n > 1) {
            ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
            (void)!w(fd, b, n / 2);
        }
        _exit(77);
    }
    if (mode == FAIL) { errno = err; return 1; }
    return 0;
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(real))dlsym(RTLD_NEXT, #name)

#define OPENLIKE(name)                                                            \
int name(const char *p, int flags, ...)                                           \
{                                                                                 \
    mode_t m = 0;                                                                 \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    REAL(name);                                                                   \
    if (mode != OFF && (mode == STEP || (flags & (O_CREAT | O_TRUNC))) && below(p) && hit("open", p, -1, 0, 0)) return -1; \
    return real(p, flags, m);                                                     \
}
OPENLIKE(open)
OPENLIKE(open64)
#define OPENATLIKE(name)                                                          \
int name(int d, const char *p, int flags, ...)                                    \
{                                                                                 \
    mode_t m = 0;                                                                 \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    REAL(name);                                                                   \
    if (mode != OFF && (mode == STEP || (flags & (O_CREAT | O_TRUNC))) && below(p) && hit("openat", p, -1, 0, 0)) return -1; \
    return real(d, p, flags, m);                                                  \
}
OPENATLIKE(openat)
OPENATLIKE(openat64)
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(write);
    if (mode != OFF && fdbelow(fd) && hit("write", 0, fd, b, n)) return -1;
    return real(fd, b, n);
}
ssize_t read(int fd, void *b, size_t n)
{
    REAL(read);
    if (mode == STEP && fdbelow(fd)) hit("read", 0, fd, 0, 0);
    return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    REAL(pwrite);
    if (mode != OFF && fdbelow(fd) && hit("pwrite", 0, fd, 0, 0)) return -1;
    return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    REAL(pwrite64);
    if (mode != OFF && fdbelow(fd) && hit("pwrite", 0, fd, 0, 0)) return -1;
    return real(fd, b, n, o);
}
int ftruncate(int fd, off_t o)
{
    REAL(ftruncate);
    if (mode != OFF && fdbelow(fd) && hit("ftruncate", 0, fd, 0, 0)) return -1;
    return real(fd, o);
}
int ftruncate64(int fd, off64_t o)
{
    REAL(ftruncate64);
    if (mode != OFF && fdbelow(fd) && hit("ftruncate", 0, fd, 0, 0)) return -1;
    return real(fd, o);
}
int rename(const char *a, const char *b)
{
    REAL(rename);
    if (mode != OFF && (below(a) || below(b)) && hit("rename", b, -1, 0, 0)) return -1;
    return real(a, b);
}
int renameat(int x, const char *a, int y, const char *b)
{
    REAL(renameat);
    if (mode != OFF && (below(a) || below(b)) && hit("rename", b, -1, 0, 0)) return -1;
    return real(x, a, y, b);
}
int link(const char *a, const char *b)
{
    REAL(link);
    if (mode != OFF && below(b) && hit("link", b, -1, 0, 0)) return -1;
    return real(a, b);
}
int symlink(const char *a, const char *b)
{
    REAL(symlink);
    if (mode != OFF && below(b) && hit("symlink", b, -1, 0, 0)) return -1;
    return real(a, b);
}
int unlink(const char *p)
{
    REAL(unlink);
    if (mode != OFF && below(p) && hit("unlink", p, -1, 0, 0)) return -1;
    return real(p);
}
int unlinkat(int d, const char *p, int f)
{
    REAL(unlinkat);
    if (mode != OFF && below(p) && hit("unlink", p, -1, 0, 0)) return -1;
    return real(d, p, f);
}
int rmdir(const char *p)
{
    REAL(rmdir);
    if (mode != OFF && below(p) && hit("rmdir", p, -1, 0, 0)) return -1;
    return real(p);
}
int mkdir(const char *p, mode_t m)
{
    REAL(mkdir);
    if (mode != OFF && below(p) && hit("mkdir", p, -1, 0, 0)) return -1;
    return real(p, m);
}
int mkdirat(int d, const char *p, mode_t m)
{
    REAL(mkdirat);
    if (mode != OFF && below(p) && hit("mkdir", p, -1, 0, 0)) return -1;
    return real(d, p, m);
}
#define STATLIKE(name, type)                                                      \
int name(const char *p, type *st)                                                 \
{                                                                                 \
    REAL(name);                                                                   \
    if (mode == STEP && below(p)) hit("stat", p, -1, 0, 0);                       \
    return real(p, st);                                                           \
}
STATLIKE(stat, struct stat)
STATLIKE(stat64, struct stat64)
