/* LD_PRELOAD library: once armed, the process dies at the n-th call which
   changes something below a directory (or, optionally, is sent to a socket). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static char prefix[4096];
static size_t plen;
static volatile long count, limit = -1;
static volatile int armed, half, sockets;
static unsigned char tracked[65536];

void vp_arm(const char *p, long n, int h, int s) {
    strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix);
    count = 0; limit = n; half = h; sockets = s; armed = 1;
}
void vp_disarm(void) { armed = 0; }
long vp_count(void) { return count; }

static int under(const char *p) {
    char buf[PATH_MAX];
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, sizeof buf)) return 0;
        return strncmp(buf, prefix, plen) == 0;
    }
    return strncmp(p, prefix, plen) == 0;
}
static int hit(void) { count++; return count == limit; }
static void die(void) { _exit(77); }
#define POINT() do { if (hit()) die(); } while (0)
#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

static int note(int fd, int w) { if (fd >= 0 && fd < 65536) tracked[fd] = w; return fd; }

#define OPEN(NAME) \
int NAME(const char *path, int flags, ...) { \
    REAL(NAME); mode_t mode = 0; int w; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } \
    w = ((flags & O_ACCMODE) != O_RDONLY) && under(path); \
    if (w && (flags & O_TRUNC)) POINT(); \
    else if (w && (flags & O_CREAT) && access(path, F_OK) != 0) POINT(); \
    return note(real(path, flags, mode), w); }
OPEN(open)
OPEN(open64)
#define OPENAT(NAME) \
int NAME(int dir, const char *path, int flags, ...) { \
    REAL(NAME); mode_t mode = 0; int w; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } \
    w = ((flags & O_ACCMODE) != O_RDONLY) && under(path); \
    if (w && (flags & (O_TRUNC | O_CREAT))) POINT(); \
    return note(real(dir, path, flags, mode), w); }
OPENAT(openat)
OPENAT(openat64)
int close(int fd) { REAL(close); note(fd, 0); return real(fd); }
static int isf(int fd) { return armed && fd >= 0 && fd < 65536 && tracked[fd]; }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (isf(fd) && hit()) { if (half && n > 1) real(fd, b, n / 2); die(); }
    return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(pwrite);
    if (isf(fd) && hit()) { if (half && n > 1) real(fd, b, n / 2, o); die(); }
    return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    if (isf(fd) && hit()) { if (half && n > 1) real(fd, b, n / 2, o); die(); }
    return real(fd, b, n, o);
}
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (isf(fd)) POINT(); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (isf(fd)) POINT(); return real(fd, n); }
int fsync(int fd) { REAL(fsync); if (isf(fd)) POINT(); return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (isf(fd)) POINT(); return real(fd); }
int rename(const char *a, const char *b) { REAL(rename); if (under(a) || under(b)) POINT(); return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); if (under(a) || under(b)) POINT(); return real(x, a, y, b); }
int unlink(const char *a) { REAL(unlink); if (under(a)) POINT(); return real(a); }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); if (under(a)) POINT(); return real(d, a, f); }
int rmdir(const char *a) { REAL(rmdir); if (under(a)) POINT(); return real(a); }
int mkdir(const char *a, mode_t m) { REAL(mkdir); if (under(a)) POINT(); return real(a, m); }
int link(const char *a, const char *b) { REAL(link); if (under(b)) POINT(); return real(a, b); }
int symlink(const char *a, const char *b) { REAL(symlink); if (under(b)) POINT(); return real(a, b); }
ssize_t send(int fd, const void *b, size_t n, int f) {
    REAL(send);
    if (armed && sockets) { if (hit()) { if (half && n > 1) real(fd, b, n / 2, f); die(); } }
    return real(fd, b, n, f);
}
