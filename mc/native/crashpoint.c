/* LD_PRELOAD shim: numbers the file-changing system calls on paths under a prefix; at a chosen one the process dies
   (before the call, or after a chosen part of a write), or stops until it is told to go on. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[PATH_MAX];
static long at = -1, count = 0;
static int mode = 0;            /* 0 off, 1 die before, 2 die after part of a write, 3 pause, 4 fail with ENOSPC, 5 short write */
static int torn_num = 0, torn_den = 1;
static int fd_tell = -1, fd_go = -1;
static char last[64];

void cp_arm(const char *p, long k, int m, int num, int den, int tell, int go) {
    strncpy(prefix, p, sizeof prefix - 1);
    at = k; count = 0; mode = m; torn_num = num; torn_den = den; fd_tell = tell; fd_go = go;
}
void cp_disarm(void) { mode = 0; at = -1; }
long cp_count(void) { return count; }
const char *cp_last(void) { return last; }

#define REAL(name) __typeof__(name) *real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static int path_in(const char *p) { return prefix[0] && p && !strncmp(p, prefix, strlen(prefix)); }
static int fd_in(int fd) {
    char l[64], b[PATH_MAX];
    if (!prefix[0]) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    if (n <= 0) return 0;
    b[n] = 0;
    return path_in(b);
}
/* 0: go on; 1: write only a part, then die; 2: fail; 3: short write */
static int point(const char *name, int write_size) {
    if (at < 0) return 0;
    count++;
    if (count != at) return 0;
    snprintf(last, sizeof last, "%s", name);
    if (mode == 1) _exit(99);
    if (mode == 2) { if (write_size > 0) return 1; _exit(98); }
    if (mode == 3) {
        char c = 'p';
        if (write(fd_tell, &c, 1) != 1) _exit(97);
        ssize_t r;
        do { r = read(fd_go, &c, 1); } while (r < 0 && errno == EINTR);
    }
    if (mode == 4) return 2;
    if (mode == 5 && write_size > 1) return 3;
    return 0;
}
static size_t part(size_t n) { size_t k = (size_t)((__int128)n * torn_num / torn_den); if (k == 0 && n > 1) k = 1; if (k >= n) k = n - 1; return k; }

#define OPENBODY(fn) \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if ((flags & (O_CREAT | O_TRUNC)) && path_in(path)) if (point("open", 0) == 2) { errno = ENOSPC; return -1; } \
    return real(path, flags, m);
int open(const char *path, int flags, ...) { REAL(open); OPENBODY(open) }
int open64(const char *path, int flags, ...) { REAL(open64); OPENBODY(open64) }
int openat(int d, const char *path, int flags, ...) {
    REAL(openat); mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    if ((flags & (O_CREAT | O_TRUNC)) && path_in(path)) if (point("openat", 0) == 2) { errno = ENOSPC; return -1; }
    return real(d, path, flags, m);
}
#define WRITEBODY(name, call, callpart) \
    if (fd_in(fd)) { int r = point(name, (int)n); \
        if (r == 1) { n = part(n); callpart; _exit(98); } \
        if (r == 2) { errno = ENOSPC; return -1; } \
        if (r == 3) { n = part(n); return callpart; } } \
    return call;
ssize_t write(int fd, const void *b, size_t n) { REAL(write); WRITEBODY("write", real(fd, b, n), real(fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); WRITEBODY("pwrite", real(fd, b, n, o), real(fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); WRITEBODY("pwrite64", real(fd, b, n, o), real(fd, b, n, o)) }
ssize_t writev(int fd, const struct iovec *v, int k) { REAL(writev); if (fd_in(fd)) if (point("writev", 0) == 2) { errno = ENOSPC; return -1; } return real(fd, v, k); }
int ftruncate(int fd, off_t l) { REAL(ftruncate); if (fd_in(fd)) if (point("ftruncate", 0) == 2) { errno = EIO; return -1; } return real(fd, l); }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64); if (fd_in(fd)) if (point("ftruncate64", 0) == 2) { errno = EIO; return -1; } return real(fd, l); }
int rename(const char *a, const char *b) { REAL(rename); if (path_in(a) || path_in(b)) if (point("rename", 0) == 2) { errno = EIO; return -1; } return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); if (path_in(a) || path_in(b)) point("renameat", 0); return real(x, a, y, b); }
int unlink(const char *a) { REAL(unlink); if (path_in(a)) point("unlink", 0); return real(a); }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); if (path_in(a)) point("unlinkat", 0); return real(d, a, f); }
int mkdir(const char *a, mode_t m) { REAL(mkdir); if (path_in(a)) point("mkdir", 0); return real(a, m); }
int fsync(int fd) { REAL(fsync); if (fd_in(fd)) point("fsync", 0); return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (fd_in(fd)) point("fdatasync", 0); return real(fd); }
int close(int fd) { REAL(close); if (fd_in(fd)) point("close", 0); return real(fd); }
