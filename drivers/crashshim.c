// Ends the process in the middle of what it does to files below a directory: armed by crash_arm(n, dir),
// the n-th operation that changes something there is not done, or (a write) done in part.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
static int left = 0;
static char dir[PATH_MAX];
void crash_arm(int n, const char *d) { strncpy(dir, d, sizeof dir - 1); left = n; }
int crash_left(void) { return left; }
static void die(void) { _exit(77); }
static int below(const char *p) { return p && strncmp(p, dir, strlen(dir)) == 0; }
static int fdbelow(int fd) {
  char l[64], b[PATH_MAX]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, b, sizeof b - 1); if (n < 0) return 0; b[n] = 0; return below(b);
}
static int pathbelow(const char *p) {
  if (!p) return 0; if (p[0] == '/') return below(p);
  char c[PATH_MAX]; return getcwd(c, sizeof c) && below(c);
}
static int due(void) { return left > 0 && --left == 0; }
#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)
#define WRITE(name, T, ...) 
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (left > 0 && fdbelow(fd) && due()) { if (n > 1) real(fd, b, n / 2); die(); } return real(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); if (left > 0 && fdbelow(fd) && due()) { if (n > 1) real(fd, b, n / 2, o); die(); } return real(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); if (left > 0 && fdbelow(fd) && due()) { if (n > 1) real(fd, b, n / 2, o); die(); } return real(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(writev); if (left > 0 && fdbelow(fd) && due()) { if (c > 1) real(fd, v, c / 2); die(); } return real(fd, v, c); }
ssize_t sendfile(int o, int i, off_t *f, size_t n) { REAL(sendfile); if (left > 0 && fdbelow(o) && due()) { if (n > 1) real(o, i, f, n / 2); die(); } return real(o, i, f, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { REAL(copy_file_range); if (left > 0 && fdbelow(o) && due()) { if (n > 1) real(i, a, o, b, n / 2, f); die(); } return real(i, a, o, b, n, f); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (left > 0 && fdbelow(fd) && due()) die(); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (left > 0 && fdbelow(fd) && due()) die(); return real(fd, n); }
int truncate(const char *p, off_t n) { REAL(truncate); if (left > 0 && pathbelow(p) && due()) die(); return real(p, n); }
int rename(const char *a, const char *b) { REAL(rename); if (left > 0 && pathbelow(b) && due()) die(); return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); if (left > 0 && pathbelow(b) && due()) die(); return real(x, a, y, b); }
int link(const char *a, const char *b) { REAL(link); if (left > 0 && pathbelow(b) && due()) die(); return real(a, b); }
int unlink(const char *p) { REAL(unlink); if (left > 0 && pathbelow(p) && due()) die(); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); if (left > 0 && pathbelow(p) && due()) die(); return real(d, p, f); }
int fsync(int fd) { REAL(fsync); if (left > 0 && fdbelow(fd) && due()) die(); return real(fd); }
#define OPEN(name, head, args, path) \
  { REAL(name); mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, f); m = va_arg(v, mode_t); va_end(v); } \
    if (left > 0 && (f & (O_TRUNC | O_CREAT)) && pathbelow(path) && due()) die(); return real args; }
int open(const char *p, int f, ...) OPEN(open, , (p, f, m), p)
int open64(const char *p, int f, ...) OPEN(open64, , (p, f, m), p)
int openat(int d, const char *p, int f, ...) OPEN(openat, , (d, p, f, m), p)
int openat64(int d, const char *p, int f, ...) OPEN(openat64, , (d, p, f, m), p)
