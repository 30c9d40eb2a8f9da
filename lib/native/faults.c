/* Counts the file operations below one directory, and makes the Nth one crash
   the process or fail.  Loaded with LD_PRELOAD; armed through fault_arm(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { COUNT = 0, CRASH_BEFORE = 1, CRASH_WITHIN = 2, FAIL_ONCE = 3, FAIL_ON = 4, SHORT = 5,
       READ_FAIL = 6, FULL = 7, FULL_WITHIN = 8 };
#define MAXFD 1024

static int armed, mode, err;
static long target, n_ops, n_reads;
static char prefix[PATH_MAX];
static unsigned char wfd[MAXFD], rfd[MAXFD];
static char trace[1 << 16];
static size_t trace_len;

void fault_arm(const char *dir, int m, long t, int e) {
  snprintf(prefix, sizeof prefix, "%s", dir);
  mode = m; target = t; err = e; n_ops = n_reads = 0;
  memset(wfd, 0, sizeof wfd); memset(rfd, 0, sizeof rfd);
  trace_len = 0; trace[0] = 0;
  armed = 1;
}
void fault_disarm(void) { armed = 0; }
long fault_ops(void) { return n_ops; }
long fault_reads(void) { return n_reads; }
const char *fault_trace(void) { return trace; }

#define REAL(ret, name, ...) \
  static ret (*real)(__VA_ARGS__); \
  if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static int under(int dirfd, const char *p) {
  char buf[PATH_MAX * 2], link[64];
  if (!armed || !p) return 0;
  if (p[0] != '/') {
    ssize_t n;
    if (dirfd == AT_FDCWD) {
      if (!getcwd(buf, PATH_MAX)) return 0;
    } else {
      snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
      n = readlink(link, buf, PATH_MAX - 1);
      if (n < 0) return 0;
      buf[n] = 0;
    }
    strcat(buf, "/");
    strncat(buf, p, PATH_MAX - 1);
    p = buf;
  }
  size_t l = strlen(prefix);
  return strncmp(p, prefix, l) == 0 && (p[l] == '/' || p[l] == 0);
}

/* 0: go on; 1: fail with errno set; 2: do half of it, then crash; 3: do half */
static int step(const char *what) {
  long i = n_ops++;
  int k = snprintf(trace + trace_len, sizeof trace - trace_len, "%s ", what);
  if (trace_len + k < sizeof trace) trace_len += k;
  if (mode == CRASH_BEFORE && i == target) _exit(77);
  if (mode == CRASH_WITHIN && i == target) return 2;
  if ((mode == FAIL_ONCE && i == target) || (mode == FAIL_ON && i >= target)) {
    errno = err;
    return 1;
  }
  if ((mode == FULL && i >= target) || (mode == FULL_WITHIN && i > target)) {
    /* no space left: only what adds data fails */
    if (strstr(what, "write") || strstr(what, "sendfile") || strstr(what, "copy")) {
      errno = ENOSPC;
      return 1;
    }
  }
  if ((mode == SHORT || mode == FULL_WITHIN) && i == target) return 3;
  return 0;
}
static int read_step(void) {
  long i = n_reads++;
  if (mode == READ_FAIL && i == target) { errno = err; return 1; }
  return 0;
}

/* simple operation: crash "within" it means crash right after it */
#define OP(cond, what, call) do { \
    int s_ = (cond) ? step(what) : 0; \
    if (s_ == 1) return -1; \
    int r_ = (call); \
    if (s_ == 2) _exit(77); \
    return r_; } while (0)

static int opened(int fd, int flags) {
  if (fd >= 0 && fd < MAXFD) {
    if ((flags & O_ACCMODE) != O_RDONLY) wfd[fd] = 1; else rfd[fd] = 1;
  }
  return fd;
}
#define DO_OPEN(dirfd, path, flags, call) do { \
    if (!under(dirfd, path)) return (call); \
    int w_ = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); \
    int s_ = w_ ? step("open") : read_step(); \
    if (s_ == 1) return -1; \
    int fd_ = (call); \
    if (s_ == 2) _exit(77); \
    return opened(fd_, flags); } while (0)
#define MODE_ARG mode_t m_ = 0; if (flags & (O_CREAT | O_TMPFILE)) { \
    va_list ap; va_start(ap, flags); m_ = va_arg(ap, mode_t); va_end(ap); }

int open(const char *p, int flags, ...) {
  REAL(int, open, const char *, int, ...); MODE_ARG
  DO_OPEN(AT_FDCWD, p, flags, real(p, flags, m_));
}
int open64(const char *p, int flags, ...) {
  REAL(int, open64, const char *, int, ...); MODE_ARG
  DO_OPEN(AT_FDCWD, p, flags, real(p, flags, m_));
}
int openat(int d, const char *p, int flags, ...) {
  REAL(int, openat, int, const char *, int, ...); MODE_ARG
  DO_OPEN(d, p, flags, real(d, p, flags, m_));
}
int openat64(int d, const char *p, int flags, ...) {
  REAL(int, openat64, int, const char *, int, ...); MODE_ARG
  DO_OPEN(d, p, flags, real(d, p, flags, m_));
}
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE *do_fopen(FILE *(*real)(const char *, const char *), const char *p, const char *m) {
  if (!under(AT_FDCWD, p)) return real(p, m);
  int w = m[0] != 'r' || strchr(m, '+') != NULL;
  int s = w ? step("fopen") : read_step();
  if (s == 1) return NULL;
  FILE *f = real(p, m);
  if (s == 2) _exit(77);
  if (f) opened(fileno(f), w ? O_WRONLY : O_RDONLY);
  return f;
}
FILE *fopen(const char *p, const char *m) {
  REAL(FILE *, fopen, const char *, const char *); return do_fopen(real, p, m);
}
FILE *fopen64(const char *p, const char *m) {
  REAL(FILE *, fopen64, const char *, const char *); return do_fopen(real, p, m);
}

static int is_w(int fd) { return armed && fd >= 0 && fd < MAXFD && wfd[fd]; }
static int is_r(int fd) { return armed && fd >= 0 && fd < MAXFD && rfd[fd]; }

ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  if (!is_w(fd)) return real(fd, b, n);
  int s = step("write");
  if (s == 1) return -1;
  if (s == 2) { real(fd, b, n / 2); _exit(77); }
  if (s == 3 && n > 1) return real(fd, b, n / 2);
  return real(fd, b, n);
}
static ssize_t do_pwrite(ssize_t (*real)(int, const void *, size_t, off_t), int fd,
                         const void *b, size_t n, off_t o) {
  if (!is_w(fd)) return real(fd, b, n, o);
  int s = step("pwrite");
  if (s == 1) return -1;
  if (s == 2) { real(fd, b, n / 2, o); _exit(77); }
  if (s == 3 && n > 1) return real(fd, b, n / 2, o);
  return real(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(ssize_t, pwrite, int, const void *, size_t, off_t); return do_pwrite(real, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(ssize_t, pwrite64, int, const void *, size_t, off_t); return do_pwrite(real, fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (!is_w(fd)) return real(fd, v, c);
  int s = step("writev");
  if (s == 1) return -1;
  if (s == 2) { real(fd, v, c / 2); _exit(77); }
  return real(fd, v, c);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  REAL(ssize_t, sendfile, int, int, off_t *, size_t);
  if (!is_w(o)) return real(o, i, off, n);
  int s = step("sendfile");
  if (s == 1) return -1;
  if (s == 2) { real(o, i, off, n / 2); _exit(77); }
  return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
  if (!is_w(o)) return real(i, io, o, oo, n, f);
  int s = step("copy_file_range");
  if (s == 1) return -1;
  if (s == 2) _exit(77);
  return real(i, io, o, oo, n, f);
}
ssize_t read(int fd, void *b, size_t n) {
  REAL(ssize_t, read, int, void *, size_t);
  if (is_r(fd) && read_step()) return -1;
  return real(fd, b, n);
}
int close(int fd) {
  REAL(int, close, int);
  int w = is_w(fd);
  int s = w ? step("close") : 0;
  if (armed && fd >= 0 && fd < MAXFD) wfd[fd] = rfd[fd] = 0;
  int e = errno, r = real(fd);
  if (s == 1) { errno = e; return -1; }
  if (s == 2) _exit(77);
  return r;
}
int fsync(int fd) { REAL(int, fsync, int); OP(is_w(fd), "fsync", real(fd)); }
int fdatasync(int fd) { REAL(int, fdatasync, int); OP(is_w(fd), "fdatasync", real(fd)); }
int ftruncate(int fd, off_t l) {
  REAL(int, ftruncate, int, off_t); OP(is_w(fd), "ftruncate", real(fd, l));
}
int ftruncate64(int fd, off64_t l) {
  REAL(int, ftruncate64, int, off64_t); OP(is_w(fd), "ftruncate", real(fd, l));
}
int truncate(const char *p, off_t l) {
  REAL(int, truncate, const char *, off_t); OP(under(AT_FDCWD, p), "truncate", real(p, l));
}
int truncate64(const char *p, off64_t l) {
  REAL(int, truncate64, const char *, off64_t); OP(under(AT_FDCWD, p), "truncate", real(p, l));
}
int rename(const char *a, const char *b) {
  REAL(int, rename, const char *, const char *);
  OP(under(AT_FDCWD, a) || under(AT_FDCWD, b), "rename", real(a, b));
}
int renameat(int c, const char *a, int d, const char *b) {
  REAL(int, renameat, int, const char *, int, const char *);
  OP(under(c, a) || under(d, b), "rename", real(c, a, d, b));
}
int renameat2(int c, const char *a, int d, const char *b, unsigned f) {
  REAL(int, renameat2, int, const char *, int, const char *, unsigned);
  OP(under(c, a) || under(d, b), "rename", real(c, a, d, b, f));
}
int unlink(const char *p) {
  REAL(int, unlink, const char *); OP(under(AT_FDCWD, p), "unlink", real(p));
}
int unlinkat(int d, const char *p, int f) {
  REAL(int, unlinkat, int, const char *, int); OP(under(d, p), "unlink", real(d, p, f));
}
int remove(const char *p) {
  REAL(int, remove, const char *); OP(under(AT_FDCWD, p), "unlink", real(p));
}
int rmdir(const char *p) {
  REAL(int, rmdir, const char *); OP(under(AT_FDCWD, p), "rmdir", real(p));
}
int mkdir(const char *p, mode_t m) {
  REAL(int, mkdir, const char *, mode_t); OP(under(AT_FDCWD, p), "mkdir", real(p, m));
}
int mkdirat(int d, const char *p, mode_t m) {
  REAL(int, mkdirat, int, const char *, mode_t); OP(under(d, p), "mkdir", real(d, p, m));
}
int link(const char *a, const char *b) {
  REAL(int, link, const char *, const char *); OP(under(AT_FDCWD, b), "link", real(a, b));
}
int linkat(int c, const char *a, int d, const char *b, int f) {
  REAL(int, linkat, int, const char *, int, const char *, int);
  OP(under(d, b), "link", real(c, a, d, b, f));
}
int symlink(const char *a, const char *b) {
  REAL(int, symlink, const char *, const char *); OP(under(AT_FDCWD, b), "symlink", real(a, b));
}
int chmod(const char *p, mode_t m) {
  REAL(int, chmod, const char *, mode_t); OP(under(AT_FDCWD, p), "chmod", real(p, m));
}
int fchmod(int fd, mode_t m) {
  REAL(int, fchmod, int, mode_t); OP(is_w(fd), "chmod", real(fd, m));
}
int fchmodat(int d, const char *p, mode_t m, int f) {
  REAL(int, fchmodat, int, const char *, mode_t, int); OP(under(d, p), "chmod", real(d, p, m, f));
}
