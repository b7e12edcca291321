// LD_PRELOAD instrumentation of the hongdown binary: redirects /etc/hongdown, records every
// file opened for writing (and every removal, renaming and truncation), and injects faults
// and delays.  Steered by environment variables:
//   HDS_ETC=<dir>    stands in for /etc/hongdown
//   HDS_LOG=<file>   one line per modifying call: "<call> <path>"
//   HDS_FAIL=<file>  lines "<r|w|x|d> <errno> <absolute path>": fail opening for reading or writing,
//                    fail write() after opening, fail opening the directory
//   HDS_DELAY=<seed> sleep up to 3 ms, pseudo-randomly, around opens
//   HDS_ORDER=<seed> directory entries in a pseudo-random order
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <dirent.h>
#include <stdatomic.h>
#include <time.h>

static const char ETC[] = "/etc/hongdown";
static __thread char rbuf[PATH_MAX];
static const char *redir(const char *p) {
  const char *to = getenv("HDS_ETC");
  if (!p || !to || strncmp(p, ETC, sizeof ETC - 1)) return p;
  if (p[sizeof ETC - 1] && p[sizeof ETC - 1] != '/') return p;
  snprintf(rbuf, sizeof rbuf, "%s%s", to, p + sizeof ETC - 1);
  return rbuf;
}
static void absolute(const char *p, char *out) {
  if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); return; }
  char cwd[PATH_MAX / 2];
  if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
  while (p[0] == '.' && p[1] == '/') p += 2;
  snprintf(out, PATH_MAX, "%s/%s", cwd, p);
}
static void logit(const char *what, const char *p) {
  const char *f = getenv("HDS_LOG");
  if (!f || !p) return;
  char a[PATH_MAX], line[PATH_MAX + 64];
  absolute(p, a);
  int n = snprintf(line, sizeof line, "%s %s\n", what, a);
  int fd = syscall(SYS_openat, AT_FDCWD, f, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
  if (fd >= 0) { if (syscall(SYS_write, fd, line, (size_t)n) < 0) {} syscall(SYS_close, fd); }
}
// 0: no fault
static int fault(char kind, const char *p) {
  const char *f = getenv("HDS_FAIL");
  if (!f || !p) return 0;
  char a[PATH_MAX], buf[65536];
  absolute(p, a);
  int fd = syscall(SYS_openat, AT_FDCWD, f, O_RDONLY | O_CLOEXEC);
  if (fd < 0) return 0;
  ssize_t n = syscall(SYS_read, fd, buf, sizeof buf - 1);
  syscall(SYS_close, fd);
  if (n <= 0) return 0;
  buf[n] = 0;
  char *save = 0;
  for (char *l = strtok_r(buf, "\n", &save); l; l = strtok_r(0, "\n", &save)) {
    if (l[0] != kind) continue;
    char *e;
    long no = strtol(l + 2, &e, 10);
    if (*e == ' ' && !strcmp(e + 1, a)) return (int)no;
  }
  return 0;
}
static void delay(const char *p) {
  const char *s = getenv("HDS_DELAY");
  static atomic_ulong k;
  if (!s || !p) return;
  unsigned long h = strtoul(s, 0, 10) * 2654435761u + atomic_fetch_add(&k, 1) * 40503u;
  for (const char *q = p; *q; q++) h = h * 31 + (unsigned char)*q;
  h ^= h >> 15;
  struct timespec t = {0, (long)(h % 3000) * 1000};
  if (h % 3) nanosleep(&t, 0);
}
#define MAXFD 4096
static atomic_int bad[MAXFD];

static int do_open(const char *name, int dirfd, const char *p, int flags, mode_t mode) {
  static int (*real)(int, const char *, int, ...);
  if (!real) real = dlsym(RTLD_NEXT, "openat");
  (void)name;
  p = redir(p);
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (dirfd == AT_FDCWD || (p && p[0] == '/')) {
    delay(p);
    if (w) logit("open", p);
    int e = fault(flags & O_DIRECTORY ? 'd' : w ? 'w' : 'r', p);
    if (e) { errno = e; return -1; }
  }
  int fd = real(dirfd, p, flags, mode);
  if (fd >= 0 && fd < MAXFD) bad[fd] = w ? fault('x', p) : 0;
  if (dirfd == AT_FDCWD) delay(p);
  return fd;
}
#define OPEN(name) \
  int name(const char *p, int flags, ...) { \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } \
    return do_open(#name, AT_FDCWD, p, flags, m); \
  }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
  int name(int d, const char *p, int flags, ...) { \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } \
    return do_open(#name, d, p, flags, m); \
  }
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*real)(int, const void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "write");
  if (fd >= 0 && fd < MAXFD && bad[fd]) { errno = bad[fd]; return -1; }
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  static ssize_t (*real)(int, const struct iovec *, int);
  if (!real) real = dlsym(RTLD_NEXT, "writev");
  if (fd >= 0 && fd < MAXFD && bad[fd]) { errno = bad[fd]; return -1; }
  return real(fd, v, n);
}
int close(int fd) {
  static int (*real)(int);
  if (!real) real = dlsym(RTLD_NEXT, "close");
  if (fd >= 0 && fd < MAXFD) bad[fd] = 0;
  return real(fd);
}
DIR *opendir(const char *p) {
  static DIR *(*real)(const char *);
  if (!real) real = dlsym(RTLD_NEXT, "opendir");
  p = redir(p);
  delay(p);
  int e = fault('d', p);
  if (e) { errno = e; return 0; }
  return real(p);
}
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict b) {
  static int (*real)(int, const char *, int, unsigned, struct statx *);
  if (!real) real = dlsym(RTLD_NEXT, "statx");
  return real(d, d == AT_FDCWD ? redir(p) : p, f, m, b);
}
int stat(const char *restrict p, struct stat *restrict b) {
  static int (*real)(const char *, struct stat *);
  if (!real) real = dlsym(RTLD_NEXT, "stat");
  return real(redir(p), b);
}
int stat64(const char *restrict p, struct stat64 *restrict b) {
  static int (*real)(const char *, struct stat64 *);
  if (!real) real = dlsym(RTLD_NEXT, "stat64");
  return real(redir(p), b);
}
int access(const char *p, int m) {
  static int (*real)(const char *, int);
  if (!real) real = dlsym(RTLD_NEXT, "access");
  return real(redir(p), m);
}
#define LOGGED1(name, sig, args, p) \
  int name sig { \
    static int(*real) sig; \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    logit(#name, p); \
    return real args; \
  }
LOGGED1(unlink, (const char *p), (p), p)
LOGGED1(rmdir, (const char *p), (p), p)
LOGGED1(rename, (const char *a, const char *b), (a, b), b)
LOGGED1(mkdir, (const char *p, mode_t m), (p, m), p)
LOGGED1(chmod, (const char *p, mode_t m), (p, m), p)
LOGGED1(truncate, (const char *p, off_t n), (p, n), p)
LOGGED1(truncate64, (const char *p, off64_t n), (p, n), p)
LOGGED1(symlink, (const char *a, const char *b), (a, b), b)
LOGGED1(link, (const char *a, const char *b), (a, b), b)

// Directory entries in a pseudo-random order (HDS_ORDER=<seed>).
#include <pthread.h>
struct listing { DIR *d; struct dirent64 **e; size_t n, at; struct listing *next; };
static struct listing *listings;
static pthread_mutex_t listings_lock = PTHREAD_MUTEX_INITIALIZER;
struct dirent64 *readdir64(DIR *d) {
  static struct dirent64 *(*real)(DIR *);
  if (!real) real = dlsym(RTLD_NEXT, "readdir64");
  const char *s = getenv("HDS_ORDER");
  if (!s) return real(d);
  pthread_mutex_lock(&listings_lock);
  struct listing *l = listings;
  while (l && l->d != d) l = l->next;
  if (!l) {
    l = calloc(1, sizeof *l);
    l->d = d;
    struct dirent64 *x;
    unsigned long h = strtoul(s, 0, 10) * 2654435761u + 12345;
    while ((x = real(d))) {
      l->e = realloc(l->e, (l->n + 1) * sizeof *l->e);
      l->e[l->n] = malloc(x->d_reclen < sizeof *x ? sizeof *x : x->d_reclen);
      memcpy(l->e[l->n++], x, x->d_reclen);
    }
    for (size_t i = l->n; i > 1; i--) {
      h = h * 6364136223846793005ul + 1442695040888963407ul;
      size_t j = (h >> 33) % i;
      struct dirent64 *t = l->e[i - 1]; l->e[i - 1] = l->e[j]; l->e[j] = t;
    }
    l->next = listings;
    listings = l;
  }
  struct dirent64 *r = l->at < l->n ? l->e[l->at++] : 0;
  pthread_mutex_unlock(&listings_lock);
  return r;
}
int closedir(DIR *d) {
  static int (*real)(DIR *);
  if (!real) real = dlsym(RTLD_NEXT, "closedir");
  pthread_mutex_lock(&listings_lock);
  for (struct listing **p = &listings; *p; p = &(*p)->next)
    if ((*p)->d == d) {
      struct listing *l = *p;
      *p = l->next;
      for (size_t i = 0; i < l->n; i++) free(l->e[i]);
      free(l->e); free(l);
      break;
    }
  pthread_mutex_unlock(&listings_lock);
  return real(d);
}
