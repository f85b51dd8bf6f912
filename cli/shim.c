/* LD_PRELOAD environment for the real blake2 binary: answers open, read, mmap
 * and write on the inputs named in the file $B2_SPEC according to a script and
 * appends what it answered to $B2_LOG.
 * A line of the script:  <path in hex, or - for stdin, or 1 for stdout> <tokens...>
 *   rN  at most N bytes in all until the next token     i   EINTR
 *   cN  at most N bytes a call, from then on            IN  EINTR N times
 *   eN  error N, from then on for ever                   oN  open fails with error N
 *   mN  mmap fails with error N                          wN  (stdout) at most N bytes
 *   sN  fstat fails with error N
 * After its tokens an input behaves normally. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#define MAXL 64
struct ent { int kind; char path[4200]; dev_t dev; ino_t ino; int known; char tok[200]; long arg[200]; int n, at, fd; long said; };
static struct ent E[MAXL];
static int nE, logfd = -1, ready;
static long raw(long n, long a, long b, long c, long d) { return syscall(n, a, b, c, d); }
static long raw6(long n, long a, long b, long c, long d, long e) { return syscall(n, a, b, c, d, e); }
static void say(int k, const char *s, long v) {
  char b[64]; int n = snprintf(b, sizeof b, "%d %s %ld\n", k, s, v);
  if (logfd >= 0) raw(SYS_write, logfd, (long)b, n, 0);
}
static void init(void) {
  if (ready) return; ready = 1;
  const char *sp = getenv("B2_SPEC"), *lg = getenv("B2_LOG");
  if (!sp || !lg) return;
  int lf = raw(SYS_openat, AT_FDCWD, (long)lg, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  if (lf >= 0) { logfd = raw(SYS_fcntl, lf, F_DUPFD_CLOEXEC, 900, 0);
    if (logfd < 0) logfd = raw(SYS_fcntl, lf, F_DUPFD_CLOEXEC, 36, 0);
    raw(SYS_close, lf, 0, 0, 0); }
  int f = raw(SYS_openat, AT_FDCWD, (long)sp, O_RDONLY | O_CLOEXEC, 0);
  if (f < 0) return;
  static char buf[1 << 20]; long n = 0, k;
  while (n < (long)sizeof buf - 1 && (k = raw(SYS_read, f, (long)buf + n, sizeof buf - 1 - n, 0)) > 0) n += k;
  raw(SYS_close, f, 0, 0, 0); buf[n] = 0;
  char *sv = 0;
  for (char *ln = strtok_r(buf, "\n", &sv); ln && nE < MAXL; ln = strtok_r(0, "\n", &sv)) {
    struct ent *e = &E[nE++]; memset(e, 0, sizeof *e); e->fd = -1;
    char *s2 = 0, *p = strtok_r(ln, " ", &s2);
    if (!strcmp(p, "-")) { e->kind = 0; e->fd = 0; }
    else if (!strcmp(p, "1")) { e->kind = 1; e->fd = 1; }
    else {
      e->kind = 2; int m = 0;
      for (; p[0] && p[1] && m < 4190; p += 2) { unsigned x; sscanf(p, "%2x", &x); e->path[m++] = x; }
      struct stat st; if (!stat(e->path, &st)) { e->dev = st.st_dev; e->ino = st.st_ino; e->known = 1; }
    }
    for (char *t = strtok_r(0, " ", &s2); t && e->n < 199; t = strtok_r(0, " ", &s2)) { e->tok[e->n] = t[0]; e->arg[e->n++] = atol(t + 1); }
  }
}
__attribute__((constructor)) static void start(void) { init(); }
static struct ent *by_fd(int fd) { init(); for (int k = 0; k < nE; k++) if (E[k].fd == fd) return &E[k]; return 0; }
static struct ent *to_open(const char *p) {
  init(); struct stat st; int have = !stat(p, &st);
  for (int k = 0; k < nE; k++)
    if (E[k].kind == 2 && E[k].fd == -1 && ((have && E[k].known && E[k].dev == st.st_dev && E[k].ino == st.st_ino) || !strcmp(p, E[k].path))) return &E[k];
  return 0;
}
static int do_open(int dir, const char *p, int fl, mode_t m) {
  struct ent *e = to_open(p);
  if (e && e->at < e->n && e->tok[e->at] == 'o') { say(e - E, "o", e->arg[e->at]); errno = e->arg[e->at]; e->fd = -2; return -1; }
  int fd = raw(SYS_openat, dir, (long)p, fl, m);
  if (fd >= 0 && e) e->fd = fd;
  return fd;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); }
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl | O_LARGEFILE, m); }
int close(int fd) { struct ent *e = by_fd(fd); if (e && e->kind == 2) e->fd = -2; return raw(SYS_close, fd, 0, 0, 0); }
/* -1: error set, 0: no restriction, else the cap */
static long gate(struct ent *e) {
  if (e->at >= e->n) return 0;
  char t = e->tok[e->at];
  if (t == 'I') { if (--e->arg[e->at] <= 0) e->at++; if (e->said++ < 500) say(e - E, "i", 0); errno = EINTR; return -1; }
  if (t == 'c') return e->arg[e->at];
  if (t == 'i') { e->at++; say(e - E, "i", 0); errno = EINTR; return -1; }
  if (t == 'e') { say(e - E, "e", e->arg[e->at]); errno = e->arg[e->at]; return -1; }
  if (t == 'r' || t == 'w') return e->arg[e->at];
  e->at++; return gate(e);
}
static void used(struct ent *e, long n) {
  if (e->at < e->n && (e->tok[e->at] == 'r' || e->tok[e->at] == 'w')) { e->arg[e->at] -= n; if (e->arg[e->at] <= 0) e->at++; }
}
ssize_t read(int fd, void *b, size_t n) {
  struct ent *e = by_fd(fd);
  if (!e || e->kind == 1) return raw(SYS_read, fd, (long)b, n, 0);
  long c = gate(e); if (c < 0) return -1;
  if (c > 0 && n > (size_t)c) n = c;
  ssize_t r = raw(SYS_read, fd, (long)b, n, 0);
  if (r > 0) { if (e->said++ < 500) say(e - E, "r", r); used(e, r); } else if (r == 0) say(e - E, "z", 0); else say(e - E, "e", errno);
  return r;
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
  struct ent *e = by_fd(fd);
  if (!e || e->kind == 1) return raw(SYS_pread64, fd, (long)b, n, o);
  long c = gate(e); if (c < 0) return -1;
  if (c > 0 && n > (size_t)c) n = c;
  ssize_t r = raw(SYS_pread64, fd, (long)b, n, o);
  if (r > 0) { if (e->said++ < 500) say(e - E, "r", r); used(e, r); } else if (r == 0) say(e - E, "z", 0); else say(e - E, "e", errno);
  return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!by_fd(fd)) return raw(SYS_readv, fd, (long)v, c, 0);
  for (int k = 0; k < c; k++) if (v[k].iov_len) return read(fd, v[k].iov_base, v[k].iov_len);
  return read(fd, 0, 0);
}
ssize_t write(int fd, const void *b, size_t n) {
  struct ent *e = fd == 1 ? by_fd(1) : 0;
  if (!e) return raw(SYS_write, fd, (long)b, n, 0);
  long c = gate(e); if (c < 0) return -1;
  if (c > 0 && n > (size_t)c) n = c;
  ssize_t r = raw(SYS_write, fd, (long)b, n, 0);
  if (r > 0) { say(e - E, "w", r); used(e, r); }
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  struct ent *e = fd == 1 ? by_fd(1) : 0;
  if (!e) return raw(SYS_writev, fd, (long)v, c, 0);
  for (int k = 0; k < c; k++) if (v[k].iov_len) return write(fd, v[k].iov_base, v[k].iov_len);
  return 0;
}
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  struct ent *e = fd >= 0 && !(fl & MAP_ANONYMOUS) ? by_fd(fd) : 0;
  if (e && e->kind != 1) for (int k = e->at; k < e->n; k++) if (e->tok[k] == 'm') { say(e - E, "m", e->arg[k]); errno = e->arg[k]; return MAP_FAILED; }
  return (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o);
}
static int unstat(int fd) {
  struct ent *e = by_fd(fd);
  if (e && e->kind != 1) for (int k = e->at; k < e->n; k++) if (e->tok[k] == 's') { say(e - E, "s", e->arg[k]); errno = e->arg[k]; return 1; }
  return 0;
}
int statx(int d, const char *p, int fl, unsigned m, struct statx *b) {
  if ((fl & 0x1000) && unstat(d)) return -1;      /* AT_EMPTY_PATH */
  return raw6(SYS_statx, d, (long)p, fl, m, (long)b);
}
int fstat(int fd, struct stat *b) { return unstat(fd) ? -1 : raw(SYS_fstat, fd, (long)b, 0, 0); }
int fstat64(int fd, struct stat64 *b) { return unstat(fd) ? -1 : raw(SYS_fstat, fd, (long)b, 0, 0); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { return mmap64(a, n, pr, fl, fd, o); }
