// Preloaded into a model converter: the I/O seam of a foreign process. Only files below CONV_DIR
// (and descriptor 1, when CONV_FD1 is set) are touched. Faults come from CONV_FAULTS
// ("kind:at:err:times:max;..."), what fired is appended to CONV_REPORT.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

enum { MAXFD = 256, MAXF = 8 };
static struct { char kind[8]; long long at, err, times, max; } F[MAXF];
static int nf = -1;
static char dir[512], report[512];
static size_t dirlen;
static char kindof[MAXFD];            // 0 not ours, 'r', 'w'
static long long wrote, got, opens, closes, metas, calls;
static uint64_t rs = 1;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }

static void init(void) {
  if (nf >= 0) return;
  nf = 0;
  const char *d = getenv("CONV_DIR"), *r = getenv("CONV_REPORT"), *f = getenv("CONV_FAULTS"), *s = getenv("CONV_SEED");
  if (!d || !r) return;
  snprintf(dir, sizeof dir, "%s/", d);
  dirlen = strlen(dir);
  snprintf(report, sizeof report, "%s", r);
  if (s) rs = strtoull(s, 0, 10) * 2654435761u + 1;
  if (getenv("CONV_FD1")) kindof[1] = 'w';
  while (f && *f && nf < MAXF) {
    char k[8] = "";
    long long a = 0, e = 0, t = 0, m = 0;
    if (sscanf(f, "%7[a-z]:%lld:%lld:%lld:%lld", k, &a, &e, &t, &m) >= 2) {
      strcpy(F[nf].kind, k);
      F[nf].at = a; F[nf].err = e; F[nf].times = t; F[nf].max = m;
      ++nf;
    }
    f = strchr(f, ';');
    if (f) ++f;
  }
}
static void fired(const char *what) {
  int fd = (int)syscall(SYS_openat, AT_FDCWD, report, O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd < 0) return;
  syscall(SYS_write, fd, what, strlen(what));
  syscall(SYS_write, fd, "\n", 1);
  syscall(SYS_close, fd);
}
static int ours(const char *p) { init(); return dirlen && p && !strncmp(p, dir, dirlen); }
// the i-th fault is used up after `times` firings (0: never)
static int spend(int i) {
  if (F[i].times < 0) return 0;
  if (F[i].times > 0 && --F[i].times == 0) F[i].times = -1;
  return 1;
}
static int do_open(int at, const char *p, int fl, int mode) {
  if (!ours(p)) return (int)syscall(SYS_openat, at, p, fl, mode);
  ++opens;
  for (int i = 0; i < nf; ++i)
    if (!strcmp(F[i].kind, "open") && F[i].at == opens && spend(i)) { fired("open"); errno = (int)F[i].err; return -1; }
  int fd = (int)syscall(SYS_openat, at, p, fl, mode);
  if (fd >= 0 && fd < MAXFD) kindof[fd] = (fl & O_ACCMODE) == O_RDONLY ? 'r' : 'w';
  return fd;
}
#define MODE int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, mode); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, mode); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, mode); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, mode); }
ssize_t write(int fd, const void *b, size_t n) {
  init();
  if (fd < 0 || fd >= MAXFD || kindof[fd] != 'w' || n == 0) return syscall(SYS_write, fd, b, n);
  ++calls;
  for (int i = 0; i < nf; ++i) {
    if (!strcmp(F[i].kind, "eintr") && calls >= F[i].at && spend(i)) { fired("eintr"); errno = EINTR; return -1; }
    if (!strcmp(F[i].kind, "short") && n > 1) { size_t k = 1 + rnd() % F[i].max; if (k < n) { n = k; fired("short_write"); } }
  }
  for (int i = 0; i < nf; ++i) {
    if (!strcmp(F[i].kind, "full") && F[i].times >= 0) {
      if (wrote >= F[i].at) { spend(i); fired("full"); errno = (int)F[i].err; return -1; }
      if (wrote + (long long)n > F[i].at) n = (size_t)(F[i].at - wrote);
    }
    if (!strcmp(F[i].kind, "crash") && wrote + (long long)n >= F[i].at) {
      size_t k = (size_t)(F[i].at > wrote ? F[i].at - wrote : 0);
      if (k) syscall(SYS_write, fd, b, k);
      fired("crash");
      kill(getpid(), SIGKILL);
    }
  }
  ssize_t r = syscall(SYS_write, fd, b, n);
  if (r > 0) wrote += r;
  return r;
}
ssize_t read(int fd, void *b, size_t n) {
  init();
  if (fd < 0 || fd >= MAXFD || kindof[fd] != 'r' || n == 0) return syscall(SYS_read, fd, b, n);
  ++calls;
  for (int i = 0; i < nf; ++i) {
    if (!strcmp(F[i].kind, "eintr") && calls >= F[i].at && spend(i)) { fired("eintr"); errno = EINTR; return -1; }
    if (!strcmp(F[i].kind, "short") && n > 1) { size_t k = 1 + rnd() % F[i].max; if (k < n) { n = k; fired("short_read"); } }
  }
  for (int i = 0; i < nf; ++i)
    if (!strcmp(F[i].kind, "rerr") && F[i].times >= 0) {
      if (got >= F[i].at) { spend(i); fired("rerr"); errno = (int)F[i].err; return -1; }
      if (got + (long long)n > F[i].at) n = (size_t)(F[i].at - got);
    }
  ssize_t r = syscall(SYS_read, fd, b, n);
  if (r > 0) got += r;
  return r;
}
int close(int fd) {
  init();
  char k = fd >= 0 && fd < MAXFD ? kindof[fd] : 0;
  if (k) kindof[fd] = 0;
  if (k == 'w') {
    ++closes;
    for (int i = 0; i < nf; ++i)
      if (!strcmp(F[i].kind, "close") && F[i].at == closes && spend(i)) {
        // the data was accepted, and did not reach the disk
        off_t n = (off_t)syscall(SYS_lseek, fd, 0, SEEK_END);
        if (n > 0) syscall(SYS_ftruncate, fd, n - 1 - (off_t)(rnd() % n));
        syscall(SYS_close, fd);
        fired("close");
        errno = (int)F[i].err;
        return -1;
      }
  }
  return (int)syscall(SYS_close, fd);
}
static int meta(void) {
  ++metas;
  for (int i = 0; i < nf; ++i)
    if (!strcmp(F[i].kind, "meta") && F[i].at == metas && spend(i)) { fired("meta"); errno = (int)F[i].err; return 1; }
  return 0;
}
int rename(const char *a, const char *b) {
  if (ours(b) && meta()) return -1;
  return (int)syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
}
int renameat(int x, const char *a, int y, const char *b) {
  if (ours(b) && meta()) return -1;
  return (int)syscall(SYS_renameat, x, a, y, b);
}
int fsync(int fd) {
  init();
  if (fd >= 0 && fd < MAXFD && kindof[fd] == 'w' && meta()) return -1;
  return (int)syscall(SYS_fsync, fd);
}
