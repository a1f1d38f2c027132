// Puts a process's file operations under the simulator: counts them, and at chosen ones fails, cuts
// short, interrupts or kills. Loaded with LD_PRELOAD.
//   SIMIO=prog=NAME;root=DIR[;root=DIR];out=FILE;fault=AT:KIND[;fault=AT:KIND]...[;reads=1]
// Only operations on paths under a root are counted, from 1. With reads=1, reads count as well.
// std=1: standard input and output count as files under a root. drip=N: no read gives more than N bytes,
// wdrip=N: no write takes more. pfault=AT:KIND: the same on pipes, which have a count of their own and
// know only short and eintr.
// Kinds: kill (before), torn (half of it, then killed), after (killed after), eio, enospc, eacces,
// emfile, short, eintr, nosys, full (half of it, and no space from then on).
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXF 8
static int active = 0, reads = 0, full = 0;
static char roots[4][512];
static int nroots = 0;
static char outf[512];
static struct { long at; char kind[12]; } faults[MAXF];
static int nfaults = 0;
static long drip = 0, wdrip = 0, pn = 0;
static struct { long at; char kind[12]; } pfaults[MAXF];
static int npfaults = 0;
static long n = 0;
static unsigned char tracked[4096];

extern char* program_invocation_short_name;

__attribute__((constructor)) static void init(void) {
  const char* e = getenv("SIMIO");
  if (!e) return;
  static char buf[4096];
  strncpy(buf, e, sizeof buf - 1);
  int on = 0;
  for (char* p = strtok(buf, ";"); p; p = strtok(NULL, ";")) {
    if (!strncmp(p, "prog=", 5)) on = !strcmp(program_invocation_short_name, p + 5);
    else if (!strncmp(p, "root=", 5) && nroots < 4) strncpy(roots[nroots++], p + 5, 511);
    else if (!strncmp(p, "out=", 4)) strncpy(outf, p + 4, 511);
    else if (!strncmp(p, "reads=", 6)) reads = p[6] == '1';
    else if (!strncmp(p, "std=", 4)) tracked[0] = p[4] == '1' ? 2 : 0, tracked[1] = p[4] == '1';
    else if (!strncmp(p, "drip=", 5)) drip = strtol(p + 5, 0, 10);
    else if (!strncmp(p, "wdrip=", 6)) wdrip = strtol(p + 6, 0, 10);
    else if (!strncmp(p, "pfault=", 7) && npfaults < MAXF) {
      pfaults[npfaults].at = strtol(p + 7, &p, 10);
      if (*p == ':') strncpy(pfaults[npfaults].kind, p + 1, 11);
      npfaults++;
    }
    else if (!strncmp(p, "fault=", 6) && nfaults < MAXF) {
      faults[nfaults].at = strtol(p + 6, &p, 10);
      if (*p == ':') strncpy(faults[nfaults].kind, p + 1, 11);
      nfaults++;
    }
  }
  active = on;
}
static void say(const char* k, const char* what) {
  if (!outf[0]) return;
  int fd = syscall(SYS_openat, AT_FDCWD, outf, O_WRONLY | O_CREAT | O_APPEND, 0666);
  char b[256];
  int l = snprintf(b, sizeof b, "%ld %s %s\n", n, k, what);
  syscall(SYS_write, fd, b, l);
  syscall(SYS_close, fd);
}
__attribute__((destructor)) static void done(void) {
  if (active) say("ops", "");
}
static int ours(const char* path) {
  char abs[1024];
  if (!path) return 0;
  if (path[0] != '/') {
    if (!getcwd(abs, 512)) return 0;
    strncat(abs, "/", 2);
    strncat(abs, path, 500);
    path = abs;
  }
  for (int i = 0; i < nroots; i++) {
    size_t l = strlen(roots[i]);
    if (!strncmp(path, roots[i], l) && (path[l] == '/' || path[l] == 0)) return 1;
  }
  return 0;
}
static void die(void) {
  syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
  for (;;) pause();
}
// The fault for this operation, or "".
static const char* next(const char* what, int writes) {
  n++;
  for (int i = 0; i < nfaults; i++)
    if (faults[i].at == n) {
      const char* k = faults[i].kind;
      // Those that make no sense here are left out.
      if (!strcmp(k, "short") && strcmp(what, "write") && strcmp(what, "copy") && strcmp(what, "read")) return "";
      if (!strcmp(k, "eintr") && strcmp(what, "write") && strcmp(what, "read") && strcmp(what, "open")) return "";
      if (!strcmp(k, "nosys") && strcmp(what, "copy")) return "";
      if ((!strcmp(k, "enospc") || !strcmp(k, "full")) && !writes) return "";
      say(k, what);
      if (!strcmp(k, "kill")) die();
      return k;
    }
  if (full && writes) return "enospc";
  return "";
}
static int err_of(const char* k) {
  if (!strcmp(k, "eio")) return EIO;
  if (!strcmp(k, "enospc")) return ENOSPC;
  if (!strcmp(k, "eacces")) return EACCES;
  if (!strcmp(k, "emfile")) return EMFILE;
  if (!strcmp(k, "eintr")) return EINTR;
  return 0;
}
#define FAIL(k)               \
  do {                        \
    int e_ = err_of(k);       \
    if (e_) {                 \
      errno = e_;             \
      return -1;              \
    }                         \
  } while (0)
// An operation without a size.
#define SIMPLE(what, is_ours, call)                                                 \
  do {                                                                              \
    if (!active || !(is_ours)) return call;                                         \
    const char* k = next(what, 1);                                                  \
    FAIL(k);                                                                        \
    long r_ = call;                                                                 \
    if (!strcmp(k, "torn") || !strcmp(k, "after")) die();                           \
    return r_;                                                                      \
  } while (0)

static int do_open(int dir, const char* path, int flags, mode_t mode) {
  if (!active || dir != AT_FDCWD || !ours(path)) {
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (fd >= 0 && fd < 4096) tracked[fd] = 0;
    return fd;
  }
  int w = (flags & O_ACCMODE) != O_RDONLY;
  const char* k = "";
  if (w || reads) {
    k = next("open", w);
    FAIL(k);
  }
  int fd = syscall(SYS_openat, dir, path, flags, mode);
  if (!strcmp(k, "torn") || !strcmp(k, "after")) die();
  if (fd >= 0 && fd < 4096) tracked[fd] = w ? 1 : 2;
  return fd;
}
#define OPEN(name)                                   \
  int name(const char* path, int flags, ...) {       \
    va_list ap;                                      \
    va_start(ap, flags);                             \
    mode_t m = va_arg(ap, int);                      \
    va_end(ap);                                      \
    return do_open(AT_FDCWD, path, flags, m);        \
  }
OPEN(open)
OPEN(open64)
#define OPENAT(name)                                 \
  int name(int d, const char* path, int flags, ...) {\
    va_list ap;                                      \
    va_start(ap, flags);                             \
    mode_t m = va_arg(ap, int);                      \
    va_end(ap);                                      \
    return do_open(d, path, flags, m);               \
  }
OPENAT(openat)
OPENAT(openat64)
int creat(const char* p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int is(int fd, int what) { return active && fd >= 0 && fd < 4096 && tracked[fd] == what; }
// Sized operations: `len` may shrink; whether to die or be full afterwards.
static int sized(const char* what, size_t* len, int* die_after, int writes) {
  const char* k = next(what, writes);
  int e = err_of(k);
  if (e) {
    errno = e;
    return -1;
  }
  if (!strcmp(k, "short") && *len > 1) *len /= 2;
  if (!strcmp(k, "torn")) *len /= 2, *die_after = 1;
  if (!strcmp(k, "after")) *die_after = 1;
  if (!strcmp(k, "full")) {
    full = 1;
    *len /= 2;
    if (*len == 0) {
      errno = ENOSPC;
      return -1;
    }
  }
  return 0;
}
// Pipes: what they were asked for, cut or interrupted.
static int piped(size_t* len) {
  pn++;
  for (int i = 0; i < npfaults; i++)
    if (pfaults[i].at == pn) {
      if (!strcmp(pfaults[i].kind, "eintr")) {
        errno = EINTR;
        return -1;
      }
      if (*len > 1) *len /= 2;
    }
  return 0;
}
int pipe2(int f[2], int flags) {
  int r = syscall(SYS_pipe2, f, flags);
  if (!r && active && npfaults)
    for (int i = 0; i < 2; i++)
      if (f[i] < 4096) tracked[f[i]] = 5;
  return r;
}
int pipe(int f[2]) { return pipe2(f, 0); }
ssize_t write(int fd, const void* b, size_t len) {
  int d = 0;
  if (is(fd, 5) && piped(&len)) return -1;
  if (is(fd, 1) && wdrip && len > (size_t)wdrip) len = wdrip;
  if (is(fd, 1) && sized("write", &len, &d, 1)) return -1;
  ssize_t r = syscall(SYS_write, fd, b, len);
  if (d) die();
  return r;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (is(fd, 1)) {
    // One part at a time, as a short write may.
    for (int i = 0; i < c; i++)
      if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return syscall(SYS_writev, fd, v, c);
}
ssize_t pwrite64(int fd, const void* b, size_t len, off_t o) {
  int d = 0;
  if (is(fd, 1) && sized("write", &len, &d, 1)) return -1;
  ssize_t r = syscall(SYS_pwrite64, fd, b, len, o);
  if (d) die();
  return r;
}
ssize_t read(int fd, void* b, size_t len) {
  int d = 0;
  if (is(fd, 5) && piped(&len)) return -1;
  if (is(fd, 2) && drip && len > (size_t)drip) len = drip;
  if (reads && (is(fd, 2) || is(fd, 1)) && sized("read", &len, &d, 0)) return -1;
  ssize_t r = syscall(SYS_read, fd, b, len);
  if (d) die();
  return r;
}
ssize_t copy_file_range(int in, off_t* io, int out, off_t* oo, size_t len, unsigned f) {
  int d = 0;
  if (is(out, 1)) {
    // The callers ask for as much as possible: what is there decides what half of it is.
    struct stat st;
    off_t pos = lseek(in, 0, SEEK_CUR);
    if (!fstat(in, &st) && pos >= 0 && (off_t)len > st.st_size - pos) len = st.st_size - pos > 0 ? st.st_size - pos : 1;
    long at = n + 1;
    for (int i = 0; i < nfaults; i++)
      if (faults[i].at == at && !strcmp(faults[i].kind, "nosys")) {
        next("copy", 1);
        errno = ENOSYS;
        return -1;
      }
    if (sized("copy", &len, &d, 1)) return -1;
    if (!len) {
      if (d) die();
      return 0;
    }
  }
  ssize_t r = syscall(SYS_copy_file_range, in, io, out, oo, len, f);
  if (d) die();
  return r;
}
ssize_t sendfile64(int out, int in, off_t* o, size_t len) {
  int d = 0;
  if (is(out, 1) && sized("copy", &len, &d, 1)) return -1;
  ssize_t r = syscall(SYS_sendfile, out, in, o, len);
  if (d) die();
  return r;
}
ssize_t sendfile(int out, int in, off_t* o, size_t len) { return sendfile64(out, in, o, len); }
int close(int fd) {
  if (fd >= 0 && fd < 4096) tracked[fd] = 0;
  return syscall(SYS_close, fd);
}
int rename(const char* a, const char* b) { SIMPLE("rename", ours(a) || ours(b), syscall(SYS_rename, a, b)); }
int renameat(int x, const char* a, int y, const char* b) { SIMPLE("rename", ours(a) || ours(b), syscall(SYS_renameat, x, a, y, b)); }
int renameat2(int x, const char* a, int y, const char* b, unsigned f) { SIMPLE("rename", ours(a) || ours(b), syscall(SYS_renameat2, x, a, y, b, f)); }
int link(const char* a, const char* b) { SIMPLE("link", ours(b), syscall(SYS_link, a, b)); }
int linkat(int x, const char* a, int y, const char* b, int f) { SIMPLE("link", ours(b), syscall(SYS_linkat, x, a, y, b, f)); }
int symlink(const char* a, const char* b) { SIMPLE("link", ours(b), syscall(SYS_symlink, a, b)); }
int unlink(const char* a) { SIMPLE("unlink", ours(a), syscall(SYS_unlink, a)); }
int unlinkat(int d, const char* a, int f) { SIMPLE("unlink", d == AT_FDCWD && ours(a), syscall(SYS_unlinkat, d, a, f)); }
int rmdir(const char* a) { SIMPLE("unlink", ours(a), syscall(SYS_rmdir, a)); }
int mkdir(const char* a, mode_t m) { SIMPLE("mkdir", ours(a), syscall(SYS_mkdir, a, m)); }
int truncate64(const char* a, off_t l) { SIMPLE("truncate", ours(a), syscall(SYS_truncate, a, l)); }
int ftruncate64(int fd, off_t l) { SIMPLE("truncate", is(fd, 1), syscall(SYS_ftruncate, fd, l)); }
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int fchmod(int fd, mode_t m) { SIMPLE("chmod", is(fd, 1), syscall(SYS_fchmod, fd, m)); }
int fsync(int fd) { SIMPLE("sync", is(fd, 1), syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { SIMPLE("sync", is(fd, 1), syscall(SYS_fdatasync, fd)); }
