// Puts pipes, child processes and threads of this process behind hooks while a simulation runs.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

// 0 no simulation.
int sim_on = 0;
unsigned char sim_fd[1024];

long hook_write(int fd, const void* b, size_t n);
long hook_read(int fd, void* b, size_t n);
long hook_poll(struct pollfd* f, long n, int timeout);
long hook_close(int fd);
long hook_pipe(int* fds);
long hook_spawn(int* pid);
long hook_wait(int pid, int* status, int options);
long hook_kill(int pid, int sig);
void hook_nonblock(int fd, int on);
long hook_thread_new(void);
void hook_thread_start(long id);
void hook_thread_end(long id);
void hook_join(unsigned long t);
void hook_thread_is(long id, unsigned long t);
void hook_sleep(void);

long hook_futex(volatile int* a, int v, int timed);
__thread int in_hook = 0;
int swap_in_hook(int v) {
  int o = in_hook;
  in_hook = v;
  return o;
}
void set_sim_on(int v) { __atomic_store_n(&sim_on, v, __ATOMIC_SEQ_CST); }
void set_sim_fd(int fd, int v) { sim_fd[fd] = v; }

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long ret(long r);
#define RAW(n, a, b, c, d, e, f) ret(raw(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f)))

// What the standard library's locks, parking and channels wait with.
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && !in_hook && __atomic_load_n(&sim_on, __ATOMIC_SEQ_CST)) {
    int op = b & 127;
    if (op == 0 || op == 9) {
      long r = hook_futex((volatile int*)a, (int)c, d != 0);
      if (r <= 0) return ret(r);
    }
  }
  return RAW(n, a, b, c, d, e, f);
}

static long ret(long r) {
  if (r < 0 && r > -4096) {
    errno = -r;
    return -1;
  }
  return r;
}
static int ours(int fd) { return __atomic_load_n(&sim_on, __ATOMIC_SEQ_CST) && fd >= 0 && fd < 1024 && sim_fd[fd]; }

ssize_t write(int fd, const void* b, size_t n) {
  if (ours(fd)) return ret(hook_write(fd, b, n));
  return RAW(SYS_write, fd, b, n, 0, 0, 0);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (ours(fd)) {
    for (int i = 0; i < c; i++)
      if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return RAW(SYS_writev, fd, v, c, 0, 0, 0);
}
ssize_t read(int fd, void* b, size_t n) {
  if (ours(fd)) return ret(hook_read(fd, b, n));
  return RAW(SYS_read, fd, b, n, 0, 0, 0);
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (ours(fd)) {
    for (int i = 0; i < c; i++)
      if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return RAW(SYS_readv, fd, v, c, 0, 0, 0);
}
ssize_t splice(int a, off64_t* ao, int b, off64_t* bo, size_t n, unsigned f) {
  if (ours(a) || ours(b)) {
    errno = EINVAL;
    return -1;
  }
  return RAW(SYS_splice, a, ao, b, bo, n, f);
}
int poll(struct pollfd* f, nfds_t n, int timeout) {
  for (nfds_t i = 0; i < n; i++)
    if (ours(f[i].fd)) return ret(hook_poll(f, n, timeout));
  return RAW(SYS_poll, f, n, timeout, 0, 0, 0);
}
int close(int fd) {
  if (ours(fd)) return ret(hook_close(fd));
  return RAW(SYS_close, fd, 0, 0, 0, 0, 0);
}
int pipe2(int* fds, int flags) {
  if (__atomic_load_n(&sim_on, __ATOMIC_SEQ_CST)) {
    int r = ret(hook_pipe(fds));
    return r;
  }
  return RAW(SYS_pipe2, fds, flags, 0, 0, 0, 0);
}
int pipe(int* fds) { return pipe2(fds, 0); }
int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void* a = va_arg(ap, void*);
  va_end(ap);
  if (req == FIONBIO && ours(fd)) {
    hook_nonblock(fd, *(int*)a);
    return 0;
  }
  return RAW(SYS_ioctl, fd, req, a, 0, 0, 0);
}
int posix_spawnp(pid_t* pid, const char* file, const posix_spawn_file_actions_t* fa, const posix_spawnattr_t* at, char* const argv[], char* const envp[]) {
  if (__atomic_load_n(&sim_on, __ATOMIC_SEQ_CST)) return -(int)hook_spawn(pid);
  typedef int (*F)(pid_t*, const char*, const posix_spawn_file_actions_t*, const posix_spawnattr_t*, char* const[], char* const[]);
  return ((F)dlsym(RTLD_NEXT, "posix_spawnp"))(pid, file, fa, at, argv, envp);
}
pid_t waitpid(pid_t pid, int* st, int opt) {
  if (__atomic_load_n(&sim_on, __ATOMIC_SEQ_CST)) return ret(hook_wait(pid, st, opt));
  return RAW(SYS_wait4, pid, st, opt, 0, 0, 0);
}
int kill(pid_t pid, int sig) {
  if (__atomic_load_n(&sim_on, __ATOMIC_SEQ_CST)) return ret(hook_kill(pid, sig));
  return RAW(SYS_kill, pid, sig, 0, 0, 0, 0);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
  if (__atomic_load_n(&sim_on, __ATOMIC_SEQ_CST)) {
    hook_sleep();
    return 0;
  }
  return -raw(SYS_clock_nanosleep, c, fl, (long)a, (long)b, 0, 0);
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (__atomic_load_n(&sim_on, __ATOMIC_SEQ_CST)) {
    hook_sleep();
    return 0;
  }
  return RAW(SYS_nanosleep, a, b, 0, 0, 0, 0);
}

struct start {
  void* (*f)(void*);
  void* arg;
  long id;
};
static void* tramp(void* p) {
  struct start s = *(struct start*)p;
  free(p);
  hook_thread_start(s.id);
  void* r = s.f(s.arg);
  hook_thread_end(s.id);
  return r;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = 0;
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  if (!__atomic_load_n(&sim_on, __ATOMIC_SEQ_CST)) return real(t, a, f, arg);
  long id = hook_thread_new();
  if (id < 0) return -id;
  struct start* s = malloc(sizeof *s);
  s->f = f;
  s->arg = arg;
  s->id = id;
  int r = real(t, a, tramp, s);
  hook_thread_is(id, *t);
  return r;
}
int pthread_join(pthread_t t, void** r) {
  static int (*real)(pthread_t, void**) = 0;
  if (!real) real = dlsym(RTLD_NEXT, "pthread_join");
  if (__atomic_load_n(&sim_on, __ATOMIC_SEQ_CST)) hook_join(t);
  return real(t, r);
}
