// What a process gets from its surroundings without asking for it, chosen by a seed: random bytes,
// the addresses of heap blocks, the order of directory entries, the time of day, the process id and
// the number of processors. Loaded with LD_PRELOAD; AMBIENT=prog=NAME;seed=N.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern char* program_invocation_short_name;
extern char** environ;
static int state = 0;  // 0 not looked, 1 off, 2 on
static uint64_t seed = 0;

static uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static int on(void) {
  if (state) return state == 2;
  // malloc comes here before libc is ready: no getenv.
  if (!environ) return 0;
  int is = 0;
  for (char** e = environ; *e; e++)
    if (!strncmp(*e, "AMBIENT=", 8)) {
      char* p = strstr(*e, "seed=");
      if (p) {
        is = 1;
        for (p += 5; *p >= '0' && *p <= '9'; p++) seed = seed * 10 + (*p - '0');
        char* want = strstr(*e, "prog=");
        if (want) {
          char exe[512];
          long k = syscall(SYS_readlink, "/proc/self/exe", exe, sizeof exe - 1);
          exe[k > 0 ? k : 0] = 0;
          char* name = strrchr(exe, '/');
          name = name ? name + 1 : exe;
          size_t l = strlen(name);
          is = !strncmp(want + 5, name, l) && (want[5 + l] == ';' || want[5 + l] == 0);
        }
      }
    }
  state = is ? 2 : 1;
  return is;
}

// The heap. Blocks are never given back; freed ones are used again, or not, as the seed says.
static char lock = 0;
static void enter(void) {
  while (__atomic_test_and_set(&lock, __ATOMIC_ACQUIRE)) sched_yield();
}
static void leave(void) { __atomic_clear(&lock, __ATOMIC_RELEASE); }
static char* top = 0;
static char* end = 0;
static uint64_t draws = 0;
#define CLASSES 160
static void* freed[CLASSES];

static int class_of(size_t n, size_t* rounded) {
  if (n < 16) n = 16;
  if (n <= 512) {
    n = (n + 15) & ~15ul;
    *rounded = n;
    return n / 16 - 1;  // 0..31
  }
  int b = 63 - __builtin_clzl(n - 1);  // 2^b <= n-1 < 2^(b+1)
  size_t q = 1ul << (b - 2);
  size_t k = (n - (1ul << b) + q - 1) / q;  // 1..4
  *rounded = (1ul << b) + k * q;
  return 32 + (b - 9) * 4 + (k - 1);
}
static void* get(size_t n, size_t align) {
  if (n > (1ul << 36)) {
    errno = ENOMEM;
    return 0;
  }
  size_t r;
  int c = class_of(n, &r);
  enter();
  int is = on();
  if (!top) {
    size_t size = 64ul << 30;
    char* at = (char*)(0x200000000000ul + (is ? (mix(seed) % 4096) * 0x100000000ul + (mix(seed + 1) % 65536) * 4096 : 0));
    top = mmap(at, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | 0x100000, -1, 0);
    if (top == MAP_FAILED) top = mmap(0, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (top == MAP_FAILED) _exit(97);
    end = top + size;
  }
  uint64_t d = is ? mix(seed * 31 + ++draws) : 0;
  char* p;
  if (align <= 16 && freed[c] && (d & 7) != 7) {
    p = freed[c];
    freed[c] = *(void**)p;
    leave();
    return p;
  }
  p = top + 16 + ((d >> 8) % 8) * 16;
  if (align > 16) p = (char*)(((uintptr_t)p + align - 1) & ~(align - 1));
  top = p + r;
  if (top > end) _exit(98);
  leave();
  *(size_t*)(p - 8) = n > r ? n : r;
  return p;
}
void* malloc(size_t n) { return get(n, 16); }
void free(void* p) {
  if (!p) return;
  size_t r;
  int c = class_of(*(size_t*)((char*)p - 8), &r);
  enter();
  *(void**)p = freed[c];
  freed[c] = p;
  leave();
}
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return 0;
  void* p = malloc(n);
  if (p) memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  size_t old = *(size_t*)((char*)p - 8);
  if (n <= old && n > old / 2) return p;
  void* q = malloc(n);
  if (q) {
    memcpy(q, p, n < old ? n : old);
    free(p);
  }
  return q;
}
void* memalign(size_t a, size_t n) { return get(n, a); }
void* aligned_alloc(size_t a, size_t n) { return get(n, a); }
int posix_memalign(void** out, size_t a, size_t n) {
  *out = get(n, a);
  return *out ? 0 : ENOMEM;
}
void* valloc(size_t n) { return get(n, 4096); }
size_t malloc_usable_size(void* p) { return p ? *(size_t*)((char*)p - 8) : 0; }

static uint64_t bytes_given = 0;
ssize_t getrandom(void* buf, size_t n, unsigned flags) {
  if (!on()) return syscall(SYS_getrandom, buf, n, flags);
  for (size_t i = 0; i < n; i++) ((unsigned char*)buf)[i] = mix(seed * 77 + bytes_given++) >> 24;
  return n;
}
int getentropy(void* buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }

int clock_gettime(clockid_t c, struct timespec* t) {
  int r = syscall(SYS_clock_gettime, c, t);
  if (!r && c == CLOCK_REALTIME && on()) t->tv_sec += (long)(mix(seed + 5) % 4000000000ul) - 1500000000;
  return r;
}
int gettimeofday(struct timeval* v, void* z) {
  struct timespec t;
  (void)z;
  clock_gettime(CLOCK_REALTIME, &t);
  v->tv_sec = t.tv_sec;
  v->tv_usec = t.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* out) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (out) *out = t.tv_sec;
  return t.tv_sec;
}
pid_t getpid(void) { return on() ? 100 + mix(seed + 6) % 4000000 : syscall(SYS_getpid); }

int sched_getaffinity(pid_t pid, size_t n, cpu_set_t* s) {
  int r = syscall(SYS_sched_getaffinity, pid, n, s);
  if (r < 0) return -1;
  memset((char*)s + r, 0, n - r);
  if (on()) {
    int keep = 1 + mix(seed + 7) % 16;
    for (size_t i = 0; i < n * 8; i++)
      if (CPU_ISSET_S(i, n, s) && --keep < 0) CPU_CLR_S(i, n, s);
  }
  return 0;
}

static struct {
  DIR* d;
  struct dirent64* e;
  size_t n, at;
} dirs[64];
struct dirent64* readdir64(DIR* d) {
  static struct dirent64* (*real)(DIR*);
  if (!real) real = dlsym(RTLD_NEXT, "readdir64");
  if (!on()) return real(d);
  int k = -1;
  for (int i = 0; i < 64; i++)
    if (dirs[i].d == d) k = i;
  if (k < 0) {
    for (int i = 0; i < 64; i++)
      if (!dirs[i].d) k = i;
    if (k < 0) return real(d);
    size_t cap = 4096;
    dirs[k].d = d;
    dirs[k].e = malloc(cap * sizeof(struct dirent64));
    dirs[k].n = dirs[k].at = 0;
    struct dirent64* e;
    while (dirs[k].n < cap && (e = real(d))) memcpy(&dirs[k].e[dirs[k].n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
    // The order they come in is not ours: by name first.
    for (size_t i = 1; i < dirs[k].n; i++)
      for (size_t j = i; j > 0 && strcmp(dirs[k].e[j - 1].d_name, dirs[k].e[j].d_name) > 0; j--) {
        struct dirent64 t = dirs[k].e[j];
        dirs[k].e[j] = dirs[k].e[j - 1];
        dirs[k].e[j - 1] = t;
      }
    for (size_t i = dirs[k].n; i > 1; i--) {
      size_t j = mix(seed * 13 + i) % i;
      struct dirent64 t = dirs[k].e[j];
      dirs[k].e[j] = dirs[k].e[i - 1];
      dirs[k].e[i - 1] = t;
    }
  }
  if (dirs[k].at >= dirs[k].n) return 0;
  return &dirs[k].e[dirs[k].at++];
}
struct dirent* readdir(DIR* d) { return (struct dirent*)readdir64(d); }
int closedir(DIR* d) {
  static int (*real)(DIR*);
  if (!real) real = dlsym(RTLD_NEXT, "closedir");
  for (int i = 0; i < 64; i++)
    if (dirs[i].d == d) {
      free(dirs[i].e);
      dirs[i].d = 0;
    }
  return real(d);
}
