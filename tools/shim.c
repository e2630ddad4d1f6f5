// Seams of the compiler process that hosts the macros. Randomness and clock come from VSIM_SEED for the
// whole process; what the macro library itself asks its surroundings (environment variables, files,
// process id, processors) is answered by the seed too. VSIM_SEED=0 answers the latter truthfully.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <sched.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static _Atomic uint64_t ctr, calls;
static uint64_t seed;
static int ready;
static __thread int inside;
extern char **environ;

// No dlsym: the allocator of the compiler starts up through some of these.
static char *real_getenv(const char *name) {
  size_t n = strlen(name);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return 0;
}
static void init(void) {
  static int done;
  if (done) return;
  done = 1;
  const char *s = real_getenv("VSIM_SEED");
  for (; s && *s >= '0' && *s <= '9'; s++) seed = seed * 10 + (uint64_t)(*s - '0');
}
__attribute__((constructor)) static void start(void) {
  void *p[2];
  init();
  backtrace(p, 2);
  ready = 1;
}

static uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t pick(const char *name) {
  uint64_t h = mix(seed ^ 0x77);
  const char *log = real_getenv("VSIM_ASKED");
  int fd = log ? (int)syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND, 0644) : -1;
  if (fd >= 0) dprintf(fd, "%s\n", name), close(fd);
  for (; *name; name++) h = mix(h ^ (uint8_t)*name);
  return h;
}
// Does the macro library ask, and not the compiler on behalf of it?
static int macro_asks(void) {
  if (!ready || !seed || inside) return 0;
  inside++;
  void *p[64];
  int n = backtrace(p, 64), yes = 0;
  for (int i = 0; i < n && !yes; i++) {
    Dl_info d;
    if (!dladdr(p[i], &d) || !d.dli_fname) continue;
    if (strstr(d.dli_fname, "librustc_driver")) break;
    yes = strstr(d.dli_fname, "bitfields_impl") != 0;
  }
  inside--;
  return yes;
}
static const char *const VALUES[] = {"", "0", "1", "2", "true", "false", "on", "off", "debug", "release", "little", "big", "lsb", "msb", "bitfields", "/tmp", "C", "UTC", "32", "1700000000"};
#define NVALUES (sizeof VALUES / sizeof *VALUES)

ssize_t getrandom(void *b, size_t n, unsigned f) {
  (void)f;
  init();
  for (size_t i = 0; i < n; i++)
    ((uint8_t *)b)[i] = (uint8_t)mix(mix(seed) + atomic_fetch_add(&ctr, 1));
  return (ssize_t)n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  init();
  uint64_t k = atomic_fetch_add(&calls, 1), s = mix(seed ^ 0x5151);
  t->tv_sec = (time_t)(1500000000ull + s % 400000000ull + (c ? 0 : 7) + k / 1000);
  t->tv_nsec = (long)((k % 1000) * 1000000 + s % 1000);
  return 0;
}
char *getenv(const char *name) {
  init();
  // the panic machinery of std asks for these
  if (strncmp(name, "RUST_", 5) == 0 || !macro_asks()) return real_getenv(name);
  uint64_t h = pick(name);
  return h % 3 == 0 ? real_getenv(name) : h % 3 == 1 ? 0 : (char *)VALUES[(h >> 8) % NVALUES];
}
// A file for the macro library: the real one, none, or one line of text.
static int give(const char *path, int *fd) {
  if (!macro_asks()) return 0;
  uint64_t h = pick(path);
  if (h % 3 == 0) return 0;
  if (h % 3 == 1) {
    errno = ENOENT;
    *fd = -1;
    return 1;
  }
  *fd = memfd_create("vsim", MFD_CLOEXEC);
  if (*fd >= 0) dprintf(*fd, "%s\n", VALUES[(h >> 8) % NVALUES]), lseek(*fd, 0, SEEK_SET);
  return 1;
}
int open64(const char *path, int fl, ...) {
  va_list a;
  va_start(a, fl);
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
  va_end(a);
  init();
  int fd;
  return give(path, &fd) ? fd : (int)syscall(SYS_openat, AT_FDCWD, path, fl | O_LARGEFILE, m);
}
int openat64(int at, const char *path, int fl, ...) {
  va_list a;
  va_start(a, fl);
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
  va_end(a);
  init();
  int fd;
  return give(path, &fd) ? fd : (int)syscall(SYS_openat, at, path, fl | O_LARGEFILE, m);
}
int statx(int at, const char *path, int fl, unsigned mask, struct statx *b) {
  init();
  if (*path && macro_asks()) {
    uint64_t h = pick(path);
    if (h % 3 == 1) return errno = ENOENT, -1;
    if (h % 3 == 2) return (int)syscall(SYS_statx, AT_FDCWD, "/proc/self/exe", 0, mask, b);
  }
  return (int)syscall(SYS_statx, at, path, fl, mask, b);
}
pid_t getpid(void) {
  init();
  return macro_asks() ? (pid_t)(1 + mix(seed ^ 0x9d) % 4000000) : (pid_t)syscall(SYS_getpid);
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  init();
  long k = syscall(SYS_sched_getaffinity, p, n, s);
  int r = k < 0 ? -1 : 0;
  if (k > 0) memset((char *)s + k, 0, n - (size_t)k);
  if (!r && macro_asks()) {
    memset(s, 0, n);
    ((uint8_t *)s)[0] = (uint8_t)((1u << (1 + mix(seed ^ 0xcf) % 8)) - 1);
  }
  return r;
}
