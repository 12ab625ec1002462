// vsim.c - the seams of a simulated process.
//
// Linked statically into the program under test, so that every call the Rust
// standard library (or a C dependency) makes for files, directories, clocks,
// randomness and threads resolves here.  Outside the simulator (VSIM_SOCK not
// set) every function forwards to libc and nothing changes.
//
// Under the simulator the process says hello on a unix socket, receives a plan
// and then takes every nondeterministic decision from that plan:
//   * file operations: numbered; faults are bound to operation numbers
//   * directory listing order, hash seeds, clocks: from seeds in the plan
//   * threads: one token; a thread runs only while it holds the token and gives
//     it up at instrumented points chosen by the plan or when it blocks
//   * in step mode every operation waits until the coordinator grants it
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))

// ---------------------------------------------------------------- raw syscalls
static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static ssize_t raw_write(int fd, const void *b, size_t n) {
  long r = raw(SYS_write, fd, (long)b, n, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return r;
}
static ssize_t raw_read(int fd, void *b, size_t n) {
  long r = raw(SYS_read, fd, (long)b, n, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return r;
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

// ---------------------------------------------------------------- state
static int on;            // simulated process
static int sock = -1;
static int stepping;      // every operation asks the coordinator
static int want_trace;
static uint64_t ops;      // numbered operations so far
static uint64_t oplimit = 4000000;
static uint64_t hash_state, dir_seed, dir_count;
static int dtype_unknown;
int vsim_fft_plan;
static uint64_t wbytes;
static int64_t cap = -1;  // remaining simulated disk space
static int64_t clk_real = 1700000000000000000LL, clk_mono = 5000000000LL, clk_step = 20000;
static uint64_t clk_calls;
static uint64_t trace_hash = 1469598103934665603ULL;

#define MAXF 256
struct fault { uint64_t op; char kind[12]; int64_t arg; int fired; };
static struct fault faults[MAXF];
static int nfaults;
struct sticky { uint64_t from; char cls; int err; int fired; char path[128]; };
static struct sticky stick[32];
static int nstick;
struct jump { uint64_t call; int64_t delta; };
static struct jump jumps[32];
static int njumps;

// the allocations from number mem_from on that fail, the thread that cannot be started
static uint64_t nalloc, mem_from, mem_to, nspawn, spawn_fail;

#define MAXFD 1024
static struct { char kind; char path[200]; } fds[MAXFD]; // kind: 0 untracked, 'r' or 'w'

static uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

// ---------------------------------------------------------------- coordinator
static void say(const char *fmt, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b - 1, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  int off = 0;
  while (off < n) {
    long r = raw(SYS_sendto, sock, (long)(b + off), n - off, MSG_NOSIGNAL, 0, 0);
    if (r == -EINTR) continue;
    if (r <= 0) _exit(98); // coordinator gone
    off += r;
  }
}
static char inbuf[65536];
static int inlen;
static int hear(char *line, int max) { // one line from the coordinator
  for (;;) {
    char *nl = memchr(inbuf, '\n', inlen);
    if (nl) {
      int n = nl - inbuf;
      int c = n < max - 1 ? n : max - 1;
      memcpy(line, inbuf, c);
      line[c] = 0;
      memmove(inbuf, nl + 1, inlen - n - 1);
      inlen -= n + 1;
      return 1;
    }
    if (inlen == (int)sizeof inbuf) _exit(98);
    long r = raw(SYS_read, sock, (long)(inbuf + inlen), sizeof inbuf - inlen, 0, 0, 0);
    if (r == -EINTR) continue;
    if (r <= 0) _exit(98);
    inlen += r;
  }
}
static void die_now(const char *how) { // crash of this process, or of its whole group
  say("K %llu %s", (unsigned long long)ops, how);
  char l[64];
  hear(l, sizeof l); // the coordinator kills the group, or answers so that we kill ourselves
  raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
  for (;;) pause();
}

static void thr_point(int cls, uintptr_t site);
static void vsim_stop(int code, void *unused);

// ---------------------------------------------------------------- memory
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int mem_fails(void) {
  if (!on) return 0;
  uint64_t k = ++nalloc;
  if (!mem_from || k < mem_from || k > mem_to) return 0;
  if (k == mem_from) say("F %llu nomem a", (unsigned long long)ops);
  errno = ENOMEM;
  return 1;
}
EXPORT void *malloc(size_t n) { return mem_fails() ? NULL : __libc_malloc(n); }
EXPORT void *calloc(size_t n, size_t m) { return mem_fails() ? NULL : __libc_calloc(n, m); }
EXPORT void *realloc(void *p, size_t n) { return mem_fails() ? NULL : __libc_realloc(p, n); }
EXPORT void *memalign(size_t a, size_t n) { return mem_fails() ? NULL : __libc_memalign(a, n); }
EXPORT void *aligned_alloc(size_t a, size_t n) { return mem_fails() ? NULL : __libc_memalign(a, n); }
EXPORT int posix_memalign(void **p, size_t a, size_t n) {
  void *q = mem_fails() ? NULL : __libc_memalign(a, n);
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}

// ---------------------------------------------------------------- operations
// Start of a numbered operation.  Returns the fault bound to it, or NULL.
static struct fault *op_begin(char cls, const char *path) {
  thr_point(2, 0);
  ops++;
  trace_hash = (trace_hash ^ (unsigned char)cls) * 1099511628211ULL;
  for (const char *p = path; *p; p++) trace_hash = (trace_hash ^ (unsigned char)*p) * 1099511628211ULL;
  if (ops > oplimit) { say("L %llu", (unsigned long long)ops); _exit(96); }
  if (stepping) {
    char l[64];
    say("S %llu %c %s", (unsigned long long)ops, cls, path);
    hear(l, sizeof l);
    if (l[0] == 'K') die_now("step");
  } else if (want_trace) say("T %llu %c %s", (unsigned long long)ops, cls, path);
  for (int i = 0; i < nfaults; i++)
    if (faults[i].op == ops) {
      struct fault *f = &faults[i];
      f->fired++;
      if (!strcmp(f->kind, "killb")) { say("F %llu killb %c", (unsigned long long)ops, cls); die_now("before"); }
      return f;
    }
  return NULL;
}
static void fired(struct fault *f, char cls) { say("F %llu %s %c", (unsigned long long)ops, f->kind, cls); }
static void op_end(struct fault *f, char cls) {
  if (f && !strcmp(f->kind, "killa")) { int e = errno; fired(f, cls); die_now("after"); errno = e; }
}
// error for a non-transfer operation; 1 if the call must fail now
static int op_fails(struct fault *f, char cls, const char *path) {
  if (f && (!strcmp(f->kind, "err") || !strcmp(f->kind, "eintr"))) {
    fired(f, cls);
    errno = !strcmp(f->kind, "eintr") ? EINTR : (int)f->arg;
    return 1;
  }
  for (int i = 0; i < nstick; i++)
    if (ops >= stick[i].from && (stick[i].cls == cls || (stick[i].cls == 'w' && cls == 'c' && stick[i].err == EDQUOT)) && (!stick[i].path[0] || strstr(path, stick[i].path))) {
      if (!stick[i].fired++) say("F %llu sticky%d %c", (unsigned long long)ops, stick[i].err, cls);
      errno = stick[i].err;
      return 1;
    }
  return 0;
}

static int tracked_path(const char *p) { return p[0] != '/' || !strncmp(p, "/tmp/vsim", 9) || !strncmp(p, "/dev/shm/vsim", 13); }

static int cgroup_path(const char *p) { return !strcmp(p, "/proc/self/cgroup") || !strncmp(p, "/sys/fs/cgroup", 14) || !strcmp(p, "/proc/cpuinfo"); }
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  if (on && cgroup_path(path)) { errno = ENOENT; return -1; }
  if (!on || !tracked_path(path) || (flags & O_DIRECTORY)) {
    long r = raw(SYS_openat, dirfd, (long)path, flags, mode, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return r;
  }
  char cls = (flags & O_ACCMODE) == O_RDONLY ? 'o' : 'c';
  struct fault *f = op_begin(cls, path);
  if (op_fails(f, cls, path)) return -1;
  if (cls == 'c' && cap == 0 && (flags & O_CREAT) && raw(SYS_faccessat, dirfd, (long)path, F_OK, 0, 0, 0) < 0) {
    say("F %llu nospace c", (unsigned long long)ops);
    errno = ENOSPC;
    return -1;
  }
  long r = raw(SYS_openat, dirfd, (long)path, flags, mode, 0, 0);
  if (r >= 0 && r < MAXFD) {
    fds[r].kind = cls == 'o' ? 'r' : 'w';
    snprintf(fds[r].path, sizeof fds[r].path, "%s", path);
  }
  if (r < 0) errno = -r;
  op_end(f, cls);
  if (r < 0) return -1;
  return r;
}
EXPORT int open64(const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
  return do_open(AT_FDCWD, p, flags, m);
}
EXPORT int open(const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
  return do_open(AT_FDCWD, p, flags, m);
}
EXPORT int openat64(int d, const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
  return do_open(d, p, flags, m);
}
EXPORT int openat(int d, const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
  return do_open(d, p, flags, m);
}
EXPORT int close(int fd) {
  if (fd >= 0 && fd < MAXFD) fds[fd].kind = 0;
  long r = raw(SYS_close, fd, 0, 0, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return 0;
}

static ssize_t sim_transfer(int fd, void *buf, size_t n, int iswrite, int64_t off) {
  int is_out = iswrite && (fd == 1) && !(fd < MAXFD && fds[fd].kind);
  if (!on || n == 0 || fd < 0 || fd >= MAXFD || (!fds[fd].kind && !is_out)) {
    long r = off >= 0 ? raw(iswrite ? SYS_pwrite64 : SYS_pread64, fd, (long)buf, n, off, 0, 0) : raw(iswrite ? SYS_write : SYS_read, fd, (long)buf, n, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return r;
  }
  char cls = is_out ? 'W' : iswrite ? 'w' : 'r';
  const char *path = is_out ? "<stdout>" : fds[fd].path;
  struct fault *f = op_begin(cls, path);
  if (op_fails(f, cls, path)) return -1;
  size_t len = n;
  int torn = 0;
  if (f && !strcmp(f->kind, "short")) {
    size_t k = f->arg < 0 ? n / 2 : (size_t)f->arg;
    if (k < 1) k = 1;
    if (k < len) { len = k; fired(f, cls); }
  }
  if (f && iswrite && !strcmp(f->kind, "torn")) {
    size_t k = f->arg < 0 ? n / 2 : (size_t)f->arg;
    if (k < len) len = k;
    torn = 1;
  }
  if (iswrite && !is_out && cap >= 0 && !torn) {
    if (cap == 0) { say("F %llu nospace w", (unsigned long long)ops); errno = ENOSPC; return -1; }
    if ((int64_t)len > cap) { len = cap; say("F %llu shortspace w", (unsigned long long)ops); }
  }
  size_t done = 0;
  while (done < len) { // the environment itself never shortens a transfer to a file
    long r = off >= 0 ? raw(iswrite ? SYS_pwrite64 : SYS_pread64, fd, (long)buf + done, len - done, off + done, 0, 0)
                      : raw(iswrite ? SYS_write : SYS_read, fd, (long)buf + done, len - done, 0, 0, 0);
    if (r == -EINTR) continue;
    if (r < 0) { if (done) break; errno = -r; return -1; }
    done += r;
    if (r == 0) break;
  }
  if (iswrite && !is_out) { wbytes += done; if (cap >= 0) cap -= done; }
  if (torn) { fired(f, cls); die_now("torn"); }
  op_end(f, cls);
  return done;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) { return sim_transfer(fd, (void *)b, n, 1, -1); }
EXPORT ssize_t read(int fd, void *b, size_t n) { return sim_transfer(fd, b, n, 0, -1); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return sim_transfer(fd, (void *)b, n, 1, o); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return sim_transfer(fd, b, n, 0, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_transfer(fd, v[i].iov_base, v[i].iov_len, 1, -1);
  return 0;
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_transfer(fd, v[i].iov_base, v[i].iov_len, 0, -1);
  return 0;
}
EXPORT ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl) { errno = ENOSYS; (void)a;(void)ao;(void)b;(void)bo;(void)n;(void)fl; if (!on) { long r = raw(SYS_copy_file_range, a, (long)ao, b, (long)bo, n, fl); if (r < 0) { errno = -r; return -1; } return r; } return -1; }
EXPORT ssize_t sendfile64(int a, int b, off64_t *o, size_t n) { if (!on) { long r = raw(SYS_sendfile, a, b, (long)o, n, 0, 0); if (r < 0) { errno = -r; return -1; } return r; } errno = EINVAL; return -1; }

#define SIMPLE(cls, path, call) \
  struct fault *f = NULL; \
  int simulated = on && tracked_path(path); \
  if (simulated) { f = op_begin(cls, path); if (op_fails(f, cls, path)) return -1; } \
  long r = call; \
  if (r < 0) errno = -r; \
  if (simulated) op_end(f, cls); \
  return r < 0 ? -1 : 0;
EXPORT int mkdir(const char *p, mode_t m) { SIMPLE('d', p, raw(SYS_mkdirat, AT_FDCWD, (long)p, m, 0, 0, 0)) }
EXPORT int rmdir(const char *p) { SIMPLE('m', p, raw(SYS_unlinkat, AT_FDCWD, (long)p, AT_REMOVEDIR, 0, 0, 0)) }
EXPORT int unlink(const char *p) { SIMPLE('m', p, raw(SYS_unlinkat, AT_FDCWD, (long)p, 0, 0, 0, 0)) }
EXPORT int unlinkat(int d, const char *p, int fl) { SIMPLE('m', p, raw(SYS_unlinkat, d, (long)p, fl, 0, 0, 0)) }
EXPORT int rename(const char *p, const char *q) { SIMPLE('m', p, raw(SYS_renameat, AT_FDCWD, (long)p, AT_FDCWD, (long)q, 0, 0)) }
EXPORT int fsync(int fd) { const char *p = fd >= 0 && fd < MAXFD && fds[fd].kind ? fds[fd].path : "/"; SIMPLE('f', p, raw(SYS_fsync, fd, 0, 0, 0, 0, 0)) }
EXPORT int fdatasync(int fd) { const char *p = fd >= 0 && fd < MAXFD && fds[fd].kind ? fds[fd].path : "/"; SIMPLE('f', p, raw(SYS_fdatasync, fd, 0, 0, 0, 0, 0)) }
EXPORT int ftruncate64(int fd, off64_t l) { const char *p = fd >= 0 && fd < MAXFD && fds[fd].kind ? fds[fd].path : "/"; SIMPLE('m', p, raw(SYS_ftruncate, fd, l, 0, 0, 0, 0)) }

// ---------------------------------------------------------------- directories
struct simdir { DIR *d; struct dirent64 **e; int n, i; char path[200]; struct simdir *next; };
static struct simdir *simdirs;
static int cmp_ent(const void *a, const void *b) { return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name); }
EXPORT DIR *opendir(const char *p) {
  REAL(opendir);
  if (!on || !tracked_path(p)) return real(p);
  struct fault *f = op_begin('D', p);
  if (op_fails(f, 'D', p)) return NULL;
  DIR *d = real(p);
  int e = errno;
  if (d) {
    static struct dirent64 *(*rd)(DIR *);
    if (!rd) rd = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
    struct simdir *s = __libc_calloc(1, sizeof *s);
    s->d = d;
    snprintf(s->path, sizeof s->path, "%s", p);
    struct dirent64 *x;
    while ((x = rd(d))) {
      s->e = realloc(s->e, (s->n + 1) * sizeof *s->e);
      struct dirent64 *c = __libc_malloc(sizeof *c);
      memset(c, 0, sizeof *c);
      memcpy(c, x, offsetof(struct dirent64, d_name));
      strcpy(c->d_name, x->d_name);
      if (dtype_unknown) c->d_type = DT_UNKNOWN;
      s->e[s->n++] = c;
    }
    qsort(s->e, s->n, sizeof *s->e, cmp_ent);
    uint64_t st = dir_seed + 0x51ED27 * ++dir_count;
    if (dir_seed)
      for (int i = s->n - 1; i > 0; i--) {
        int j = splitmix(&st) % (i + 1);
        struct dirent64 *t = s->e[i]; s->e[i] = s->e[j]; s->e[j] = t;
      }
    s->next = simdirs;
    simdirs = s;
  }
  errno = e;
  op_end(f, 'D');
  return d;
}
static struct simdir *find_dir(DIR *d) { for (struct simdir *s = simdirs; s; s = s->next) if (s->d == d) return s; return NULL; }
EXPORT struct dirent64 *readdir64(DIR *d) {
  REAL(readdir64);
  struct simdir *s = on ? find_dir(d) : NULL;
  if (!s) return real(d);
  struct fault *f = op_begin('e', s->path);
  if (op_fails(f, 'e', s->path)) return NULL;
  op_end(f, 'e');
  if (s->i >= s->n) return NULL;
  return s->e[s->i++];
}
EXPORT int closedir(DIR *d) {
  REAL(closedir);
  if (on)
    for (struct simdir **q = &simdirs; *q; q = &(*q)->next)
      if ((*q)->d == d) {
        struct simdir *s = *q;
        *q = s->next;
        for (int i = 0; i < s->n; i++) free(s->e[i]);
        free(s->e);
        free(s);
        break;
      }
  return real(d);
}
EXPORT int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict b) {
  const char *volatile pv = p; // the standard library probes with a null path, which the declaration calls nonnull
  const char *pn = pv, *q = pn && pn[0] ? pn : "/";
  SIMPLE('s', q, raw(SYS_statx, d, (long)p, fl, mask, (long)b, 0))
}

// ---------------------------------------------------------------- randomness and clocks
EXPORT ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!on) {
    long r = raw(SYS_getrandom, (long)b, n, fl, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return r;
  }
  for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = splitmix(&hash_state) >> 24;
  return n;
}
EXPORT int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
EXPORT int clock_gettime(clockid_t c, struct timespec *t) {
  if (!on) {
    long r = raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return 0;
  }
  clk_calls++;
  clk_real += clk_step;
  clk_mono += clk_step;
  for (int i = 0; i < njumps; i++)
    if (jumps[i].call == clk_calls) {
      clk_real += jumps[i].delta;
      if (jumps[i].delta > 0) clk_mono += jumps[i].delta;
      say("F %llu clockjump t", (unsigned long long)ops);
    }
  int64_t v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? clk_real : clk_mono;
  t->tv_sec = v / 1000000000;
  t->tv_nsec = v % 1000000000;
  return 0;
}

// ---------------------------------------------------------------- threads
// One token.  T[cur] runs; the others wait on their own word.
#define MAXT 64
enum { T_FREE, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
struct thr { int st; uint32_t go; uintptr_t addr; int64_t wake; int timed_out, joined; uintptr_t parked; uint64_t until; pthread_t pt; void *(*fn)(void *); void *arg; uint32_t bitset; };
static struct thr T[MAXT];
static int nthr = 1, cur = 0, threads_on;
static __thread int self_id;
static uint64_t points[3];       // scheduling points so far: 0 code, 1 shared memory access, 2 operations and locks
static uint64_t switches, forced;
static uint64_t sched_state;     // for the choices the schedule leaves open
static int sched_random;         // 0: lowest thread first
static uint32_t rand_switch;     // probability (per 2^32) of a switch at a point of the classes in rand_mask
static int rand_mask = 4;
// A thread that comes to a meeting site waits there until another one comes to
// the same site, so that both are in front of the same action at the same time.
static int meet_mask;            // classes of points that can be meeting sites
static uint64_t meet_mod, meet_res, meet_bound, meets;
static uint64_t sched_hash = 1469598103934665603ULL;
struct pre { int cls; uint64_t at; int choice; };
#define MAXP 4096
static struct pre pre[MAXP];
static int npre, prepos[3];
static struct pre *prel[3][MAXP];
static int npre_c[3];
static uint64_t next_pre[3] = {~0ULL, ~0ULL, ~0ULL};
static int in_sched;

static int pick(int include_self, int choice) {
  int c[MAXT], n = 0;
  uint64_t now = points[0] + points[1] + points[2];
  for (int i = 0; i < nthr; i++)
    if (T[i].st == T_RUN && (include_self || i != cur) && (!T[i].parked || now >= T[i].until)) c[n++] = i;
  if (!n) // all wait at meeting sites: any of them goes on
    for (int i = 0; i < nthr; i++)
      if (T[i].st == T_RUN && (include_self || i != cur)) c[n++] = i;
  if (!n) return -1;
  if (choice >= 0) return c[choice % n];
  if (sched_random) return c[splitmix(&sched_state) % n];
  // deterministic default: next runnable after the current one
  for (int i = 0; i < n; i++) if (c[i] > cur) return c[i];
  return c[0];
}
static void give(int to) { // hand the token to thread `to`
  cur = to;
  switches++;
  sched_hash = (sched_hash ^ (uint64_t)(to + 1)) * 1099511628211ULL;
  sched_hash = (sched_hash ^ points[1]) * 1099511628211ULL;
  sched_hash = (sched_hash ^ points[2]) * 1099511628211ULL;
  __atomic_store_n(&T[to].go, 1, __ATOMIC_SEQ_CST);
  raw(SYS_futex, (long)&T[to].go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static int dying; // a thread that gave its token away on its last steps
static void await_token(int me) {
  for (;;) {
    if (__atomic_exchange_n(&T[me].go, 0, __ATOMIC_SEQ_CST)) {
      // only go on when it is gone: it still returns its memory arena
      while (dying && raw(SYS_tgkill, getpid(), dying, 0, 0, 0, 0) == 0) raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
      dying = 0;
      return;
    }
    raw(SYS_futex, (long)&T[me].go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  }
}
static void switch_to(int to, int me) {
  if (to == me) return;
  give(to);
  await_token(me);
  T[me].parked = 0;
}
static void meet(uintptr_t site) {
  int me = self_id;
  for (int i = 0; i < nthr; i++)
    if (i != me && T[i].st == T_RUN && T[i].parked == site) {
      meets++;
      T[i].parked = 0;
      if (splitmix(&sched_state) & 1) switch_to(i, me);
      return;
    }
  int other = 0;
  for (int i = 0; i < nthr; i++) other |= i != me && T[i].st == T_RUN && !T[i].parked;
  if (!other) return;
  T[me].parked = site;
  T[me].until = points[0] + points[1] + points[2] + meet_bound;
  int to = pick(0, -1);
  if (to >= 0) switch_to(to, me);
  T[me].parked = 0;
}
static int wake_sleepers(void) { // nothing runnable: advance simulated time to the next deadline
  int best = -1;
  for (int i = 0; i < nthr; i++)
    if ((T[i].st == T_FUTEX || T[i].st == T_SLEEP) && T[i].wake >= 0 && (best < 0 || T[i].wake < T[best].wake)) best = i;
  if (best < 0) return 0;
  if (T[best].wake > clk_mono) { clk_real += T[best].wake - clk_mono; clk_mono = T[best].wake; }
  T[best].st = T_RUN;
  T[best].timed_out = 1;
  return 1;
}
static void block_here(void) { // current thread is not runnable any more
  int me = self_id;
  forced++;
  for (;;) {
    int to = pick(0, -1);
    if (to >= 0) { switch_to(to, me); return; }
    if (T[me].st == T_RUN) return;
    if (!wake_sleepers()) { say("X deadlock"); _exit(97); }
    if (T[me].st == T_RUN && pick(0, -1) < 0) return;
    if (T[me].st == T_RUN) { int t2 = pick(1, -1); if (t2 == me) return; switch_to(t2, me); return; }
  }
}
static void advance_pre(int cls) {
  while (prepos[cls] < npre_c[cls] && prel[cls][prepos[cls]]->at <= points[cls]) prepos[cls]++;
  next_pre[cls] = prepos[cls] < npre_c[cls] ? prel[cls][prepos[cls]]->at : ~0ULL;
}
static void thr_point(int cls, uintptr_t site) {
  if (!threads_on || in_sched) return;
  uint64_t p = ++points[cls];
  if (p == next_pre[cls]) {
    int choice = prel[cls][prepos[cls]]->choice;
    advance_pre(cls);
    in_sched = 1;
    int to = pick(0, choice);
    in_sched = 0;
    if (to >= 0) { say("P %d %llu %d", cls, (unsigned long long)p, to); switch_to(to, self_id); }
  } else if (rand_switch && (rand_mask >> cls & 1) && (uint32_t)splitmix(&sched_state) < rand_switch) {
    int to = pick(0, -1);
    if (to >= 0) switch_to(to, self_id);
  } else if (site && (meet_mask >> cls & 1) && (site * 0x9E3779B97F4A7C15ULL >> 20) % meet_mod == meet_res) meet(site);
}
static pthread_key_t end_key;
static void thread_end(void *v) { // runs when the thread's own destructors are done
  int me = (int)(intptr_t)v - 1;
  T[me].st = T_DONE;
  for (int i = 0; i < nthr; i++) if (T[i].st == T_JOIN && T[i].addr == (uintptr_t)me) T[i].st = T_RUN;
  int to = pick(0, -1);
  while (to < 0 && wake_sleepers()) to = pick(0, -1);
  if (to < 0) { say("X deadlock"); _exit(97); }
  dying = (int)raw(SYS_gettid, 0, 0, 0, 0, 0, 0);
  give(to);
}
static void *thread_main(void *v) {
  int me = (int)(intptr_t)v;
  self_id = me;
  await_token(me);
  pthread_setspecific(end_key, (void *)(intptr_t)(me + 1));
  return T[me].fn(T[me].arg);
}
EXPORT int pthread_create(pthread_t *restrict t, const pthread_attr_t *restrict a, void *(*fn)(void *), void *restrict arg) {
  REAL(pthread_create);
  if (!on) return real(t, a, fn, arg);
  if (nthr >= MAXT) return EAGAIN;
  if (++nspawn == spawn_fail) { say("F %llu nothread T", (unsigned long long)ops); return EAGAIN; }
  if (!threads_on) { pthread_key_create(&end_key, thread_end); threads_on = 1; T[0].st = T_RUN; T[0].pt = pthread_self(); }
  int id = nthr;
  T[id].st = T_RUN; T[id].fn = fn; T[id].arg = arg; T[id].wake = -1;
  int r = real(&T[id].pt, a, thread_main, (void *)(intptr_t)id);
  if (r) { T[id].st = T_DONE; return r; }
  nthr++;
  *t = T[id].pt;
  thr_point(2, 0);
  return 0;
}
EXPORT int pthread_join(pthread_t t, void **res) {
  REAL(pthread_join);
  if (on && threads_on)
    for (int i = 0; i < nthr; i++)
      if (T[i].st != T_FREE && pthread_equal(T[i].pt, t) && i != self_id) {
        if (T[i].st != T_DONE) { T[self_id].st = T_JOIN; T[self_id].addr = i; T[self_id].wake = -1; block_here(); }
        break;
      }
  return real(t, res);
}
// The simulated machine has as many processors as the drawn number of threads.
static int processors(void) {
  const char *e = getenv("RAYON_NUM_THREADS");
  int n = e ? atoi(e) : 2;
  return n < 1 ? 1 : n > 60 ? 60 : n;
}
EXPORT int sched_getaffinity(pid_t p, size_t len, cpu_set_t *set) {
  if (!on) {
    long r = raw(SYS_sched_getaffinity, p, (long)len, (long)set, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    memset((char *)set + r, 0, len - r);
    return 0;
  }
  memset(set, 0, len);
  for (int i = 0; i < processors(); i++) CPU_SET_S(i, len, set);
  return 0;
}
EXPORT long sysconf(int name) {
  REAL(sysconf);
  if (on && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return processors();
  return real(name);
}
EXPORT int sched_yield(void) {
  if (!on || !threads_on) { raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0); return 0; }
  points[2]++;
  advance_pre(2);
  int to = pick(0, -1);
  if (to >= 0) switch_to(to, self_id);
  return 0;
}
static int sim_sleep(int64_t ns) {
  if (!threads_on) { clk_real += ns; clk_mono += ns; return 0; }
  T[self_id].st = T_SLEEP;
  T[self_id].wake = clk_mono + ns;
  block_here();
  return 0;
}
EXPORT int nanosleep(const struct timespec *t, struct timespec *rem) {
  if (!on) { long r = raw(SYS_nanosleep, (long)t, (long)rem, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
  return sim_sleep(t->tv_sec * 1000000000LL + t->tv_nsec);
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) {
  if (!on) { long r = raw(SYS_clock_nanosleep, c, fl, (long)t, (long)rem, 0, 0); return r < 0 ? -r : 0; }
  int64_t ns = t->tv_sec * 1000000000LL + t->tv_nsec;
  if (fl & TIMER_ABSTIME) ns -= clk_mono;
  return sim_sleep(ns > 0 ? ns : 0);
}
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t bits) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    struct thr *t = &T[self_id];
    t->st = T_FUTEX; t->addr = (uintptr_t)addr; t->timed_out = 0; t->wake = -1;
    t->bitset = cmd == FUTEX_WAIT ? ~0u : bits;
    if (to) {
      int64_t ns = to->tv_sec * 1000000000LL + to->tv_nsec;
      t->wake = cmd == FUTEX_WAIT ? clk_mono + ns : (op & FUTEX_CLOCK_REALTIME) ? clk_mono + (ns - clk_real) : ns;
      if (t->wake < 0) t->wake = 0;
    }
    block_here();
    return t->timed_out ? -ETIMEDOUT : 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    long n = 0;
    while (n < (long)val) {
      int c[MAXT], m = 0;
      for (int i = 0; i < nthr; i++)
        if (T[i].st == T_FUTEX && T[i].addr == (uintptr_t)addr && (cmd == FUTEX_WAKE || (T[i].bitset & bits))) c[m++] = i;
      if (!m) break;
      int i = c[sched_random ? splitmix(&sched_state) % m : 0];
      T[i].st = T_RUN;
      n++;
    }
    thr_point(2, 0);
    return n;
  }
  return -ENOSYS;
}
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  long r;
  if (on && n == SYS_futex && threads_on) r = sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
  else if (on && n == SYS_futex) {
    int cmd = (int)b & FUTEX_CMD_MASK;
    if ((cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) && __atomic_load_n((uint32_t *)a, __ATOMIC_SEQ_CST) == (uint32_t)c && !d) { say("X deadlock"); _exit(97); }
    r = cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET ? 0 : raw(n, a, b, c, d, e, f);
  }
  else if (on && n == SYS_getrandom) return getrandom((void *)a, b, c);
  else if (on && n == SYS_copy_file_range) r = -ENOSYS;
  else r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

// ---------------------------------------------------------------- instrumentation (optional build)
extern char __data_start[] __attribute__((weak)), _end[] __attribute__((weak));
static uintptr_t heap_base;
// Keys are relative to the data segment and to the start of the heap, so that
// address randomisation cannot influence which points count.
static struct { uintptr_t a; int8_t tid; int8_t multi; } shadow[1 << 16];
extern char __executable_start[] __attribute__((weak));
#define SITE ((uintptr_t)__builtin_return_address(0) - (uintptr_t)__executable_start)
static inline void mem_point(uintptr_t a, uintptr_t site) {
  if (!threads_on) return;
  uintptr_t w;
  int shared = 0;
  if (a >= (uintptr_t)__data_start && a < (uintptr_t)_end) { shared = 1; w = (a - (uintptr_t)__data_start) >> 3; }
  else if (a >= heap_base && a < heap_base + (1ULL << 32)) w = (1ULL << 40) + ((a - heap_base) >> 3);
  else return;
  if (!shared) {
    unsigned h = (unsigned)((w * 0x9E3779B97F4A7C15ULL) >> 48);
    int me = self_id;
    if (shadow[h].a == w) {
      if (shadow[h].tid != me) { shadow[h].multi = 1; shadow[h].tid = me; }
      shared = shadow[h].multi;
    } else { shadow[h].a = w; shadow[h].tid = me; shadow[h].multi = 0; }
  }
  if (shared) thr_point(1, site);
}
EXPORT void __sanitizer_cov_load1(uint8_t *a) { mem_point((uintptr_t)a, SITE); }
EXPORT void __sanitizer_cov_load2(uint16_t *a) { mem_point((uintptr_t)a, SITE); }
EXPORT void __sanitizer_cov_load4(uint32_t *a) { mem_point((uintptr_t)a, SITE); }
EXPORT void __sanitizer_cov_load8(uint64_t *a) { mem_point((uintptr_t)a, SITE); }
EXPORT void __sanitizer_cov_load16(__int128 *a) { mem_point((uintptr_t)a, SITE); }
EXPORT void __sanitizer_cov_store1(uint8_t *a) { mem_point((uintptr_t)a, SITE); }
EXPORT void __sanitizer_cov_store2(uint16_t *a) { mem_point((uintptr_t)a, SITE); }
EXPORT void __sanitizer_cov_store4(uint32_t *a) { mem_point((uintptr_t)a, SITE); }
EXPORT void __sanitizer_cov_store8(uint64_t *a) { mem_point((uintptr_t)a, SITE); }
EXPORT void __sanitizer_cov_store16(__int128 *a) { mem_point((uintptr_t)a, SITE); }
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t *g) { thr_point(0, (uintptr_t)g - (uintptr_t)__executable_start); }
EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
EXPORT void __sanitizer_cov_trace_pc(void) { thr_point(0, SITE); }

// ---------------------------------------------------------------- start and end
static int pre_cmp(const void *a, const void *b) {
  uint64_t x = (*(struct pre **)a)->at, y = (*(struct pre **)b)->at;
  return x < y ? -1 : x > y;
}
static void parse_plan(void) {
  char l[512];
  for (;;) {
    hear(l, sizeof l);
    if (!strcmp(l, "END")) break;
    unsigned long long a, b, d;
    long long c = -1;
    char s[128], k[16];
    if (sscanf(l, "hash %llu", &a) == 1) hash_state = a;
    else if (sscanf(l, "dir %llu", &a) == 1) dir_seed = a;
    else if (!strcmp(l, "dtype unknown")) dtype_unknown = 1;
    else if (sscanf(l, "fft %lld", &c) == 1) vsim_fft_plan = (int)c;
    else if (sscanf(l, "clock %lld %llu", &c, &a) == 2) { clk_real = c; clk_step = a; }
    else if (sscanf(l, "jump %llu %lld", &a, &c) == 2) { if (njumps < 32) jumps[njumps++] = (struct jump){a, c}; }
    else if (sscanf(l, "fault %llu %11s %lld", &a, k, &c) == 3) { if (nfaults < MAXF) { faults[nfaults].op = a; strcpy(faults[nfaults].kind, k); faults[nfaults++].arg = c; } }
    else if (sscanf(l, "sticky %llu %1s %llu %127s", &a, k, &b, s) == 4) { if (nstick < 32) { stick[nstick].from = a; stick[nstick].cls = k[0]; stick[nstick].err = (int)b; strcpy(stick[nstick].path, strcmp(s, "*") ? s : ""); nstick++; } }
    else if (sscanf(l, "nomem %llu %llu", &a, &b) == 2) { mem_from = a; mem_to = b ? a + b - 1 : ~0ULL; }
    else if (sscanf(l, "nothread %llu", &a) == 1) spawn_fail = a;
    else if (sscanf(l, "cap %lld", &c) == 1) cap = c;
    else if (!strcmp(l, "step")) stepping = 1;
    else if (!strcmp(l, "trace")) want_trace = 1;
    else if (sscanf(l, "oplimit %llu", &a) == 1) oplimit = a;
    else if (sscanf(l, "sched %llu %llu %lld", &a, &b, &c) >= 2) { sched_random = 1; sched_state = a; rand_switch = (uint32_t)b; rand_mask = c >= 0 ? (int)c : 4; }
    else if (sscanf(l, "meet %lld %llu %llu %llu", &c, &a, &b, &d) == 4) { meet_mask = (int)c; meet_mod = a ? a : 1; meet_res = b; meet_bound = d; }
    else if (sscanf(l, "pre %lld %llu %llu", &c, &a, &b) == 3) { if (npre < MAXP && c >= 0 && c < 3) pre[npre++] = (struct pre){(int)c, a, (int)b}; }
    else { say("E bad plan line %s", l); _exit(98); }
  }
  for (int i = 0; i < npre; i++) prel[pre[i].cls][npre_c[pre[i].cls]++] = &pre[i];
  for (int c = 0; c < 3; c++) { qsort(prel[c], npre_c[c], sizeof prel[c][0], pre_cmp); next_pre[c] = npre_c[c] ? prel[c][0]->at : ~0ULL; }
}
__attribute__((constructor(101))) static void vsim_start(int argc, char **argv) {
  const char *p = getenv("VSIM_SOCK");
  if (!p || !*p) return;
  int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  struct sockaddr_un a = {.sun_family = AF_UNIX};
  if (s < 0 || strlen(p) >= sizeof a.sun_path) _exit(98);
  strcpy(a.sun_path, p);
  if (connect(s, (struct sockaddr *)&a, sizeof a)) _exit(98);
  sock = (int)raw(SYS_fcntl, s, F_DUPFD_CLOEXEC, 900, 0, 0, 0); // keep low descriptors free
  if (sock < 0) sock = s; else raw(SYS_close, s, 0, 0, 0, 0, 0);
  char b[900];
  int n = 0;
  for (int i = 1; i < argc && n < 800; i++) n += snprintf(b + n, sizeof b - n, "%s%.200s", i > 1 ? " " : "", argv[i]);
  b[n] = 0;
  say("H %d node %s %s", (int)getpid(), getenv("VSIM_TAG") ? getenv("VSIM_TAG") : "-", b);
  parse_plan();
  setrlimit(RLIMIT_CORE, &(struct rlimit){0, 0}); // an aborting process leaves no file behind
  mallopt(M_ARENA_MAX, 1);
  mallopt(M_MMAP_THRESHOLD, 1 << 30);
  mallopt(M_MMAP_MAX, 0);
  heap_base = (uintptr_t)sbrk(0) & ~0xfffUL;
  if (heap_base > (1 << 20)) heap_base -= 1 << 20;
  T[0].st = T_RUN;
  on_exit(vsim_stop, NULL);
  on = 1;
}
static void vsim_stop(int code, void *unused) {
  (void)unused;
  if (!on) return;
  on = 0;
  say("B code=%d ops=%llu wbytes=%llu p0=%llu p1=%llu p2=%llu sw=%llu forced=%llu thr=%d meet=%llu mem=%llu clk=%lld th=%llx sh=%llx", code, (unsigned long long)ops, (unsigned long long)wbytes,
      (unsigned long long)points[0], (unsigned long long)points[1], (unsigned long long)points[2], (unsigned long long)switches, (unsigned long long)forced, nthr, (unsigned long long)meets, (unsigned long long)nalloc,
      (long long)clk_mono - 5000000000LL, (unsigned long long)trace_hash, (unsigned long long)sched_hash);
}
EXPORT int vsim_active(void) { return on; }
