// Simulated system boundary of the command line tool (LD_PRELOAD).
//
// Every file operation below SIM_ROOT, every write to the standard streams,
// every spawn, every request for randomness and every allocation goes through
// here. The plan in SIM_PLAN, derived from one seed, decides what each of them
// returns; SIM_TRACE receives one line per operation.
//
// Plan: items separated by ';'
//   seed=N           pseudo-random source of pacing and randomness
//   short=P          chance in 1024 that a read or write is short
//   eintr=P          chance in 1024 that a call is interrupted first
//   size=M           what stat says of a file: 0 truth, 1 zero, 2 half, 3 too much
//   at=K:ERR         operation K fails with errno ERR
//   full=N           the file system takes N more bytes, then ENOSPC
//   crash=K          the process dies before operation K; crash=K+ after it
//   crashb=K:N       operation K (a write) takes N bytes, then the process dies
//   mem=N            allocation N fails; mem=N+ that and all later ones
//   pad=N            the heap starts 16*N bytes later
//   norandom=1       getrandom is not there
//   spawn=ERR        spawning fails
//   turn=R:W         before every operation, ask for a turn on W and wait for it on R
//   pid=N            what getpid says
//   ppid=N           what getppid says
//   tty=M            which of the standard streams are terminals
//   envs=R           variables that are not set have values drawn from R
//   clock=S          the clock is simulated and starts S seconds after the epoch
//   jump=P           chance in 1024 that the wall clock jumps when it is read
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static int ready, trace_fd = -1;
static char root[4096];
static size_t rootlen;
static uint64_t rng = 1, seedv = 1, hashrng = 1;
static int p_short, p_eintr, size_mode, norandom, spawn_err;
static long crash_at = -1, crash_after, crashb_at = -1, crashb_n;
static long mem_at = -1, mem_all;
static long budget = -1;
static long padding;
static int turn_r = -1, turn_w = -1, has_clock, p_jump;
static pid_t fake_pid;
static int fake_ppid = -1, tty = -1;
static uint64_t envs;
static int64_t wall, mono; // simulated nanoseconds
void *__libc_malloc(size_t);
static void *volatile pad_block;
static struct { long k; int err; } at[32];
static int nat;
static long opno;
static pid_t child;
static long nalloc;
static unsigned char tracked[1024]; // 1 file below the root, 2 standard stream

static long sys3(long n, long a, long b, long c) {
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
  return r;
}
static long sys6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long ret(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
static uint64_t next(uint64_t *s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static void out(const char *fmt, ...) {
  if (trace_fd < 0) return;
  char b[600];
  va_list a;
  va_start(a, fmt);
  int n = vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  sys3(SYS_write, trace_fd, (long)b, n);
}

static void plan(const char *p) {
  while (*p) {
    char item[64];
    size_t n = strcspn(p, ";");
    if (n < sizeof item) {
      memcpy(item, p, n);
      item[n] = 0;
      char *v = strchr(item, '=');
      if (v) {
        *v++ = 0;
        char *end;
        long a = strtol(v, &end, 10);
        long b = *end == ':' ? strtol(end + 1, 0, 10) : 0;
        int plus = *end == '+';
        if (!strcmp(item, "seed")) rng = seedv = (uint64_t)a, hashrng = (uint64_t)a ^ 0x5bd1e995;
        else if (!strcmp(item, "short")) p_short = (int)a;
        else if (!strcmp(item, "eintr")) p_eintr = (int)a;
        else if (!strcmp(item, "size")) size_mode = (int)a;
        else if (!strcmp(item, "full")) budget = a;
        else if (!strcmp(item, "crash")) crash_at = a, crash_after = plus;
        else if (!strcmp(item, "crashb")) crashb_at = a, crashb_n = b;
        else if (!strcmp(item, "mem")) mem_at = a, mem_all = plus;
        else if (!strcmp(item, "pad")) padding = a;
        else if (!strcmp(item, "norandom")) norandom = (int)a;
        else if (!strcmp(item, "spawn")) spawn_err = (int)a;
        else if (!strcmp(item, "turn")) turn_r = (int)a, turn_w = (int)b;
        else if (!strcmp(item, "pid")) fake_pid = (pid_t)a;
        else if (!strcmp(item, "ppid")) fake_ppid = (int)a;
        else if (!strcmp(item, "tty")) tty = (int)a;
        else if (!strcmp(item, "envs")) envs = (uint64_t)a;
        else if (!strcmp(item, "clock")) has_clock = 1, wall = (int64_t)a * 1000000000, mono = 1000000000;
        else if (!strcmp(item, "jump")) p_jump = (int)a;
        else if (!strcmp(item, "at") && nat < 32) at[nat].k = a, at[nat++].err = (int)b;
      }
    }
    p += n;
    if (*p) p++;
  }
}

static int high(int fd) {
  if (fd < 0) return -1;
  long h = sys3(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
  sys3(SYS_close, fd, 0, 0);
  return (int)h;
}
// Waits until the scheduler lets this process go on. why: o operation, b would
// block, s sleeps.
static void turn(char why) {
  char c = why;
  if (turn_r < 0) return;
  if (sys3(SYS_write, turn_w, (long)&c, 1) != 1) return;
  while (sys3(SYS_read, turn_r, (long)&c, 1) == -EINTR) {}
}

__attribute__((constructor)) static void init(void) {
  const char *r = getenv("SIM_ROOT"), *t = getenv("SIM_TRACE"), *p = getenv("SIM_PLAN");
  if (!r || !p) return;
  rootlen = strlen(r);
  if (rootlen >= sizeof root) return;
  memcpy(root, r, rootlen + 1);
  if (t) {
    long fd = sys6(SYS_openat, AT_FDCWD, (long)t, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600, 0, 0);
    if (fd >= 0) {
      trace_fd = (int)sys3(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
      sys3(SYS_close, fd, 0, 0);
    }
  }
  tracked[1] = tracked[2] = 2;
  plan(p);
  turn_r = high(turn_r);
  turn_w = high(turn_w);
  if (padding) pad_block = __libc_malloc((size_t)padding * 16);
  // children are not simulated
  unsetenv("LD_PRELOAD");
  unsetenv("SIM_PLAN");
  unsetenv("SIM_TRACE");
  unsetenv("SIM_ROOT");
  ready = 1;
}
__attribute__((destructor)) static void fini(void) {
  if (ready) out("end ops=%ld allocs=%ld\n", opno, nalloc);
}

static void die(void) {
  out("crash op=%ld\n", opno);
  sys3(SYS_kill, sys3(SYS_getpid, 0, 0, 0), SIGKILL, 0);
  for (;;) sys3(SYS_pause, 0, 0, 0);
}

// Is a path below the root? Relative paths are: the tool is started there.
static int ours(const char *p) {
  if (!ready || !p) return 0;
  if (p[0] != '/') return 1;
  return strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0);
}

// Numbers an operation; returns an errno when the plan fails it.
static int op(const char *what, const char *arg, long n, int interruptible) {
  turn('o');
  long k = opno++;
  if (crash_at == k && !crash_after) die();
  int e = 0;
  for (int i = 0; i < nat; i++)
    if (at[i].k == k) e = at[i].err;
  out("op %ld %s %s %ld%s%d\n", k, what, arg, n, e ? " fault " : " ok ", e);
  if (e) return e;
  if (interruptible && p_eintr && (int)(next(&rng) & 1023) < p_eintr) {
    out("eintr %ld\n", k);
    return EINTR;
  }
  return 0;
}
static void after(void) {
  if (crash_after && crash_at == opno - 1) die();
}

static const char *name(const char *p) {
  if (p[0] == '/' && strncmp(p, root, rootlen) == 0 && p[rootlen] == '/') return p + rootlen + 1;
  return p;
}

static int do_open(int dfd, const char *path, int flags, mode_t mode) {
  if (!ready || !(ours(path) || !strcmp(path, "/dev/urandom")))
    return (int)ret(sys6(SYS_openat, dfd, (long)path, flags, mode, 0, 0));
  if (path[0] == '/' && !ours(path)) return (int)ret(sys6(SYS_openat, dfd, (long)path, flags, mode, 0, 0));
  int e = op((flags & O_ACCMODE) == O_RDONLY ? "open-r" : (flags & O_TRUNC) ? "open-wt" : "open-w", name(path), flags, 1);
  if (e) {
    errno = e;
    return -1;
  }
  long r = sys6(SYS_openat, dfd, (long)path, flags, mode, 0, 0);
  if (r >= 0 && r < 1024) tracked[r] = 1;
  after();
  return (int)ret(r);
}
#define MODE(flags) \
  mode_t mode = 0; \
  if ((flags) & (O_CREAT | O_TMPFILE)) { \
    va_list a; \
    va_start(a, flags); \
    mode = va_arg(a, mode_t); \
    va_end(a); \
  }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }

static int kind(int fd) { return ready && fd >= 0 && fd < 1024 ? tracked[fd] : 0; }

ssize_t read(int fd, void *b, size_t n) {
  if (kind(fd) != 1) return ret(sys3(SYS_read, fd, (long)b, (long)n));
  int e = op("read", "-", (long)n, 1);
  if (e) {
    errno = e;
    return -1;
  }
  if (p_short && n > 1 && (int)(next(&rng) & 1023) < p_short) n = 1 + next(&rng) % (n < 512 ? n : 512);
  long r = sys3(SYS_read, fd, (long)b, (long)n);
  after();
  return ret(r);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return ret(sys6(SYS_pread64, fd, (long)b, (long)n, o, 0, 0)); }

static ssize_t do_write(int fd, const void *b, size_t n) {
  int e = op(fd == 1 ? "stdout" : fd == 2 ? "stderr" : "write", "-", (long)n, 1);
  if (e == 9999) return 0; // nothing written, no error
  if (e) {
    errno = e;
    return -1;
  }
  if (crashb_at == opno - 1) {
    if (crashb_n && n) sys3(SYS_write, fd, (long)b, (long)((size_t)crashb_n < n ? (size_t)crashb_n : n));
    die();
  }
  if (p_short && n > 1 && (int)(next(&rng) & 1023) < p_short) n = 1 + next(&rng) % (n < 4096 ? n : 4096);
  if (budget >= 0 && kind(fd) == 1) {
    if (budget == 0 && n > 0) {
      out("full %ld\n", opno - 1);
      errno = ENOSPC;
      return -1;
    }
    if ((long)n > budget) n = (size_t)budget;
    budget -= (long)n;
  }
  long r = sys3(SYS_write, fd, (long)b, (long)n);
  after();
  return ret(r);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!kind(fd)) return ret(sys3(SYS_write, fd, (long)b, (long)n));
  return do_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!kind(fd)) return ret(sys3(SYS_writev, fd, (long)v, c));
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len);
  return do_write(fd, "", 0);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
  if (kind(fd) == 1) {
    int e = op("write", "-", (long)n, 1);
    if (e) {
      errno = e;
      return -1;
    }
  }
  return ret(sys6(SYS_pwrite64, fd, (long)b, (long)n, o, 0, 0));
}
// Kernel-side copies are refused, so that the data passes through read and write.
ssize_t copy_file_range(int a, off_t *b, int c, off_t *d, size_t n, unsigned f) {
  if (kind(a) || kind(c)) {
    errno = ENOSYS;
    return -1;
  }
  return ret(sys6(SYS_copy_file_range, a, (long)b, c, (long)d, (long)n, f));
}
ssize_t sendfile(int a, int b, off_t *o, size_t n) {
  if (kind(a) || kind(b)) {
    errno = ENOSYS;
    return -1;
  }
  return ret(sys6(SYS_sendfile, a, b, (long)o, (long)n, 0, 0));
}
ssize_t sendfile64(int a, int b, off_t *o, size_t n) { return sendfile(a, b, o, n); }
int close(int fd) {
  if (kind(fd) != 1) return (int)ret(sys3(SYS_close, fd, 0, 0));
  int e = op("close", "-", fd, 0);
  tracked[fd] = 0;
  long r = sys3(SYS_close, fd, 0, 0);
  after();
  if (e) {
    errno = e;
    return -1;
  }
  return (int)ret(r);
}
#define SIMPLE(what, arg, call) \
  do { \
    int e = op(what, arg, 0, 0); \
    if (e) { \
      errno = e; \
      return -1; \
    } \
    long r = call; \
    after(); \
    return (int)ret(r); \
  } while (0)
int fsync(int fd) {
  if (kind(fd) != 1) return (int)ret(sys3(SYS_fsync, fd, 0, 0));
  SIMPLE("fsync", "-", sys3(SYS_fsync, fd, 0, 0));
}
int fdatasync(int fd) {
  if (kind(fd) != 1) return (int)ret(sys3(SYS_fdatasync, fd, 0, 0));
  SIMPLE("fsync", "-", sys3(SYS_fdatasync, fd, 0, 0));
}
int ftruncate64(int fd, off_t n) {
  if (kind(fd) != 1) return (int)ret(sys3(SYS_ftruncate, fd, n, 0));
  SIMPLE("truncate", "-", sys3(SYS_ftruncate, fd, n, 0));
}
int rename(const char *a, const char *b) {
  if (!ours(a) && !ours(b)) return (int)ret(sys3(SYS_rename, (long)a, (long)b, 0));
  SIMPLE("rename", name(b), sys3(SYS_rename, (long)a, (long)b, 0));
}
int unlink(const char *a) {
  if (!ours(a)) return (int)ret(sys3(SYS_unlink, (long)a, 0, 0));
  SIMPLE("unlink", name(a), sys3(SYS_unlink, (long)a, 0, 0));
}
int mkdir(const char *a, mode_t m) {
  if (!ours(a)) return (int)ret(sys3(SYS_mkdir, (long)a, m, 0));
  SIMPLE("mkdir", name(a), sys3(SYS_mkdir, (long)a, m, 0));
}
// Nobody waits in the kernel for a lock: the scheduler decides when to try again.
int flock(int fd, int how) {
  if (kind(fd) != 1) return (int)ret(sys3(SYS_flock, fd, how, 0));
  int e = op("flock", "-", how, 0);
  if (e) {
    errno = e;
    return -1;
  }
  for (;;) {
    long r = sys3(SYS_flock, fd, turn_r < 0 ? how : how | LOCK_NB, 0);
    if (r == -EWOULDBLOCK && turn_r >= 0 && !(how & LOCK_NB)) {
      turn('b');
      continue;
    }
    after();
    return (int)ret(r);
  }
}
static int64_t lie(int64_t n) {
  return size_mode == 1 ? 0 : size_mode == 2 ? n / 2 : size_mode == 3 ? n + 70000 : n;
}
int statx(int d, const char *path, int flags, unsigned mask, struct statx *b) {
  const char *volatile q = path; // may be null, whatever the header says
  const char *p = q;
  int mine = ready && (p && p[0] ? ours(p) : kind(d) == 1);
  if (mine) {
    int e = op("stat", p && p[0] ? name(p) : "-", 0, 0);
    if (e) {
      errno = e;
      return -1;
    }
  }
  long r = sys6(SYS_statx, d, (long)p, flags, mask, (long)b, 0);
  if (mine && r == 0 && S_ISREG(b->stx_mode)) b->stx_size = (uint64_t)lie((int64_t)b->stx_size);
  if (mine) after();
  return (int)ret(r);
}
#define STAT(fn, T, mine, call) \
  int fn { \
    int m = (mine); \
    if (m) { \
      int e = op("stat", "-", 0, 0); \
      if (e) { \
        errno = e; \
        return -1; \
      } \
    } \
    long r = call; \
    if (m && r == 0 && S_ISREG(b->st_mode)) b->st_size = lie(b->st_size); \
    if (m) after(); \
    return (int)ret(r); \
  }
STAT(fstat64(int fd, struct stat64 *b), 0, kind(fd) == 1, sys3(SYS_fstat, fd, (long)b, 0))
STAT(fstat(int fd, struct stat *b), 0, kind(fd) == 1, sys3(SYS_fstat, fd, (long)b, 0))
STAT(stat64(const char *p, struct stat64 *b), 0, ours(p), sys3(SYS_stat, (long)p, (long)b, 0))
STAT(stat(const char *p, struct stat *b), 0, ours(p), sys3(SYS_stat, (long)p, (long)b, 0))
STAT(lstat64(const char *p, struct stat64 *b), 0, ours(p), sys3(SYS_lstat, (long)p, (long)b, 0))

ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!ready) return ret(sys3(SYS_getrandom, (long)b, (long)n, f));
  if (norandom) {
    errno = ENOSYS;
    return -1;
  }
  unsigned char *p = b;
  uint64_t v = 0;
  for (size_t i = 0; i < n; i++) {
    if ((i & 7) == 0) v = next(&hashrng);
    p[i] = (unsigned char)(v >> (8 * (i & 7)));
  }
  out("random %zu\n", n);
  return (ssize_t)n;
}

int posix_spawnp(pid_t *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at_,
                 char *const argv[], char *const envp[]) {
  static int (*real)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
  if (!real) real = dlsym(RTLD_NEXT, "posix_spawnp");
  if (ready) {
    int e = op("spawn", f, 0, 0);
    if (!e) e = spawn_err;
    if (e) return e;
  }
  int r = real(pid, f, fa, at_, argv, envp);
  if (ready && r == 0) child = *pid;
  if (ready) after();
  return r;
}
// What a child prints arrives all at once, after its end: the sizes of the
// pieces would otherwise depend on the real machine. (It makes the pipe as
// large as what it prints.)
int poll(struct pollfd *p, nfds_t n, int t) {
  if (ready && child > 0) {
    siginfo_t si;
    sys6(SYS_waitid, P_PID, child, (long)&si, WEXITED | WNOWAIT, 0, 0);
  }
  return (int)ret(sys3(SYS_poll, (long)p, (long)n, t));
}

// ---- allocation ------------------------------------------------------------
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
static int no_memory(void) {
  if (!ready) return 0;
  long k = nalloc++;
  if (mem_at >= 0 && (k == mem_at || (mem_all && k > mem_at))) {
    if (k == mem_at) out("nomem %ld\n", k);
    return 1;
  }
  return 0;
}
void *malloc(size_t n) {
  if (no_memory()) {
    errno = ENOMEM;
    return 0;
  }
  return __libc_malloc(n);
}
void *calloc(size_t a, size_t b) {
  if (no_memory()) {
    errno = ENOMEM;
    return 0;
  }
  return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) {
  if (no_memory()) {
    errno = ENOMEM;
    return 0;
  }
  return __libc_realloc(p, n);
}
int posix_memalign(void **p, size_t al, size_t n) {
  if (no_memory()) return ENOMEM;
  *p = __libc_memalign(al, n);
  return *p ? 0 : ENOMEM;
}
void *aligned_alloc(size_t al, size_t n) {
  if (no_memory()) {
    errno = ENOMEM;
    return 0;
  }
  return __libc_memalign(al, n);
}

// Panic messages print the thread's number
pid_t gettid(void) { return ready ? 4242 : (pid_t)sys3(SYS_gettid, 0, 0, 0); }
pid_t getpid(void) { return ready && fake_pid ? fake_pid : (pid_t)sys3(SYS_getpid, 0, 0, 0); }
pid_t getppid(void) { return ready && fake_ppid >= 0 ? fake_ppid : (pid_t)sys3(SYS_getppid, 0, 0, 0); }
int isatty(int fd) {
  if (ready && tty >= 0 && fd >= 0 && fd <= 2) {
    out("tty %d\n", fd);
    if (tty >> fd & 1) return 1;
    errno = ENOTTY;
    return 0;
  }
  char b[256];
  return ret(sys3(SYS_ioctl, fd, 0x5401, (long)b)) == 0; // TCGETS
}
// What the commands are told by the environment, or need to be true
static const char *const told[] = {"LD_", "SIM_", "STUB_", "GLIBC_", "MALLOC_", "PATH", "CARGO_", "OUT_DIR", "TMPDIR", "RUST_MIN_STACK", "RUST_BACKTRACE", "RUST_LIB_BACKTRACE"};
static char *find_env(const char *k) {
  size_t n = strlen(k);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, k, n) && (*e)[n] == '=') return *e + n + 1;
  return 0;
}
char *getenv(const char *k) {
  char *v = find_env(k);
  if (v || !ready || !envs) return v;
  for (size_t i = 0; i < sizeof told / sizeof *told; i++)
    if (!strncmp(k, told[i], strlen(told[i]))) return 0;
  static char *const values[] = {"1", "0", "", "true", "never", "/root/home", "always", "C.UTF-8"};
  uint64_t h = envs * 0x9e3779b97f4a7c15u;
  for (const char *c = k; *c; c++) h = (h ^ (unsigned char)*c) * 0x100000001b3u;
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9u;
  h ^= h >> 32;
  char *got = h & 1 ? values[h >> 1 & 7] : 0;
  out("env %.40s %s\n", k, got ? got : "-");
  return got;
}

// ---- time ------------------------------------------------------------------
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!ready || !has_clock) return (int)ret(sys3(SYS_clock_gettime, c, (long)t, 0));
  mono += 1000;
  wall += 1000;
  int real = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
  if (real && p_jump && (int)(next(&hashrng) & 1023) < p_jump) wall += ((int64_t)(next(&hashrng) % 7201) - 3600) * 1000000000;
  if (!real && p_jump && (int)(next(&hashrng) & 1023) < p_jump) mono += (int64_t)(next(&hashrng) % 5000) * 1000000;
  int64_t v = real ? wall : mono;
  int64_t q = v / 1000000000, r = v % 1000000000;
  if (r < 0) q--, r += 1000000000;
  t->tv_sec = q;
  t->tv_nsec = r;
  out("clock %d\n", (int)c);
  return 0;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
  struct timespec s;
  (void)z;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t) *t = s.tv_sec;
  return s.tv_sec;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *left) {
  if (!ready || !has_clock) return (int)-sys6(SYS_clock_nanosleep, c, flags, (long)t, (long)left, 0, 0);
  int64_t d = (int64_t)t->tv_sec * 1000000000 + t->tv_nsec;
  if (flags & TIMER_ABSTIME) d -= c == CLOCK_REALTIME ? wall : mono;
  if (d > 0) mono += d, wall += d;
  out("sleep %ld\n", (long)(d / 1000));
  turn('s');
  return 0;
}
int nanosleep(const struct timespec *t, struct timespec *left) {
  int e = clock_nanosleep(CLOCK_MONOTONIC, 0, t, left);
  if (!e) return 0;
  errno = e;
  return -1;
}
