// Deterministic scheduler runtime for the in-process simulator.
//
// The Rust code under test is compiled with the compiler's thread-sanitizer
// instrumentation but linked against this file instead of the sanitizer: every
// instrumented memory access, atomic operation and allocation made by a
// simulated thread is an event. Exactly one simulated thread runs at a time;
// after a number of events drawn from the seed (or read from a replay file)
// the running thread is parked and another one is released. Blocking system
// calls (futex), clocks, sleeps, yields and randomness are answered here.
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#define MAXT 16
#define MAXSEG (1 << 20)
#define SPURIOUS 100 // trace entries from here on are spurious wake-ups

enum { T_NEW, T_READY, T_BLOCKED, T_DONE };
enum { V_RUNNING = 0, V_OK = 1, V_DEADLOCK = 2, V_LIMIT = 3 };

typedef struct {
  int state;
  uint32_t gate;
  uint32_t entered;
  uint32_t *faddr;
  uint64_t wake_at; // simulated ns, 0 = none
  int wake_reason;  // 0 woken, 1 timeout, 2 spurious
  uint64_t stall_until;
  uint64_t events;
  uint32_t prio;
} thr_t;

typedef struct {
  uint32_t tid;
  uint64_t n;
} seg_t;

static thr_t T[MAXT];
static int nthr;
static int cur = -1;
static int active;
static int64_t countdown;
static uint64_t seg_len;      // events granted to the current segment
static uint64_t total_events; // events of finished segments
static uint64_t event_limit = 200000000ull;
static uint64_t sim_ns;
static uint32_t verdict;
static uint64_t rng[2];
static uint64_t sync_rng;
static uint32_t p_sync;        // per-1024 chance to switch at a synchronisation point
static uint64_t wake_rng; // own stream: drawn alike when recording and replaying
static uint64_t rnd_seed; // for getrandom
// The trace lives in memory shared with the parent, which reads it when the
// simulated process dies.
typedef struct {
  uint64_t n, events;
  int64_t cur;
  seg_t seg[MAXSEG];
} shared_t;
static shared_t *sh;
#define trace (sh->seg)
#define ntrace (sh->n)
static seg_t *replay;
static uint64_t nreplay, ireplay;
static int replay_mode;
// swarm parameters of the run
static uint64_t p_mean = 2000; // mean segment length in events
static int p_policy;           // 0 uniform, 1 priorities with change points
static uint32_t p_stall;       // per-1024 chance to stall the preempted thread
static uint32_t p_spurious;    // per-1024 chance of a spurious futex wake-up
static uint64_t trace_hash;

// counters: 0 preemptions 1 stalls 2 spurious 3 futex waits 4 futex wakes
//           5 yields 6 sleeps 7 clock reads 8 random reads 9 timeouts
static uint64_t cnt[16];

static __thread int mytid __attribute__((tls_model("local-exec"))) = -1;

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

static void gate_wait(uint32_t *g) {
  while (__atomic_load_n(g, __ATOMIC_ACQUIRE) == 0)
    raw6(SYS_futex, (long)g, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(g, 0, __ATOMIC_RELEASE);
}
static void gate_open(uint32_t *g) {
  __atomic_store_n(g, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)g, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static uint64_t rnd(void) { // xorshift128+
  uint64_t a = rng[0], b = rng[1];
  rng[0] = b;
  a ^= a << 23;
  rng[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
  return rng[1] + b;
}
static uint64_t splitmix(uint64_t *x) {
  uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

static uint32_t main_gate;

static void finish(uint32_t v) {
  sh->events = total_events;
  verdict = v;
  active = 0;
  gate_open(&main_gate);
}

static int runnable(int t) { return T[t].state == T_READY; }

static uint64_t draw_len(void) {
  // geometric-ish: mean * -ln(u), without libm
  uint64_t r = rnd();
  int lz = r ? __builtin_clzll(r) : 63; // exponential in steps of ln 2
  uint64_t frac = (rnd() & 1023);
  uint64_t base = p_mean * (uint64_t)(lz * 709 + frac * 709 / 1024) / 1024;
  return base + 1;
}

static void record(int tid, uint64_t n) {
  if (n == 0) return;
  trace_hash = (trace_hash ^ (n * 31 + tid + 1)) * 0x100000001b3ull;
  if (ntrace && trace[ntrace - 1].tid == (uint32_t)tid) {
    trace[ntrace - 1].n += n;
    return;
  }
  if (ntrace < MAXSEG) {
    trace[ntrace].tid = tid;
    trace[ntrace].n = n;
    ntrace++;
  }
}

// Chooses who runs next; wakes timed-out sleepers when nobody can run.
static int choose(int from) {
  for (;;) {
    int cand[MAXT], nc = 0, ns = 0, stalled[MAXT];
    for (int t = 0; t < nthr; t++)
      if (runnable(t)) {
        if (!replay_mode && T[t].stall_until > total_events)
          stalled[ns++] = t;
        else
          cand[nc++] = t;
      }
    if (nc == 0 && ns > 0) {
      for (int i = 0; i < ns; i++) cand[nc++] = stalled[i];
    }
    if (nc == 0) {
      // jump the clock to the earliest deadline
      int best = -1;
      for (int t = 0; t < nthr; t++)
        if (T[t].state == T_BLOCKED && T[t].wake_at &&
            (best < 0 || T[t].wake_at < T[best].wake_at))
          best = t;
      if (best < 0) return -1;
      if (T[best].wake_at > sim_ns) sim_ns = T[best].wake_at;
      T[best].state = T_READY;
      T[best].wake_reason = 1;
      cnt[9]++;
      continue;
    }
    if (replay_mode) {
      while (ireplay < nreplay) {
        seg_t s = replay[ireplay++];
        if (s.tid >= SPURIOUS) {
          uint32_t t = s.tid - SPURIOUS;
          if (t < (uint32_t)nthr && T[t].state == T_BLOCKED && T[t].faddr) {
            T[t].state = T_READY;
            T[t].wake_reason = 2;
            cnt[2]++;
          }
          continue;
        }
        if (s.tid < (uint32_t)nthr && runnable(s.tid)) {
          seg_len = s.n ? s.n : 1;
          return s.tid;
        }
      }
      seg_len = INT64_MAX / 2; // list exhausted: run to completion in order
      if (from >= 0 && runnable(from)) return from;
      return cand[0];
    }
    if (ntrace >= MAXSEG - 8) {
      seg_len = INT64_MAX / 2;
      if (from >= 0 && runnable(from)) return from;
      return cand[0];
    }
    seg_len = draw_len();
    if (p_policy == 1) {
      int b = cand[0];
      for (int i = 1; i < nc; i++)
        if (T[cand[i]].prio > T[b].prio) b = cand[i];
      return b;
    }
    return cand[rnd() % nc];
  }
}

static void grant(int t) {
  if (total_events + seg_len > event_limit) seg_len = event_limit - total_events + 1;
  countdown = (int64_t)seg_len;
  sh->cur = t;
  sh->events = total_events;
}

// Ends the current segment of the calling thread and hands over.
// The caller's state must be set already; returns when it is scheduled again.
static void hand_over(int self, uint64_t used) {
  T[self].events += used;
  total_events += used;
  sim_ns += used; // one simulated nanosecond per event
  record(self, used);
  if (total_events > event_limit) {
    finish(V_LIMIT);
    if (T[self].state == T_DONE) return;
    for (;;) gate_wait(&T[self].gate);
  }
  int n = choose(T[self].state == T_READY ? self : -1);
  if (n < 0) {
    int all = 1;
    for (int t = 0; t < nthr; t++)
      if (T[t].state != T_DONE) all = 0;
    finish(all ? V_OK : V_DEADLOCK);
    if (T[self].state == T_DONE) return;
    for (;;) gate_wait(&T[self].gate);
  }
  grant(n);
  if (n == self) return;
  cur = n;
  gate_open(&T[n].gate);
  if (T[self].state == T_DONE) return;
  gate_wait(&T[self].gate);
}

static uint64_t used_now(void) {
  // events consumed in this segment
  int64_t left = countdown < 0 ? 0 : countdown;
  return seg_len - (uint64_t)left;
}

__attribute__((noinline)) static void preempt(void) {
  int self = mytid;
  cnt[0]++;
  int spurious = -1;
  countdown = 0;
  if (!replay_mode) {
    if (p_stall && (rnd() & 1023) < p_stall) {
      cnt[1]++;
      T[self].stall_until = total_events + seg_len + (p_mean << (rnd() % 8));
    }
    if (p_policy == 1) T[self].prio = (uint32_t)rnd() >> 8; // change point
    if (p_spurious && (rnd() & 1023) < p_spurious) {
      for (int t = 0; t < nthr; t++)
        if (T[t].state == T_BLOCKED && T[t].faddr) {
          T[t].state = T_READY;
          T[t].wake_reason = 2;
          cnt[2]++;
          spurious = t;
          break;
        }
    }
  }
  if (spurious >= 0) {
    record(self, seg_len);
    if (ntrace < MAXSEG) {
      trace[ntrace].tid = SPURIOUS + (uint32_t)spurious;
      trace[ntrace].n = 0;
      ntrace++;
    }
    uint64_t n = seg_len;
    seg_len = 0;
    T[self].events += n;
    total_events += n;
    sim_ns += n;
  }
  hand_over(self, seg_len);
}

static inline void ev(void) {
  if (__builtin_expect(mytid >= 0, 0)) {
    if (__builtin_expect(active, 1)) {
      if (countdown <= 0) preempt();
      countdown--;
    }
  }
}
void simrt_event(void) { ev(); }

// Ends the running segment here, so that the next event is another thread's
// choice point. Called around the operations that publish or acquire shared
// state (stores, exchanges, futex calls), where races live.
static inline void sync_point(void) {
  if (__builtin_expect(mytid >= 0, 0) && active && p_sync && !replay_mode && countdown > 0) {
    if ((splitmix(&sync_rng) & 1023) < p_sync) {
      seg_len = used_now();
      countdown = 0;
      cnt[10]++;
    }
  }
}

// ---- API for the harness -------------------------------------------------

// Called once by a worker before it forks simulated processes.
void simrt_share(void) {
  sh = mmap(0, sizeof(shared_t), PROT_READ | PROT_WRITE,
            MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
int64_t simrt_cur(void) { return sh->cur; }
void simrt_config(uint64_t seed, uint64_t mean, int policy, uint32_t stall,
                  uint32_t spurious, uint64_t limit) {
  uint64_t s = seed;
  rng[0] = splitmix(&s);
  rng[1] = splitmix(&s);
  rnd_seed = splitmix(&s);
  wake_rng = splitmix(&s);
  sync_rng = splitmix(&s);
  p_mean = mean ? mean : 1;
  p_policy = policy;
  p_stall = stall;
  p_spurious = spurious;
  event_limit = limit;
  nthr = 0;
  ntrace = 0;
  total_events = 0;
  sim_ns = 1000000000ull;
  verdict = V_RUNNING;
  trace_hash = 1469598103934665603ull;
  memset(cnt, 0, sizeof cnt);
  memset(T, 0, sizeof T);
  sh->cur = -1;
  sh->events = 0;
  replay_mode = 0;
}
void simrt_sync(uint32_t per_1024) { p_sync = per_1024; }
void simrt_replay(const uint64_t *pairs, uint64_t n) {
  replay = mmap(0, sizeof(seg_t) * (n + 1), PROT_READ | PROT_WRITE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (uint64_t i = 0; i < n; i++) {
    replay[i].tid = (uint32_t)pairs[2 * i];
    replay[i].n = pairs[2 * i + 1];
  }
  nreplay = n;
  ireplay = 0;
  replay_mode = 1;
}
int simrt_add_thread(void) {
  T[nthr].state = T_NEW;
  T[nthr].prio = (uint32_t)rnd() >> 8;
  return nthr++;
}
void simrt_enter(int tid) {
  T[tid].state = T_READY;
  __atomic_store_n(&T[tid].entered, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&T[tid].entered, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
  gate_wait(&T[tid].gate);
  mytid = tid;
}
void simrt_wait_entered(int tid) {
  while (!__atomic_load_n(&T[tid].entered, __ATOMIC_ACQUIRE))
    raw6(SYS_futex, (long)&T[tid].entered, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}
// Ends the simulated part of a thread; the caller then parks for good.
void simrt_exit(void) {
  int self = mytid;
  uint64_t u = used_now();
  mytid = -1;
  if (!active) return;
  T[self].state = T_DONE;
  hand_over(self, u);
}
void simrt_park_forever(void) {
  static uint32_t never;
  for (;;) raw6(SYS_futex, (long)&never, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}
int simrt_run(void) {
  active = 1;
  int n = choose(-1);
  grant(n);
  cur = n;
  gate_open(&T[n].gate);
  gate_wait(&main_gate);
  return (int)verdict;
}
uint64_t simrt_trace_len(void) { return ntrace; }
void simrt_trace_get(uint64_t i, uint64_t *tid, uint64_t *n) {
  *tid = trace[i].tid;
  *n = trace[i].n;
}
uint64_t simrt_counter(int i) { return cnt[i]; }
uint64_t simrt_events(void) { return sh->events; }
uint64_t simrt_hash(void) { return trace_hash; }
static uint64_t now_ns(void) { return sim_ns + (active && mytid >= 0 ? used_now() : 0); }
uint64_t simrt_now(void) { return total_events + (active && mytid >= 0 ? used_now() : 0); }
uint64_t simrt_sim_ns(void) { return sim_ns; }
int simrt_tid(void) { return mytid; }

// ---- system calls --------------------------------------------------------

static int block_self(void) {
  int self = mytid;
  uint64_t u = used_now();
  hand_over(self, u);
  return T[self].wake_reason;
}

static long sim_futex(uint32_t *addr, int op, uint32_t val,
                      const struct timespec *ts, uint32_t bits) {
  int cmd = op & 0x7f;
  sync_point();
  ev();
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    cnt[3]++;
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
      errno = EAGAIN;
      return -1;
    }
    thr_t *t = &T[mytid];
    t->faddr = addr;
    t->wake_reason = 0;
    t->wake_at = 0;
    if (ts) {
      uint64_t d = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
      t->wake_at = cmd == FUTEX_WAIT ? now_ns() + d : d;
      if (t->wake_at == 0) t->wake_at = 1;
    }
    t->state = T_BLOCKED;
    int r = block_self();
    t->faddr = 0;
    t->wake_at = 0;
    if (r == 1) {
      errno = ETIMEDOUT;
      return -1;
    }
    if (r == 2) {
      errno = EINTR;
      return -1;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    cnt[4]++;
    long n = 0;
    // wake order is a scheduling choice too, taken from the seed
    uint64_t off = splitmix(&wake_rng) % (uint64_t)nthr;
    for (int i = 0; i < nthr && n < (long)val; i++) {
      int k = (int)((i + off) % (uint64_t)nthr);
      if (T[k].state == T_BLOCKED && T[k].faddr == addr) {
        T[k].state = T_READY;
        T[k].wake_reason = 0;
        n++;
      }
    }
    return n;
  }
  (void)bits;
  errno = ENOSYS;
  return -1;
}

long simrt_syscall(long n, long a, long b, long c, long d, long e, long f) __asm__("syscall");
long simrt_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (mytid >= 0 && active) {
    if (n == SYS_futex)
      return sim_futex((uint32_t *)a, (int)b, (uint32_t)c,
                       (const struct timespec *)d, (uint32_t)f);
    if (n == SYS_getrandom) {
      ssize_t getrandom(void *, size_t, unsigned);
      return getrandom((void *)a, (size_t)b, (unsigned)c);
    }
    if (n == SYS_sched_yield) {
      int sched_yield(void);
      return sched_yield();
    }
  }
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
int sched_yield(void) {
  if (mytid >= 0 && active) {
    cnt[5]++;
    int self = mytid;
    if (p_policy == 1) T[self].prio >>= 4;
    hand_over(self, used_now());
  }
  return 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
  if (mytid >= 0 && active) {
    cnt[6]++;
    thr_t *t = &T[mytid];
    t->faddr = 0;
    t->wake_at = now_ns() + (uint64_t)req->tv_sec * 1000000000ull + (uint64_t)req->tv_nsec + 1;
    t->state = T_BLOCKED;
    block_self();
    t->wake_at = 0;
    return 0;
  }
  long r = raw6(SYS_nanosleep, (long)req, (long)rem, 0, 0, 0, 0);
  return r < 0 ? -1 : 0;
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec *req, struct timespec *rem) {
  if (mytid >= 0 && active) {
    struct timespec z = *req;
    if (flags) {
      uint64_t d = (uint64_t)req->tv_sec * 1000000000ull + (uint64_t)req->tv_nsec;
      d = d > now_ns() ? d - now_ns() : 0;
      z.tv_sec = (time_t)(d / 1000000000ull);
      z.tv_nsec = (long)(d % 1000000000ull);
    }
    return nanosleep(&z, 0);
  }
  return (int)-raw6(SYS_clock_nanosleep, clk, flags, (long)req, (long)rem, 0, 0);
}
int clock_gettime(clockid_t clk, struct timespec *ts) {
  if (mytid >= 0 && active) {
    cnt[7]++;
    uint64_t t = now_ns();
    ts->tv_sec = (time_t)(t / 1000000000ull);
    ts->tv_nsec = (long)(t % 1000000000ull);
    return 0;
  }
  long r = raw6(SYS_clock_gettime, clk, (long)ts, 0, 0, 0, 0);
  return r < 0 ? -1 : 0;
}
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
  (void)flags;
  cnt[8]++;
  unsigned char *p = buf;
  uint64_t v = 0;
  for (size_t i = 0; i < len; i++) {
    if ((i & 7) == 0) v = splitmix(&rnd_seed);
    p[i] = (unsigned char)(v >> (8 * (i & 7)));
  }
  return (ssize_t)len;
}

// ---- deterministic allocator ----------------------------------------------

#define ARENA_BASE 0x100000000000ull
#define ARENA_SIZE (8ull << 30)
#define NCLASS 64
typedef struct freeblk {
  struct freeblk *next;
} freeblk;
typedef struct {
  char *base, *top, *end;
  freeblk *fl[NCLASS];
} arena_t;
static arena_t A[2];
static int cura;
// A thread that starts up, before it enters the simulation, runs beside the
// main thread: it must not touch the arena the run's addresses come from.
static __thread int is_main __attribute__((tls_model("local-exec")));
static volatile char alock;
static uint64_t nallocs;

static void alock_get(void) {
  while (__atomic_test_and_set(&alock, __ATOMIC_ACQUIRE)) {
  }
}
static void arena_init(int i) {
  void *want = (void *)(ARENA_BASE + (uint64_t)i * ARENA_SIZE);
  void *p = mmap(want, ARENA_SIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != want) {
    static const char m[] = "simrt: arena address is taken\n";
    if (write(2, m, sizeof m - 1)) {
    }
    _exit(70);
  }
  A[i].base = A[i].top = p;
  A[i].end = A[i].base + ARENA_SIZE;
}
static int size_class(size_t n) {
  if (n <= 16) return 0;
  int b = 63 - __builtin_clzll(n - 1); // 2^b < n <= 2^(b+1)
  size_t half = ((size_t)1 << b) + ((size_t)1 << (b - 1));
  return (b - 3) * 2 - (n <= half ? 1 : 0);
}
static size_t class_size(int c) {
  if (c == 0) return 16;
  int b = (c + 1) / 2 + 3;
  return (c & 1) ? ((size_t)1 << b) + ((size_t)1 << (b - 1)) : (size_t)2 << b;
}
void simrt_use_run_arena(void) {
  if (!A[1].base) arena_init(1);
  cura = 1;
  is_main = 1;
}
void *simrt_alloc(size_t n, size_t align) {
  ev();
  alock_get();
  int ar = mytid >= 0 || is_main ? cura : 0;
  arena_t *a = &A[ar];
  if (!a->base) arena_init(ar);
  if (align > 16 && n < align) n = align;
  int c = size_class(n);
  size_t sz = class_size(c);
  char *p;
  if (align <= 16 && a->fl[c]) {
    p = (char *)a->fl[c];
    a->fl[c] = a->fl[c]->next;
  } else {
    uintptr_t t = (uintptr_t)a->top;
    t = (t + align - 1) & ~(uintptr_t)(align - 1);
    t = (t + 15) & ~(uintptr_t)15;
    if (t + sz > (uintptr_t)a->end) {
      alock = 0;
      return 0;
    }
    p = (char *)t;
    a->top = p + sz;
  }
  nallocs++;
  __atomic_clear(&alock, __ATOMIC_RELEASE);
  memset(p, 0x5A, n < 256 ? n : 256);
  return p;
}
void simrt_free(void *q, size_t n, size_t align) {
  ev();
  if (align > 16 && n < align) n = align;
  int i = (uint64_t)q >= ARENA_BASE + ARENA_SIZE ? 1 : 0;
  if (i && mytid < 0 && !is_main) return; // left allocated
  int c = size_class(n);
  alock_get();
  memset(q, 0xA5, n < 256 ? n : 256);
  ((freeblk *)q)->next = A[i].fl[c];
  A[i].fl[c] = q;
  __atomic_clear(&alock, __ATOMIC_RELEASE);
}
uint64_t simrt_allocs(void) { return nallocs; }

// ---- instrumentation callbacks --------------------------------------------

void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
#define ACC(name) \
  void name(void *p) { \
    (void)p; \
    ev(); \
  }
#define ACCS(n) \
  ACC(__tsan_read##n) ACC(__tsan_write##n) ACC(__tsan_unaligned_read##n) \
  ACC(__tsan_unaligned_write##n) ACC(__tsan_volatile_read##n) \
  ACC(__tsan_volatile_write##n) ACC(__tsan_unaligned_volatile_read##n) \
  ACC(__tsan_unaligned_volatile_write##n) ACC(__tsan_read_write##n) \
  ACC(__tsan_unaligned_read_write##n)
ACCS(1) ACCS(2) ACCS(4) ACCS(8) ACCS(16)
void __tsan_read_range(void *p, size_t n) { (void)p; (void)n; ev(); }
void __tsan_write_range(void *p, size_t n) { (void)p; (void)n; ev(); }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; ev(); }
void __tsan_vptr_read(void **p) { (void)p; ev(); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { ev(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { ev(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { ev(); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo) { (void)mo; ev(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

#define AT(n, t) \
  t __tsan_atomic##n##_load(const volatile t *p, int mo) { (void)mo; ev(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile t *p, t v, int mo) { (void)mo; sync_point(); ev(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); sync_point(); } \
  t __tsan_atomic##n##_exchange(volatile t *p, t v, int mo) { (void)mo; sync_point(); ev(); t r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); sync_point(); return r; } \
  t __tsan_atomic##n##_fetch_add(volatile t *p, t v, int mo) { (void)mo; ev(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##n##_fetch_sub(volatile t *p, t v, int mo) { (void)mo; ev(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##n##_fetch_and(volatile t *p, t v, int mo) { (void)mo; ev(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##n##_fetch_or(volatile t *p, t v, int mo) { (void)mo; ev(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##n##_fetch_xor(volatile t *p, t v, int mo) { (void)mo; ev(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##n##_fetch_nand(volatile t *p, t v, int mo) { (void)mo; ev(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile t *p, t *c, t v, int mo, int fmo) { (void)mo; (void)fmo; sync_point(); ev(); int r = __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); sync_point(); return r; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile t *p, t *c, t v, int mo, int fmo) { (void)mo; (void)fmo; sync_point(); ev(); int r = __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); sync_point(); return r; } \
  t __tsan_atomic##n##_compare_exchange_val(volatile t *p, t c, t v, int mo, int fmo) { (void)mo; (void)fmo; sync_point(); ev(); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
