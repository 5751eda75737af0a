// simrt: the simulator runtime.
//
// The library under test, the Rust standard library, rayon and crossbeam are compiled with
// ThreadSanitizer instrumentation but linked against this file instead of the TSan runtime.
// Every atomic operation (and, when enabled, every plain memory access) therefore calls in here,
// and every blocking primitive of std ends in a futex system call that is answered here.
// Real threads exist, but exactly one of them runs at any time: the one the seeded scheduler
// picked. All nondeterminism (who runs, wake order, spurious wake-ups, hash seeds, heap layout,
// clock) comes from the run's seed or, in replay, from the recorded decisions.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef __uint128_t u128;

#define MAXT 48
#define MAXSCHED (1u << 17)
#define MAXFAULT 4096
#define RESULT_CAP (1u << 20)

// ---------------------------------------------------------------- shared with the parent process
enum { ST_NONE = 0, ST_RUNNING = 1, ST_DONE = 2, ST_VIOL = 3 };
enum { F_SPURIOUS = 0, F_WAKEORDER = 1, F_STALL = 2, F_EINTR = 3, F_NKIND = 8 };

typedef struct { u32 tid, next; u64 step; u32 forced, pad; } SchedEnt;
typedef struct { u32 tid, kind; u64 step; u64 arg; } FaultEnt;

typedef struct Shared {
  u32 status;
  u32 nsched, nfault;
  u32 sched_overflow;
  u64 steps, switches, forced_switches, mem_steps, blocks, threads, allocs, races_checked;
  u64 sched_hash;
  u64 fault_count[F_NKIND];
  u32 result_len;
  u32 pad;
  char result[RESULT_CAP];
  SchedEnt sched[MAXSCHED];
  FaultEnt faults[MAXFAULT];
} Shared;

typedef struct SimCfg {
  u64 seed;       // everything random in the runtime derives from this
  u64 hash_seed;  // HashMap RandomState seeds
  u64 alloc_seed; // heap placement
  u32 mode;       // 0 random walk (geometric slices), 1 log-uniform slices, 2 priorities (PCT), 3 replay,
              // 4 rhythm (round-robin, each thread with a burst length of its own),
              // 5 meetings (a thread waits at some atomic operations for another to come to the same address)
  u32 gap;        // mean slice for mode 0; log2 max slice for mode 1; longest burst for mode 4
  u32 depth;      // priority change points for mode 2; for mode 5: bits 0-2 one site in 2^k, bit 3 go on
              // right after the other's operation, bit 4 writes only, bits 8-11 log2 of the longest wait
  u32 mem_points; // plain memory accesses are scheduling points too
  u32 race;       // happens-before race detection
  u32 spurious;   // per-mille of futex waits that return early
  u32 stall;      // per-10000 of switches that also stall the switched-out thread
  u32 stack_kb;   // stack of new threads, 0 = what the program asked for
  u64 max_steps;  // bounded progress
  u64 fair_after; // after this many steps, scheduling is fair round-robin (no more faults)
} SimCfg;

static Shared *G;
static SimCfg C;

// ---------------------------------------------------------------- threads
enum { R_RUN = 0, R_FUTEX = 1, R_JOIN = 2, R_DONE = 3, R_SLEEP = 4 };
typedef struct Dtor { void (*f)(void *); void *arg; struct Dtor *next; } Dtor;
typedef struct Th {
  u32 id;
  volatile u32 park;
  u32 state;
  u64 steps;
  u64 next_preempt;
  u64 next_mem;
  void *waddr;
  u32 wbits;
  u64 deadline;
  int timed_out;
  struct Th *join;
  u64 prio;
  u64 stalled_until;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  pthread_t real;
  Dtor *dtors;
  u32 rp; // replay position
  u32 burst;
  u64 meet;      // address at which the thread waits for another (mode 5)
  u64 met;       // address at which it last met another
  struct Th *to; // whom to hand over to next (mode 5)
  int detached;
  u32 nosched;
  u32 vc[MAXT];
  u32 acqf[MAXT]; // pending acquire (relaxed loads) for fences
  u32 relf[MAXT]; // clock at last release fence
  int has_relf;
  u32 uid; // creation index == id, kept for clarity
} Th;

static Th T[MAXT];
static u32 nT;
static Th *volatile cur;
static int g_on;
static u64 g_steps, g_mem;
static u64 rng_s[2];
static __thread Th *self __attribute__((tls_model("initial-exec")));

static u64 sm(u64 *s) {
  u64 z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static u64 rnd(void) { return sm(&rng_s[0]); }
static u64 rndn(u64 n) { return n ? rnd() % n : 0; }

__attribute__((noipa)) static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void fwait(volatile u32 *p, u32 v) { raw6(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(volatile u32 *p) { raw6(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void die(int code) {
  raw6(SYS_exit_group, code, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}
static void finish_stats(void) {
  G->steps = g_steps;
  G->mem_steps = g_mem;
  G->threads = nT;
}
// A violation decided by the runtime itself: record it and end the process.
static void viol(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int k = vsnprintf(G->result, RESULT_CAP, fmt, ap);
  va_end(ap);
  G->result_len = k < 0 ? 0 : (u32)k;
  finish_stats();
  G->status = ST_VIOL;
  die(0);
}

// ---------------------------------------------------------------- schedule decisions
static SchedEnt *rp_list[MAXT];
static u32 rp_n[MAXT];
static FaultEnt *rp_faults;
static u32 rp_nf;

static void note_sched(Th *t, u32 next, int forced) {
  if (next != t->id) {
    G->switches++;
    if (forced) G->forced_switches++;
    u64 h = G->sched_hash ^ ((u64)t->id << 56) ^ ((u64)next << 48) ^ t->steps;
    G->sched_hash = sm(&h);
  }
  if (G->nsched < MAXSCHED) {
    SchedEnt *e = &G->sched[G->nsched++];
    e->tid = t->id, e->next = next, e->step = t->steps, e->forced = forced;
  } else
    G->sched_overflow = 1;
}
static int fault(Th *t, u32 kind, u32 permille, u64 *arg, u64 argmax) {
  if (C.mode == 3) {
    for (u32 i = 0; i < rp_nf; i++)
      if (rp_faults[i].tid == t->id && rp_faults[i].kind == kind && rp_faults[i].step == t->steps) {
        if (arg) *arg = rp_faults[i].arg;
        G->fault_count[kind]++;
        return 1;
      }
    return 0;
  }
  if (!permille || g_steps > C.fair_after || rndn(1000) >= permille) return 0;
  u64 a = argmax ? rndn(argmax) : 0;
  if (arg) *arg = a;
  G->fault_count[kind]++;
  if (G->nfault < MAXFAULT) {
    FaultEnt *e = &G->faults[G->nfault++];
    e->tid = t->id, e->kind = kind, e->step = t->steps, e->arg = a;
  }
  return 1;
}
static u64 slice(void) {
  if (g_steps > C.fair_after) return 200;
  if (C.mode == 0) { // geometric with mean gap
    u64 g = C.gap ? C.gap : 1;
    double u = (double)((rnd() >> 11) + 1) * (1.0 / 9007199254740993.0);
    double x = -__builtin_log(u) * (double)g;
    return 1 + (u64)x;
  }
  // log-uniform
  double u = (double)(rnd() >> 11) * (1.0 / 9007199254740992.0);
  return (u64)__builtin_exp2(u * (double)(C.gap ? C.gap : 12));
}
static void arm(Th *t) { // next voluntary preemption of t
  if (C.mode == 3) {
    // A voluntary entry fires at its exact step; stale ones (minimised schedules) are skipped.
    while (t->rp < rp_n[t->id] && (rp_list[t->id][t->rp].step < t->steps)) t->rp++;
    u32 i = t->rp;
    while (i < rp_n[t->id] && rp_list[t->id][i].forced) i++;
    t->next_preempt = i < rp_n[t->id] ? rp_list[t->id][i].step : ~0ull;
    return;
  }
  if (C.mode == 2 && g_steps <= C.fair_after) {
    t->next_preempt = t->steps + (u64)__builtin_exp2((double)(rnd() >> 11) * (1.0 / 9007199254740992.0) * (double)(C.gap ? C.gap : 14));
    if (C.depth == 0) t->next_preempt = ~0ull;
    return;
  }
  if (C.mode == 4 && g_steps <= C.fair_after) {
    t->next_preempt = t->steps + (t->steps ? t->burst : 1 + rndn(20));
    return;
  }
  t->next_preempt = t->steps + slice();
}
static u64 sim_now_ns(void) { return 1000000000ull + g_steps * 100ull; }

static u64 g_clock_skip;
static u64 now_ns(void) { return sim_now_ns() + g_clock_skip; }

static void deadlock(void) {
  char b[4096];
  int k = 0;
  for (u32 i = 0; i < nT; i++)
    if (T[i].state != R_DONE)
      k += snprintf(b + k, sizeof b - k, " T%u:%s@%llx", i, T[i].state == R_FUTEX ? "futex" : T[i].state == R_JOIN ? "join" : "?", (unsigned long long)(uintptr_t)T[i].waddr);
  viol("V\tdeadlock\tno thread can run:%s\n", b);
}

// Choose who runs next. forced: t itself cannot go on.
static Th *choose(Th *t, int forced, int yielding) {
  Th *cand[MAXT];
  u32 n = 0;
  for (;;) {
    n = 0;
    u64 mind = ~0ull;
    for (u32 i = 0; i < nT; i++) {
      Th *x = &T[i];
      if ((x->state == R_FUTEX || x->state == R_SLEEP) && x->deadline && x->deadline <= now_ns()) {
        x->state = R_RUN, x->timed_out = 1, x->deadline = 0, x->waddr = 0;
      }
      if (x->state == R_RUN) {
        cand[n++] = x;
      } else if ((x->state == R_FUTEX || x->state == R_SLEEP) && x->deadline && x->deadline < mind)
        mind = x->deadline;
    }
    if (n) break;
    if (mind == ~0ull) deadlock();
    g_clock_skip += mind - now_ns(); // nobody can run: jump the clock to the next deadline
  }
  if (C.mode == 3) {
    while (t->rp < rp_n[t->id] && rp_list[t->id][t->rp].step < t->steps) t->rp++;
    if (t->rp < rp_n[t->id] && rp_list[t->id][t->rp].step == t->steps) {
      u32 want = rp_list[t->id][t->rp].next;
      t->rp++;
      for (u32 i = 0; i < n; i++)
        if (cand[i]->id == want) return cand[i];
    }
    if (!forced && !yielding) return t;
    // no recorded decision: next thread in cyclic order
    for (u32 d = 1; d <= MAXT; d++)
      for (u32 i = 0; i < n; i++)
        if (cand[i]->id == (t->id + d) % MAXT) return cand[i];
    return cand[0];
  }
  if (g_steps > C.fair_after) {
    for (u32 d = 1; d <= MAXT; d++)
      for (u32 i = 0; i < n; i++)
        if (cand[i]->id == (t->id + d) % MAXT) return cand[i];
    return cand[0];
  }
  // stalled threads are left out while somebody else can run
  u32 m = 0;
  Th *c2[MAXT];
  for (u32 i = 0; i < n; i++)
    if (cand[i]->stalled_until <= g_steps) c2[m++] = cand[i];
  if (m) { memcpy(cand, c2, sizeof(Th *) * m); n = m; }
  if (C.mode == 4) {
    for (u32 d = 1; d <= MAXT; d++)
      for (u32 i = 0; i < n; i++)
        if (cand[i]->id == (t->id + d) % MAXT) return cand[i];
  }
  if (t->to) {
    Th *w = t->to;
    t->to = 0;
    for (u32 i = 0; i < n; i++)
      if (cand[i] == w) return w;
  }
  if (C.mode == 2) {
    if (!forced || yielding) { // change point: the running thread drops below everybody
      if (C.depth || yielding) {
        u64 lo = ~0ull;
        for (u32 i = 0; i < nT; i++)
          if (T[i].prio < lo) lo = T[i].prio;
        t->prio = lo ? lo - 1 : 0;
        if (!yielding && C.depth) C.depth--;
      }
    }
    Th *b = cand[0];
    for (u32 i = 1; i < n; i++)
      if (cand[i]->prio > b->prio) b = cand[i];
    return b;
  }
  if (yielding && n > 1) {
    u32 k = 0;
    for (u32 i = 0; i < n; i++)
      if (cand[i] != t) cand[k++] = cand[i];
    n = k;
  }
  if (!forced && !yielding && n > 1) { // a preemption that picks the same thread is no preemption
    u32 k = 0;
    for (u32 i = 0; i < n; i++)
      if (cand[i] != t) cand[k++] = cand[i];
    n = k;
  }
  return cand[rndn(n)];
}
// noipa: another thread runs in here, so the compiler must assume that everything changes.
__attribute__((noipa)) static void hand_to(Th *t, Th *nx) {
  cur = nx;
  __atomic_store_n(&nx->park, 1, __ATOMIC_SEQ_CST);
  fwake(&nx->park);
  (void)t;
}
__attribute__((noipa)) static void wait_turn(Th *t) {
  while (__atomic_load_n(&t->park, __ATOMIC_SEQ_CST) == 0) fwait(&t->park, 0);
  __atomic_store_n(&t->park, 0, __ATOMIC_SEQ_CST);
}
__attribute__((noipa)) static void resched(Th *t, int forced, int yielding) {
  Th *nx = choose(t, forced, yielding);
  if (nx != t) {
    note_sched(t, nx->id, forced);
    if (!forced) {
      u64 a;
      if (C.mode != 2 && fault(t, F_STALL, C.stall, &a, 20)) t->stalled_until = g_steps + (1ull << (a > 18 ? 18 : a));
    }
    if (nx->next_preempt <= nx->steps || C.mode != 3) arm(nx);
    hand_to(t, nx);
    wait_turn(t);
  } else {
    if (forced || yielding) note_sched(t, t->id, 1); // it may go on after all: a decision too
    arm(t);
  }
}
static void over_budget(void) { viol("V\tno-progress\tstep budget of %llu exceeded\n", (unsigned long long)C.max_steps); }

static inline void point(void) {
  Th *t = self;
  if (!t || t->nosched) return;
  t->steps++;
  if (++g_steps > C.max_steps) over_budget();
  if (__builtin_expect(t->steps >= t->next_preempt, 0)) {
    if (C.mode == 3 && t->steps > t->next_preempt) { arm(t); if (t->steps < t->next_preempt) return; }
    resched(t, 0, 0);
  }
}

// ---------------------------------------------------------------- heap
// Two arenas: A for the driver, B for the simulated run, at fixed addresses so that a run sees
// the same addresses in every process. Each block has a 16-byte header before it.
#define ARENA_A 0x100000000000ull
#define ARENA_B 0x110000000000ull
#define ARENA_SZ (1ull << 36)
#define SHADOW_B 0x120000000000ull // one byte per 16 bytes of B: how many of them are addressable
#define CELLS 0x130000000000ull    // race cells: 4 x 8 bytes per 8 bytes of B
#define STACKS 0x180000000000ull
#define STACK_SLOT (1ull << 30)

typedef struct Free { struct Free *next; } Free;
typedef struct Hdr { u64 size; u64 magic; } Hdr;
#define M_LIVE 0x51AB1EA110C8ED00ull
#define M_FREE 0x51ABF4EEF4EEF4EEull
typedef struct Arena { u64 base, top, mapped; Free *fl[64]; Free *tail[64]; u64 rng; int perturb; u64 live, live_bytes; } Arena;
static Arena AA = {ARENA_A, ARENA_A, ARENA_A}, AB = {ARENA_B, ARENA_B, ARENA_B};
static int use_b;

static void arena_map(Arena *a, u64 upto) {
  if (upto <= a->mapped) return;
  u64 want = (upto - a->mapped + (1ull << 22) - 1) & ~((1ull << 22) - 1);
  void *p = mmap((void *)a->mapped, want, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != (void *)a->mapped) { static const char m[] = "simrt: arena mmap failed\n"; raw6(SYS_write, 2, (long)m, sizeof m - 1, 0, 0, 0); die(97); }
  if (a == &AB) {
    mmap((void *)(SHADOW_B + (a->mapped - ARENA_B) / 16), want / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    mmap((void *)(CELLS + (a->mapped - ARENA_B) * 4), want * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  }
  a->mapped += want;
}
static inline int in_b(u64 p) { return p - ARENA_B < ARENA_SZ; }
static int sizeclass(u64 n, u64 *sz) { // n includes nothing but payload
  if (n <= 512) { int c = (int)((n + 15) / 16); if (!c) c = 1; *sz = (u64)c * 16; return c; } // 1..32
  int c = 33; u64 s = 768;
  // 768, 1024, 1536, 2048, ...
  while (s < n) { s = (c & 1) ? (s / 3) * 4 : (s / 2) * 3; c++; }
  *sz = s;
  return c; // grows to < 64 for sizes up to ~ 2^24
}
static void shadow_set(u64 p, u64 n, int live) {
  u8 *s = (u8 *)(SHADOW_B + (p - ARENA_B) / 16);
  u64 g = n / 16;
  memset(s, live ? 16 : 0, g);
  if (n & 15) s[g] = live ? (u8)(n & 15) : 0;
}
static void cells_clear(u64 p, u64 n) {
  if (C.race) memset((void *)(CELLS + ((p & ~7ull) - ARENA_B) * 4), 0, ((n + 7) & ~7ull) * 4);
}
static void sync_clear(u64 p, u64 n);
void *sim_alloc(u64 size, u64 align) {
  Arena *a = use_b ? &AB : &AA;
  u64 sz;
  if (align < 16) align = 16;
  u64 p = 0;
  int cls = 63;
  if (size > (1ull << 34)) return 0;
  if (align <= 16) {
    cls = sizeclass(size ? size : 1, &sz);
    if (cls > 62) { cls = 63; }
  }
  if (align <= 16 && cls < 63) {
    Free *f = a->fl[cls];
    int reuse = f != 0;
    if (reuse && a->perturb) {
      u64 r = sm(&a->rng);
      if ((r & 7) == 0) reuse = 0; // sometimes leave the free list alone
      else if ((r & 8) && f->next) { // sometimes take the second
        Free *g = f->next;
        f->next = g->next;
        if (a->tail[cls] == g) a->tail[cls] = f;
        p = (u64)g;
        reuse = 2;
      }
    }
    if (reuse == 1) { a->fl[cls] = f->next; if (!f->next) a->tail[cls] = 0; p = (u64)f; }
  } else
    sz = (size + 15) & ~15ull;
  if (!p) {
    u64 at = a->top + 16;
    if (a->perturb && (sm(&a->rng) & 3) == 0) at += (sm(&a->rng) & 7) * 16;
    at = (at + align - 1) & ~(align - 1);
    arena_map(a, at + sz + 64);
    a->top = at + sz + 16; // 16 bytes of red zone
    p = at;
  }
  Hdr *h = (Hdr *)(p - 16);
  h->size = size;
  h->magic = M_LIVE ^ (u64)cls;
  a->live++;
  a->live_bytes += size;
  if (a == &AB) {
    shadow_set(p, size, 1);
    cells_clear(p, size);
    if (self) G->allocs++;
  }
  return (void *)p;
}
void sim_free(void *q, u64 size, u64 align) {
  u64 p = (u64)q;
  Hdr *h = (Hdr *)(p - 16);
  Arena *a = in_b(p) ? &AB : &AA;
  int cls = (int)(h->magic ^ M_LIVE);
  if (h->magic == M_FREE) viol("V\tdouble-free\tblock of %llu bytes freed twice\n", (unsigned long long)h->size);
  if ((u32)cls > 63 || h->size != size) {
    if (G && self) viol("V\tbad-free\tblock header corrupt or wrong layout (%llu vs %llu)\n", (unsigned long long)h->size, (unsigned long long)size);
    return;
  }
  h->magic = M_FREE;
  a->live--;
  a->live_bytes -= size;
  if (a == &AB) {
    shadow_set(p, size, 0);
    cells_clear(p, size);
    sync_clear(p, size);
    if (size > 16) memset((void *)(p + 16), 0xDB, size > 4096 ? 4096 - 16 : size - 16);
  }
  if (cls < 63) {
    Free *f = (Free *)p;
    if (a->perturb && (sm(&a->rng) & 1)) { // FIFO end
      f->next = 0;
      if (a->tail[cls]) a->tail[cls]->next = f; else a->fl[cls] = f;
      a->tail[cls] = f;
    } else {
      f->next = a->fl[cls];
      a->fl[cls] = f;
      if (!f->next) a->tail[cls] = f;
    }
  }
}
u64 sim_live_blocks(void) { return AB.live; }
u64 sim_live_bytes(void) { return AB.live_bytes; }

// ---------------------------------------------------------------- happens-before race detection
typedef struct Sync { u64 addr; u32 owner; u32 vc[MAXT]; struct Sync *next; } Sync;
#define NSYNC 65536
static Sync *sync_tab[NSYNC];
static Sync *sync_pool;
static u64 sync_pool_left;
static u32 sc_clock[MAXT];
static Sync *sync_find(u64 a, int create) {
  u32 h = (u32)((a >> 2) * 0x9E3779B1u) >> 16;
  for (Sync *s = sync_tab[h]; s; s = s->next)
    if (s->addr == a) return s;
  if (!create) return 0;
  if (!sync_pool_left) {
    sync_pool = mmap(0, sizeof(Sync) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sync_pool_left = 4096;
  }
  Sync *s = sync_pool++;
  sync_pool_left--;
  s->addr = a;
  s->next = sync_tab[h];
  sync_tab[h] = s;
  return s;
}
static void sync_clear(u64 p, u64 n) {
  if (!C.race) return;
  if (n > 512) n = 512; // atomics in this code base live in small nodes; larger blocks keep theirs
  for (u64 a = p; a < p + n; a += 4) {
    u32 h = (u32)((a >> 2) * 0x9E3779B1u) >> 16;
    for (Sync **s = &sync_tab[h]; *s; s = &(*s)->next)
      if ((*s)->addr == a) { *s = (*s)->next; break; }
  }
}
static inline void vjoin(u32 *a, const u32 *b) {
  for (u32 i = 0; i < nT; i++)
    if (b[i] > a[i]) a[i] = b[i];
}
// cell: clk:32 | tid:8 | mask:8 | flags:8 (1 write, 2 atomic)
#define CELL(clk, tid, mask, fl) ((u64)(clk) | ((u64)(tid) << 32) | ((u64)(mask) << 40) | ((u64)(fl) << 48))
static u64 *static_cells; // for .data/.bss
extern char __data_start, _end;
static u64 *cells_for(u64 g) { // g: 8-byte aligned address
  if (in_b(g)) return (u64 *)(CELLS + (g - ARENA_B) * 4);
  if (static_cells && g >= (u64)&__data_start && g < (u64)&_end) return static_cells + ((g - ((u64)&__data_start & ~7ull)) / 8) * 4;
  return 0;
}
static void race_report(u64 a, Th *t, u32 flags, u64 cell, u64 pc) {
  viol("V\tdata-race\t%s by T%u at pc %llx conflicts with earlier %s%s by T%u (heap offset %llx)\n", (flags & 1) ? "write" : "read", t->id,
       (unsigned long long)pc, ((cell >> 48) & 2) ? "atomic " : "", ((cell >> 48) & 1) ? "write" : "read", (u32)(cell >> 32) & 255,
       (unsigned long long)(in_b(a) ? a - ARENA_B : a));
}
static void race_access1(Th *t, u64 g, u32 mask, u32 flags, u64 pc) {
  u64 *c = cells_for(g);
  if (!c) return;
  G->races_checked++;
  u64 mine = CELL(t->vc[t->id], t->id, mask, flags);
  int slot = -1;
  for (int i = 0; i < 4; i++) {
    u64 x = c[i];
    if (!x) { if (slot < 0) slot = i; continue; }
    u32 tid = (u32)(x >> 32) & 255, m = (u32)(x >> 40) & 255, fl = (u32)(x >> 48) & 255;
    if (!(m & mask)) continue;
    if (tid == t->id) {
      if (m == mask && (fl == flags || ((flags & 1) && !(flags & 2)))) slot = i;
      continue;
    }
    if (!((fl | flags) & 1)) continue;
    if ((fl & 2) && (flags & 2)) continue;
    if ((u32)x <= t->vc[tid]) { // ordered: the older access can be forgotten if this one covers it
      if ((flags & 1) && (m & ~mask) == 0 && slot < 0) slot = i;
      continue;
    }
    race_report(g, t, flags, x, pc);
  }
  if (slot < 0) slot = (int)((g_mem + g_steps) & 3);
  c[slot] = mine;
}
static void race_access(Th *t, u64 a, u64 n, u32 flags, u64 pc) {
  while (n) {
    u64 g = a & ~7ull, off = a - g, k = 8 - off;
    if (k > n) k = n;
    race_access1(t, g, (u32)(((1u << k) - 1) << off) & 255, flags, pc);
    a += k, n -= k;
  }
}
static inline void acq(Th *t, u64 a, int mo) {
  if (!C.race) return;
  Sync *s = sync_find(a, 0);
  if (!s) return;
  if (mo == __ATOMIC_RELAXED || mo == __ATOMIC_RELEASE) vjoin(t->acqf, s->vc);
  else vjoin(t->vc, s->vc);
}
static inline void rel(Th *t, u64 a, int mo, int rmw) {
  if (!C.race) return;
  int isrel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  if (!isrel && !t->has_relf) {
    // A relaxed store by the thread that released last keeps its release sequence going (as TSan
    // has it, which crossbeam counts on when it is built for a sanitizer).
    if (!rmw) { Sync *s = sync_find(a, 0); if (s && s->owner != t->id) memset(s->vc, 0, sizeof s->vc); }
    return;
  }
  Sync *s = sync_find(a, 1);
  if (!rmw) {
    if (isrel || s->owner != t->id) memset(s->vc, 0, sizeof s->vc);
    s->owner = t->id;
  }
  vjoin(s->vc, isrel ? t->vc : t->relf);
  if (isrel) t->vc[t->id]++;
}

// ---------------------------------------------------------------- memory access hooks
static void bad_access(u64 a, u64 n, int w, u64 pc) {
  viol("V\tinvalid-access\t%s of %llu bytes outside any live heap block, pc %llx (heap offset %llx)\n", w ? "write" : "read", (unsigned long long)n,
       (unsigned long long)pc, (unsigned long long)(a - ARENA_B));
}
static inline void mem(void *p, u64 n, int w, void *pc) {
  Th *t = self;
  if (!t) return;
  g_mem++;
  u64 a = (u64)p;
  if (in_b(a)) {
    u64 e = a + n - 1;
    u8 s0 = *(u8 *)(SHADOW_B + (a - ARENA_B) / 16), s1 = *(u8 *)(SHADOW_B + (e - ARENA_B) / 16);
    if ((a & 15) >= s0 || (e & 15) >= s1) bad_access(a, n, w, (u64)pc);
  }
  if (C.race && !t->nosched) race_access(t, a, n, (u32)w, (u64)pc);
  if (C.mem_points) point();
  else if ((g_mem & 0xFFFFFF) == 0 && g_mem > 400 * C.max_steps) over_budget();
}
#define RA __builtin_return_address(0)
#define ACC(n)                                                                      \
  void __tsan_read##n(void *p) { mem(p, n, 0, RA); }                                \
  void __tsan_write##n(void *p) { mem(p, n, 1, RA); }                               \
  void __tsan_unaligned_read##n(void *p) { mem(p, n, 0, RA); }                      \
  void __tsan_unaligned_write##n(void *p) { mem(p, n, 1, RA); }                     \
  void __tsan_read_write##n(void *p) { mem(p, n, 1, RA); }                          \
  void __tsan_unaligned_read_write##n(void *p) { mem(p, n, 1, RA); }                \
  void __tsan_volatile_read##n(void *p) { (void)p; point(); }                       \
  void __tsan_volatile_write##n(void *p) { (void)p; point(); }                      \
  void __tsan_unaligned_volatile_read##n(void *p) { (void)p; point(); }             \
  void __tsan_unaligned_volatile_write##n(void *p) { (void)p; point(); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_update(void *a, void *b) { (void)a, (void)b; }
void __tsan_vptr_read(void *a) { (void)a; }
void __tsan_read_range(void *p, u64 n) { if (n) mem(p, n, 0, RA); }
void __tsan_write_range(void *p, u64 n) { if (n) mem(p, n, 1, RA); }
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, u64 n) { if (n && self) { mem((void *)s, n, 0, RA); mem(d, n, 1, RA); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, u64 n) { if (n && self) { mem((void *)s, n, 0, RA); mem(d, n, 1, RA); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, u64 n) { if (n && self) mem(d, n, 1, RA); return memset(d, c, n); }

// ---------------------------------------------------------------- atomic hooks: scheduling points
// Mode 5: a thread that comes to one of the chosen places waits until another one is about to touch the
// same address; the other's operation then comes first, and the one that waited may go on right after it.
static void meeting(Th *t, u64 a, int w, u64 pc) {
  for (u32 i = 0; i < nT; i++)
    if (T[i].meet == a && &T[i] != t && T[i].stalled_until > g_steps) {
      T[i].meet = 0;
      T[i].met = t->met = a;
      if (C.depth & 8) {
        T[i].stalled_until = 0;
        t->to = &T[i];
        t->next_preempt = t->steps + 2;
      }
      return;
    }
  if (((C.depth & 16) && !w) || t->met == a) return;
  u64 h = pc ^ C.seed;
  if (sm(&h) & ((1u << (C.depth & 7)) - 1)) return;
  u32 others = 0;
  for (u32 i = 0; i < nT; i++) others += T[i].state == R_RUN && &T[i] != t;
  if (!others) return;
  t->meet = a;
  u64 longest = 1ull << (C.depth >> 8 & 15);
  t->stalled_until = g_steps + longest / 2 + rndn(longest / 2 + 1);
  t->next_preempt = t->steps + 1;
}
static inline void atom(void *p, u64 n, int w, void *pc) {
  if (C.mode == 5 && self && !self->nosched && g_steps <= C.fair_after) meeting(self, (u64)p, w, (u64)pc);
  point();
  Th *t = self;
  if (!t) return;
  u64 a = (u64)p;
  if (in_b(a)) {
    u8 s0 = *(u8 *)(SHADOW_B + (a - ARENA_B) / 16);
    if ((a & 15) + n > s0) bad_access(a, n, w, (u64)pc);
  }
  if (C.race && !t->nosched) race_access(t, a, n, 2u | (u32)w, (u64)pc);
}
#define ATOMICS(B, TY)                                                                                                          \
  TY __tsan_atomic##B##_load(const volatile TY *a, int mo) {                                                                    \
    atom((void *)a, sizeof(TY), 0, RA);                                                                                         \
    TY v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                                \
    if (self) acq(self, (u64)a, mo);                                                                                            \
    return v;                                                                                                                   \
  }                                                                                                                             \
  void __tsan_atomic##B##_store(volatile TY *a, TY v, int mo) {                                                                 \
    atom((void *)a, sizeof(TY), 1, RA);                                                                                         \
    if (self) rel(self, (u64)a, mo, 0);                                                                                         \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                                   \
  }                                                                                                                             \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) {                                     \
    atom((void *)a, sizeof(TY), 1, RA);                                                                                         \
    TY e = c;                                                                                                                   \
    int ok = __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                      \
    if (self) {                                                                                                                 \
      acq(self, (u64)a, ok ? mo : fmo);                                                                                         \
      if (ok) rel(self, (u64)a, mo, 1);                                                                                         \
    }                                                                                                                           \
    return e;                                                                                                                   \
  }                                                                                                                             \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) {                                \
    TY e = *c, o = __tsan_atomic##B##_compare_exchange_val(a, e, v, mo, fmo);                                                   \
    *c = o;                                                                                                                     \
    return o == e;                                                                                                              \
  }                                                                                                                             \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) {                                  \
    return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo);                                                        \
  }                                                                                                                             \
  RMW(B, TY, exchange, __atomic_exchange_n) RMW(B, TY, fetch_add, __atomic_fetch_add) RMW(B, TY, fetch_sub, __atomic_fetch_sub) \
  RMW(B, TY, fetch_and, __atomic_fetch_and) RMW(B, TY, fetch_or, __atomic_fetch_or) RMW(B, TY, fetch_xor, __atomic_fetch_xor)   \
  RMW(B, TY, fetch_nand, __atomic_fetch_nand)
#define RMW(B, TY, NAME, OP)                                        \
  TY __tsan_atomic##B##_##NAME(volatile TY *a, TY v, int mo) {      \
    atom((void *)a, sizeof(TY), 1, RA);                             \
    if (self) { acq(self, (u64)a, mo); rel(self, (u64)a, mo, 1); }  \
    return OP(a, v, __ATOMIC_SEQ_CST);                              \
  }
ATOMICS(8, u8)
ATOMICS(16, u16)
ATOMICS(32, u32)
ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo) {
  point();
  Th *t = self;
  if (!t || !C.race) return;
  if (mo != __ATOMIC_RELEASE) vjoin(t->vc, t->acqf);
  if (mo == __ATOMIC_SEQ_CST) { vjoin(t->vc, sc_clock); vjoin(sc_clock, t->vc); }
  if (mo != __ATOMIC_ACQUIRE) {
    memcpy(t->relf, t->vc, sizeof t->vc);
    t->has_relf = 1;
    t->vc[t->id]++;
  }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ---------------------------------------------------------------- blocking: futex and friends
static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *ts, u32 bits) {
  Th *t = self;
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point();
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    if (fault(t, F_SPURIOUS, C.spurious, 0, 0)) return 0;
    if (fault(t, F_EINTR, C.spurious, 0, 0)) { errno = EINTR; return -1; }
    t->deadline = 0;
    if (ts) {
      u64 d = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec;
      t->deadline = cmd == FUTEX_WAIT ? now_ns() + d : d;
      if (!t->deadline) t->deadline = 1;
    }
    t->state = R_FUTEX, t->waddr = addr, t->wbits = cmd == FUTEX_WAIT_BITSET ? bits : ~0u, t->timed_out = 0;
    G->blocks++;
    resched(t, 1, 0);
    if (t->timed_out) { t->timed_out = 0; errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    point();
    u32 wb = cmd == FUTEX_WAKE_BITSET ? bits : ~0u;
    Th *w[MAXT];
    u32 n = 0;
    for (u32 i = 0; i < nT; i++)
      if (T[i].state == R_FUTEX && T[i].waddr == addr && (T[i].wbits & wb)) w[n++] = &T[i];
    long k = 0;
    while (n && k < (long)val) {
      u64 j = 0;
      if (n > 1 && fault(t, F_WAKEORDER, 500, &j, n)) { if (j >= n) j = n - 1; }
      w[j]->state = R_RUN, w[j]->waddr = 0, w[j]->deadline = 0;
      for (u32 i = (u32)j; i + 1 < n; i++) w[i] = w[i + 1];
      n--, k++;
    }
    return k;
  }
  errno = ENOSYS;
  return -1;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && self) return sim_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32)f);
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
int sched_yield(void) {
  Th *t = self;
  if (!t) return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  t->steps++;
  if (++g_steps > C.max_steps) over_budget();
  resched(t, 0, 1);
  return 0;
}
static int sim_sleep(u64 ns) {
  Th *t = self;
  t->steps++;
  g_steps++;
  t->state = R_SLEEP, t->deadline = now_ns() + ns + 1, t->timed_out = 0;
  resched(t, 1, 0);
  t->timed_out = 0;
  return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!self) return (int)raw6(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0);
  return sim_sleep((u64)a->tv_sec * 1000000000ull + (u64)a->tv_nsec);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  if (!self) return -(int)raw6(SYS_clock_nanosleep, c, fl, (long)a, (long)b, 0, 0);
  u64 ns = (u64)a->tv_sec * 1000000000ull + (u64)a->tv_nsec;
  if (fl & TIMER_ABSTIME) ns = ns > now_ns() ? ns - now_ns() : 0;
  return sim_sleep(ns);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!self) {
    long r = raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
  }
  u64 n = now_ns();
  ts->tv_sec = (time_t)(n / 1000000000ull);
  ts->tv_nsec = (long)(n % 1000000000ull);
  return 0;
}
static u64 hash_rng;
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (!use_b) {
    long r = raw6(SYS_getrandom, (long)buf, (long)n, fl, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
  }
  u8 *p = buf;
  for (size_t i = 0; i < n; i += 8) {
    u64 v = sm(&hash_rng);
    memcpy(p + i, &v, n - i < 8 ? n - i : 8);
  }
  return (ssize_t)n;
}

// ---------------------------------------------------------------- thread creation and exit
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_detach)(pthread_t);
static int (*real_atexit)(void (*)(void *), void *, void *);
__attribute__((constructor)) static void resolve(void) {
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  real_join = dlsym(RTLD_NEXT, "pthread_join");
  real_detach = dlsym(RTLD_NEXT, "pthread_detach");
  real_atexit = dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl");
}
int __cxa_thread_atexit_impl(void (*f)(void *), void *arg, void *dso) {
  Th *t = self;
  if (!t) return real_atexit(f, arg, dso);
  Dtor *d = malloc(sizeof *d);
  d->f = f, d->arg = arg, d->next = t->dtors;
  t->dtors = d;
  return 0;
}
// Keys with destructors (std uses one for its own thread clean-up): glibc would run them when the
// simulation no longer controls the thread, so they run in tramp instead.
#define NKEY 256
static struct { pthread_key_t key; void (*f)(void *); } keys[NKEY];
static u32 nkeys;
static int (*real_key_create)(pthread_key_t *, void (*)(void *));
int pthread_key_create(pthread_key_t *k, void (*f)(void *)) {
  if (!real_key_create) real_key_create = dlsym(RTLD_NEXT, "pthread_key_create");
  if (!f || nkeys == NKEY) return real_key_create(k, f);
  int r = real_key_create(k, 0);
  if (!r) keys[nkeys].key = *k, keys[nkeys].f = f, nkeys++;
  return r;
}
int pthread_key_delete(pthread_key_t k) {
  static int (*real)(pthread_key_t);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_key_delete");
  for (u32 i = 0; i < nkeys; i++)
    if (keys[i].key == k && keys[i].f) { keys[i] = keys[--nkeys]; break; }
  return real(k);
}
static void run_key_dtors(void) {
  for (int again = 1, round = 0; again && round < 4; round++) {
    again = 0;
    for (u32 i = 0; i < nkeys; i++) {
      void *v = pthread_getspecific(keys[i].key);
      if (!v) continue;
      pthread_setspecific(keys[i].key, 0);
      keys[i].f(v);
      again = 1;
    }
  }
}
void sim_thread_init(void);
static void *tramp(void *v) {
  Th *t = v;
  wait_turn(t);
  self = t;
  sim_thread_init();
  t->ret = t->fn(t->arg);
  while (t->dtors) {
    Dtor *d = t->dtors;
    t->dtors = d->next;
    d->f(d->arg);
    free(d);
  }
  run_key_dtors();
  point();
  t->state = R_DONE;
  if (C.race) t->vc[t->id]++;
  for (u32 i = 0; i < nT; i++)
    if (T[i].state == R_JOIN && T[i].join == t) T[i].state = R_RUN;
  self = 0;
  Th *nx = choose(t, 1, 0);
  note_sched(t, nx->id, 1);
  if (nx->next_preempt <= nx->steps || C.mode != 3) arm(nx);
  hand_to(t, nx);
  return t->ret;
}
static void th_init(Th *t, u32 id) {
  memset(t, 0, sizeof *t);
  t->id = t->uid = id;
  t->prio = 1000000 + rndn(1000000);
  if (C.mode == 4) t->burst = 1 + (u32)rndn(C.gap ? C.gap : 1);
  t->vc[id] = 1;
}
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  Th *p = self;
  if (!p) return real_create(out, attr, fn, arg);
  if (nT >= MAXT) return EAGAIN;
  point();
  Th *t = &T[nT];
  th_init(t, nT);
  size_t sz = 2u << 20;
  if (attr) pthread_attr_getstacksize(attr, &sz);
  if (C.stack_kb) sz = (size_t)C.stack_kb * 1024;
  u64 base = STACKS + t->id * STACK_SLOT;
  mmap((void *)base, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, (void *)base, sz);
  t->fn = fn, t->arg = arg;
  if (C.race) {
    vjoin(t->vc, p->vc);
    p->vc[p->id]++;
  }
  int r = real_create(&t->real, &a, tramp, t);
  pthread_attr_destroy(&a);
  if (r) return r;
  nT++;
  arm(t);
  *out = t->real;
  if (C.mode == 2 && t->prio > p->prio) p->next_preempt = 0; // a more urgent thread appeared
  point();
  return 0;
}
static Th *find_th(pthread_t p) {
  for (u32 i = 1; i < nT; i++)
    if (T[i].real == p) return &T[i];
  return 0;
}
int pthread_join(pthread_t p, void **ret) {
  Th *t = self, *x;
  if (!t || !(x = find_th(p))) return real_join(p, ret);
  point();
  if (x->state != R_DONE) {
    t->state = R_JOIN, t->join = x;
    G->blocks++;
    resched(t, 1, 0);
  }
  if (C.race) vjoin(t->vc, x->vc);
  if (ret) *ret = x->ret;
  return 0;
}
// Simulated stacks are user-supplied, for which glibc reports no guard; std insists on one. The
// pages below a simulated stack are unmapped, so there is one.
int pthread_attr_getguardsize(const pthread_attr_t *a, size_t *n) {
  static int (*real)(const pthread_attr_t *, size_t *);
  if (self) { *n = 4096; return 0; }
  if (!real) real = dlsym(RTLD_NEXT, "pthread_attr_getguardsize");
  return real(a, n);
}
int pthread_detach(pthread_t p) {
  if (!self) return real_detach(p);
  return 0;
}

// ---------------------------------------------------------------- interface to the harness
void *sim_shared_new(void) {
  return mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void sim_shared_reset(Shared *s) {
  memset(s, 0, offsetof(Shared, result));
}
static void on_segv(int sig, siginfo_t *si, void *uc) {
  (void)uc;
  u64 a = (u64)si->si_addr;
  const char *what = "memory fault";
  u32 tid = self ? self->id : 999;
  if (self && tid && a >= STACKS + tid * STACK_SLOT - (1 << 20) && a < STACKS + (tid + 1) * STACK_SLOT) what = "stack overflow";
  else if (sig == SIGABRT) what = "abort";
  else if (sig == SIGILL) what = "illegal instruction";
  else if (sig == SIGSEGV && self && tid == 0) what = "memory fault or stack overflow on the main thread";
  viol("V\tcrash\t%s (signal %d) in T%u\n", what, sig, tid);
}
static char alt_stacks[MAXT + 1][32768] __attribute__((aligned(64)));
void sim_thread_init(void) { // signal stack for this thread, so that stack overflow is reported
  stack_t ss = {.ss_sp = alt_stacks[self ? self->id : MAXT], .ss_size = sizeof alt_stacks[0]};
  sigaltstack(&ss, 0);
}
// Called in the forked child. From here until sim_end, this process is the simulation.
void sim_begin(Shared *s, const SimCfg *c, const SchedEnt *sc, u32 nsc, const FaultEnt *fl, u32 nf) {
  G = s;
  C = *c;
  rng_s[0] = C.seed ^ 0xA5A5A5A55A5A5A5Aull;
  hash_rng = C.hash_seed;
  AB.rng = C.alloc_seed;
  AB.perturb = C.alloc_seed != 0;
  if (AB.perturb) AB.top += (sm(&AB.rng) & 0xFFFF) * 16;
  if (C.mode == 3) {
    for (u32 i = 0; i < MAXT; i++) {
      u32 k = 0;
      for (u32 j = 0; j < nsc; j++) k += sc[j].tid == i;
      rp_list[i] = malloc(sizeof(SchedEnt) * (k + 1));
      rp_n[i] = 0;
      for (u32 j = 0; j < nsc; j++)
        if (sc[j].tid == i) rp_list[i][rp_n[i]++] = sc[j];
    }
    rp_faults = malloc(sizeof(FaultEnt) * (nf + 1));
    memcpy(rp_faults, fl, sizeof(FaultEnt) * nf);
    rp_nf = nf;
  }
  if (C.race) {
    u64 n = (u64)&_end - ((u64)&__data_start & ~7ull) + 64;
    static_cells = mmap(0, n * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  sigaction(SIGSEGV, &sa, 0);
  sigaction(SIGBUS, &sa, 0);
  sigaction(SIGILL, &sa, 0);
  sigaction(SIGABRT, &sa, 0);
  sigaction(SIGFPE, &sa, 0);
  nT = 1;
  th_init(&T[0], 0);
  cur = &T[0];
  arena_map(&AB, AB.top + (1 << 20));
  use_b = 1;
  g_on = 1;
  arm(&T[0]);
  self = &T[0];
  s->status = ST_RUNNING;
  sim_thread_init();
}
// The simulation is over; what the harness writes afterwards is not part of it.
void sim_end(void) {
  self = 0;
  g_on = 0;
  finish_stats();
}
void sim_result(const char *p, u64 n) {
  if (n > RESULT_CAP) n = RESULT_CAP;
  memcpy(G->result, p, n);
  G->result_len = (u32)n;
  G->status = ST_DONE;
}
static u64 g_event;
u64 sim_event(void) { return ++g_event; }
u64 sim_step(void) { return g_steps; }
u32 sim_tid(void) { return self ? self->id : 999; }
void sim_nosched(int on) { if (self) self->nosched = (u32)on; }
void sim_exit(int c) { die(c); }
// number of live threads other than the caller that have not finished
u32 sim_unfinished(void) {
  u32 n = 0;
  for (u32 i = 0; i < nT; i++) n += &T[i] != self && T[i].state != R_DONE;
  return n;
}
