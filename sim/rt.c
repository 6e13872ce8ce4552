// Deterministic runtime for the rtbvh simulation.
//
// The whole program under test (rtbvh, rtbvh_ffi, rayon, crossbeam, parking_lot, std, alloc, core) is
// compiled with -Zsanitizer=thread, so that every memory access, atomic operation, fence and function
// entry calls a __tsan_* function.  This file supplies those functions.  They are
//   * the scheduler: real threads, exactly one of which runs at any time; every instrumented access is a
//     possible switch point; who runs next is decided by a seeded PRNG or by a recorded trace;
//   * the data race detector: vector clocks following the declared memory orders, 4 shadow cells / 8 bytes;
//   * the heap checker: a never-reusing arena with red zones (bounds, use after free);
//   * the fault injector: spurious wake-ups, refused threads, stalled threads, clock jumps, processor
//     count changes, minimally aligned and dirty allocations;
// and it replaces the handful of libc calls through which the program could see the outside world.
// Compiled by build.rs WITHOUT instrumentation.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "rt.h"

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define PC ((u32)(uintptr_t)__builtin_return_address(0))

// ------------------------------------------------------------------ raw system calls
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
static void real_futex_wait(volatile int *w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) raw6(SYS_futex, (long)w, FUTEX_WAIT | 128, 0, 0, 0, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
static void real_futex_post(volatile int *w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)w, FUTEX_WAKE | 128, 1, 0, 0, 0);
}

// ------------------------------------------------------------------ layout
#define HEAP_BASE 0x010000000000ull
#define HEAP_SIZE (1ull << 30)
#define STK_BASE 0x020000000000ull
#define MAIN_STK (16ull << 20)
#define THR_STK (512ull << 10)
#define MAXT 1024
#define STK_SIZE (MAIN_STK + (u64)MAXT * THR_STK)
#define SH_HEAP 0x030000000000ull
#define SH_STK 0x038000000000ull
#define SH_GLOB 0x03c000000000ull
#define MSTATE 0x03e000000000ull

typedef struct { u32 epoch, pc; u16 tid; u8 mask, fl; u32 pad; } Slot;
#define F_W 1
#define F_A 2

enum { S_RUN = 0, S_FUTEX, S_JOIN, S_SLEEP, S_DONE };

typedef struct Dtor { void (*fn)(void *); void *arg; struct Dtor *next; } Dtor;
#define STKDEPTH 256
typedef struct T {
  int tid, state;
  volatile int baton;
  u32 lstep, next_ev;
  u32 *clk, *relf, *acqp;
  int has_rel, has_acq;
  int ignore, hostalloc;
  u64 deadline; // 0 = none
  u64 faddr; u32 fbits; int woken; u64 fseq;
  struct T *join_on;
  int detached, joined;
  u32 tag; u32 mark; int marked; u32 mtag;
  void *(*fn)(void *); void *arg; void *ret;
  pthread_t real;
  Dtor *dtors;
  u64 prio;
  u64 stall_until; // global step
  u64 spin_addr; u32 spin_n;
  u32 rr;
  u32 tr_pos, tr_end; // replay entries
  u64 stk_lo, stk_hi;
  u64 ev_thresh;
  u32 sp; u32 stk[STKDEPTH];
} T;

static __thread T *cur __attribute__((tls_model("initial-exec")));

static struct {
  u64 steps, next_gev;
  int atomic_mode, site_mode;
  u32 site;
  int nthreads, nalive;
  T *all[MAXT];
  T *alive[MAXT];
  u64 now0, jump;
  u64 rng, rnd_rng;
  u64 heap;
  u64 prio_low;
  int pct_left;
  u64 fseq;
  u32 spawns, affcalls, nref, ref[256];
  RtCfg cfg;
  RtShared *sh;
  const TrEnt *replay; u32 nreplay; u64 cand_since;
  u64 hash, shash;
  u64 glob_lo, glob_hi;
  int strat;
  u64 stall_next;
  u64 last_switch_step;
  int inited;
} g;

extern char __data_start[], _end[];

// ------------------------------------------------------------------ prng
static u64 mixu(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
static u64 rnd64(u64 *s) { u64 z = (*s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static u32 rnd(u32 n) { return n ? (u32)(((rnd64(&g.rng) >> 32) * n) >> 32) : 0; }
static u32 geo(u32 den) { // geometric with mean den
  if (den <= 1) return 1;
  double u = (double)(rnd64(&g.rng) >> 11) / 9007199254740992.0;
  // -ln(1-u)*den without libm: use a cheap exact-enough log via __builtin
  double x = 1.0 - u; int e = 0;
  while (x < 0.5) { x *= 2; e++; }
  double y = (x - 1) / (x + 1), y2 = y * y;
  double ln = 2 * y * (1 + y2 / 3 + y2 * y2 / 5 + y2 * y2 * y2 / 7) - e * 0.6931471805599453;
  double v = -ln * den;
  if (v < 1) v = 1;
  if (v > 1e9) v = 1e9;
  return (u32)v;
}

// ------------------------------------------------------------------ ending a run
static void __attribute__((noreturn)) die(int code) { raw6(SYS_exit_group, code, 0, 0, 0, 0, 0); __builtin_unreachable(); }
static void fill_stats(void) {
  RtShared *s = g.sh;
  s->steps = g.steps; s->hash = g.hash; s->shash = g.shash; s->nthreads = g.nthreads; s->heap_used = g.heap - HEAP_BASE;
  s->sim_ns = g.steps * 10 + g.jump;
}
static void copy_stack(u32 *out, int *n, u32 pc) {
  T *t = cur; int k = 0;
  if (pc) out[k++] = pc;
  if (t) { u32 d = t->sp; while (d > 0 && k < RT_STK) { d--; if (d < STKDEPTH) out[k++] = t->stk[d]; } }
  *n = k;
}
void rt_panicked(void) { copy_stack(g.sh->pstack, &g.sh->npstack, 0); }
static void __attribute__((noreturn)) report(int kind, u64 addr, u64 aux, u32 pc, const char *msg, size_t len) {
  RtShared *s = g.sh;
  if (!s->kind) {
    s->kind = kind; s->addr = addr; s->aux = aux;
    if (len > sizeof(s->msg) - 1) len = sizeof(s->msg) - 1;
    if (msg) memcpy(s->msg, msg, len);
    s->msg[len] = 0;
    copy_stack(s->stack, &s->nstack, pc);
  }
  fill_stats();
  die(0);
}
static void reports(int kind, u64 addr, u64 aux, u32 pc, const char *msg) { report(kind, addr, aux, pc, msg, strlen(msg)); }
void rt_violation(const char *msg, size_t len) { report(K_ORACLE, 0, 0, PC, msg, len); }
void rt_abandon(const char *msg, size_t len) { report(K_LIMIT, 0, 0, PC, msg, len); }

// ------------------------------------------------------------------ trace
static void record(int kind, T *t, u32 val) {
  RtShared *s = g.sh;
  if (s->ntrace < RT_TRACE) { TrEnt *e = &s->trace[s->ntrace]; e->kind = kind; e->tid = t->tid; e->lstep = t->lstep; e->val = val; }
  else s->trace_overflow = 1;
  s->ntrace++;
}
// replay lookup: entry of this kind at the thread's current local step
static int replay_find(T *t, int kind, u32 *val) {
  while (t->tr_pos < t->tr_end && g.replay[t->tr_pos].lstep < t->lstep) t->tr_pos++;
  for (u32 i = t->tr_pos; i < t->tr_end && g.replay[i].lstep == t->lstep; i++)
    if (g.replay[i].kind == kind) { *val = g.replay[i].val; return 1; }
  return 0;
}
static void replay_arm(T *t) {
  u32 i = t->tr_pos;
  while (i < t->tr_end && g.replay[i].lstep <= t->lstep) i++;
  u32 cap = t->lstep + 65536;
  t->next_ev = (i < t->tr_end && g.replay[i].lstep < cap) ? g.replay[i].lstep : cap;
}

// ------------------------------------------------------------------ scheduler
static u64 now_ns(void) { return g.now0 + g.steps * 10 + g.jump; }
static void hmix(u64 v) { g.hash = (g.hash ^ v) * 0x100000001b3ull; g.hash ^= g.hash >> 29; }

static void arm(T *t) {
  if (g.cfg.replay) { replay_arm(t); return; }
  u32 d = 65536;
  if (g.strat == ST_RAND) { u32 k = geo(g.cfg.p_den); if (k < d) d = k; }
  t->next_ev = t->lstep + d;
}
static void wake_expired(void) {
  u64 n = now_ns();
  for (int i = 0; i < g.nalive; i++) {
    T *t = g.alive[i];
    if (t->deadline && (t->state == S_FUTEX || t->state == S_SLEEP) && t->deadline <= n) { t->woken = t->state == S_SLEEP ? 1 : 2; t->state = S_RUN; t->deadline = 0; t->faddr = 0; g.sh->timeouts++; }
  }
}
// candidates runnable other than `not`; stalled ones only if nobody else
static int candidates(T **out, T *not) {
  int n = 0;
  wake_expired();
  for (int i = 0; i < g.nalive; i++) { T *t = g.alive[i]; if (t != not && t->state == S_RUN && t->stall_until <= g.steps) out[n++] = t; }
  return n;
}
static T *by_tid(int tid) { return tid >= 0 && tid < g.nthreads ? g.all[tid] : 0; }
static void bitset_pair(u32 a, u32 b) {
  u32 h = (u32)(mixu(((u64)a << 32) | b)) & (RT_COV * 8 - 1);
  g.sh->cov[h >> 3] |= 1u << (h & 7);
}
static void switch_to(T *me, T *to, u32 pc) {
  g.sh->switches++;
  hmix(((u64)me->tid << 48) ^ ((u64)to->tid << 32) ^ me->lstep);
  u32 topc = to->sp && to->sp <= STKDEPTH ? to->stk[to->sp - 1] : 0;
  bitset_pair(pc, topc);
  g.last_switch_step = g.steps;
  real_futex_post(&to->baton);
  if (me->state == S_DONE) return;
  real_futex_wait(&me->baton);
}
static T *choose(T **c, int n) {
  if (n == 1) return c[0];
  switch (g.strat) {
  case ST_NONE: return c[0];
  case ST_PCT: { T *b = c[0]; for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i]; return b; }
  default: return c[rnd(n)];
  }
}
static void step_cap_check(u32 pc) {
  if (g.steps >= g.cfg.step_cap) reports(K_STEPCAP, 0, g.steps, pc, "run exceeded its step bound without finishing");
}
// current thread cannot continue (blocked or done): pick another
static void block_switch(T *me, u32 pc) {
  T *c[MAXT];
  for (;;) {
    step_cap_check(pc);
    int n = candidates(c, me);
    if (me->state == S_RUN && me->stall_until <= g.steps) { if (me->deadline == 0 && n == 0) return; c[n++] = me; }
    if (n == 0) {
      // stalled threads may run after all
      for (int i = 0; i < g.nalive; i++) if (g.alive[i]->state == S_RUN) { g.alive[i]->stall_until = 0; c[n++] = g.alive[i]; }
    }
    if (n == 0) { // advance the clock to the next timer
      u64 best = 0;
      for (int i = 0; i < g.nalive; i++) { T *t = g.alive[i]; if (t->deadline && t->state != S_DONE && (!best || t->deadline < best)) best = t->deadline; }
      if (best) { u64 n2 = now_ns(); if (best > n2) g.jump += best - n2; g.steps++; continue; }
      reports(K_DEADLOCK, 0, 0, pc, "deadlock: no thread can ever run again");
    }
    T *to;
    int tot = 0;
    for (int i = 0; i < g.nalive; i++) if (g.alive[i]->state == S_RUN) tot++;
    if (tot > 1) { // recorded whenever a replay, which knows no stalls, would have a choice
      u32 v;
      if (g.cfg.replay) { to = c[0]; if (replay_find(me, 'B', &v)) { T *w = by_tid(v); for (int i = 0; i < n; i++) if (c[i] == w) to = w; } }
      else to = choose(c, n);
      record('B', me, to->tid);
    } else to = c[0];
    if (to == me) return;
    switch_to(me, to, pc);
    return;
  }
}
// voluntary yield: let another runnable thread go if there is one
static void yield_switch(T *me, u32 pc) {
  T *c[MAXT];
  int n = candidates(c, me);
  if (n == 0) {
    for (int i = 0; i < g.nalive; i++) if (g.alive[i] != me && g.alive[i]->state == S_RUN) { g.alive[i]->stall_until = 0; c[n++] = g.alive[i]; }
  }
  if (n == 0) { // only timers can help: move the clock a little
    g.jump += 1000; return;
  }
  T *to; u32 v;
  if (g.cfg.replay) { to = c[0]; if (replay_find(me, 'B', &v)) { T *w = by_tid(v); for (int i = 0; i < n; i++) if (c[i] == w) to = w; } }
  else {
    if (g.strat == ST_PCT) me->prio = g.prio_low--;
    to = g.strat == ST_NONE ? c[(me->rr++) % n] : choose(c, n);
  }
  record('B', me, to->tid);
  switch_to(me, to, pc);
}
static void preempt(T *me, T *to, u32 pc) {
  record('P', me, to->tid);
  g.sh->preempts++;
  switch_to(me, to, pc);
}
static void __attribute__((noinline)) slow_step(T *t, u32 pc, int kind) {
  step_cap_check(pc);
  T *c[MAXT]; int n;
  if (g.cfg.replay) {
    u32 v;
    if (replay_find(t, 'P', &v)) {
      replay_arm(t);
      n = candidates(c, t);
      T *w = by_tid(v);
      int ok = 0;
      for (int i = 0; i < n; i++) if (c[i] == w) ok = 1;
      if (!ok && w && w != t && w->state == S_RUN) ok = 1;
      if (ok) preempt(t, w, pc);
      return;
    }
    replay_arm(t);
    // a valve of its own, for shortened traces; it opens only long after the recorded run's would
    // have (counted from when somebody else could run at all), so a complete trace never meets it
    if (g.steps - g.last_switch_step > 6000000) {
      n = candidates(c, t);
      if (!n) g.cand_since = 0;
      else if (!g.cand_since || g.cand_since < g.last_switch_step) g.cand_since = g.steps;
      else if (g.steps - g.cand_since > 6000000) preempt(t, c[0], pc);
    }
    return;
  }
  // random stalls of a whole thread ("slow node")
  if (g.cfg.stall_den && g.steps >= g.stall_next) {
    g.stall_next = g.steps + geo(g.cfg.stall_den);
    if (g.nalive > 1) {
      T *v = g.alive[rnd(g.nalive)];
      v->stall_until = g.steps + geo(g.cfg.stall_len);
      g.sh->stalls++;
      if (v == t) { n = candidates(c, t); if (n) { arm(t); preempt(t, choose(c, n), pc); return; } }
    }
  }
  int sw = 0;
  switch (g.strat) {
  case ST_RAND: if (t->lstep >= t->next_ev) sw = 1; break;
  case ST_ATOMIC: if (kind == K_ATOMIC && rnd(g.cfg.p_den) == 0) sw = 1; break;
  case ST_PCT:
    if (g.steps >= g.next_gev) {
      if (g.pct_left > 0) { g.pct_left--; t->prio = g.prio_low--; sw = 1; }
      g.next_gev = g.pct_left > 0 ? g.steps + 1 + rnd(g.cfg.est_len) : ~0ull;
    }
    break;
  case ST_SITE:
    if (((pc * 2654435761u) >> 22) % g.cfg.site_mod == g.site && rnd(g.cfg.p_den) == 0) { t->stall_until = g.steps + geo(g.cfg.stall_len ? g.cfg.stall_len : 2000); g.sh->stalls++; sw = 1; }
    break;
  }
  if (t->lstep >= t->next_ev) arm(t);
  if (g.steps - g.last_switch_step > 3000000) sw = 1; // fairness valve
  if (!sw) return;
  n = candidates(c, t);
  if (!n) { t->stall_until = 0; return; }
  T *to;
  if (g.strat == ST_PCT) { to = choose(c, n); if (to->prio < t->prio && g.steps - g.last_switch_step <= 3000000) return; }
  else to = g.strat == ST_NONE ? c[(t->rr++) % n] : c[rnd(n)];
  preempt(t, to, pc);
}
static inline void step(T *t, u32 pc, int kind) {
  t->lstep++; g.steps++;
  if (unlikely(t->lstep >= t->next_ev || g.steps >= g.next_gev || (kind == K_ATOMIC && g.atomic_mode) || g.site_mode || (g.cfg.stall_den && g.steps >= g.stall_next)))
    slow_step(t, pc, kind);
}

// ------------------------------------------------------------------ shadow memory
static inline Slot *shadow_of(u64 a) {
  if (a - HEAP_BASE < HEAP_SIZE) return (Slot *)(SH_HEAP + ((a - HEAP_BASE) >> 3) * 64);
  if (a - STK_BASE < STK_SIZE) return (Slot *)(SH_STK + ((a - STK_BASE) >> 3) * 64);
  if (a - g.glob_lo < g.glob_hi - g.glob_lo) return (Slot *)(SH_GLOB + ((a - g.glob_lo) >> 3) * 64);
  return 0;
}
static void __attribute__((noinline)) race(T *t, Slot *q, u64 addr, u32 pc, u32 fl) {
  RtShared *s = g.sh;
  for (u32 i = 0; i < s->nraces; i++) if (s->races[i].pc1 == pc && s->races[i].pc2 == q->pc) { s->races[i].count++; return; }
  if (s->nraces >= RT_RACES) return;
  RaceEnt *r = &s->races[s->nraces++];
  r->pc1 = pc; r->pc2 = q->pc; r->fl1 = fl; r->fl2 = q->fl; r->t1 = t->tid; r->t2 = q->tid; r->addr = addr; r->count = 1; r->step = g.steps;
  copy_stack(r->stack, &r->nstack, pc);
}
static inline void granule(Slot *s, T *t, u32 mask, u32 fl, u32 pc, u64 addr) {
  u32 e = t->clk[t->tid];
  int repl = -1, pri = 0;
  for (int i = 0; i < 4; i++) {
    Slot *q = &s[i];
    if (!q->epoch) { if (pri < 1) { repl = i; pri = 1; } break; }
    if (q->tid == t->tid) {
      if (q->mask == mask && q->fl == fl) { if (q->epoch == e) return; repl = i; pri = 4; continue; }
      if ((q->mask & ~mask) == 0 && ((fl & F_W) || !(q->fl & F_W)) && !((fl & F_A) && !(q->fl & F_A)) && pri < 3) { repl = i; pri = 3; }
      continue;
    }
    if (!(q->mask & mask)) continue;
    if (!((q->fl | fl) & F_W)) continue;
    if ((q->fl & fl) & F_A) continue;
    if (t->clk[q->tid] >= q->epoch) {
      if ((q->mask & ~mask) == 0 && ((fl & F_W) || !(q->fl & F_W)) && !((fl & F_A) && !(q->fl & F_A)) && pri < 2) { repl = i; pri = 2; }
      continue;
    }
    race(t, q, addr, pc, fl);
  }
  if (repl < 0) repl = (t->rr++) & 3;
  Slot *q = &s[repl];
  q->epoch = e; q->pc = pc; q->tid = t->tid; q->mask = mask; q->fl = fl;
}
static void __attribute__((noinline)) badmem(u64 a, u64 n, u32 pc, u8 st, int wr) {
  char b[200];
  snprintf(b, sizeof b, "%s of %llu bytes at %s heap memory", wr ? "write" : "read", (unsigned long long)n, st == 0xFD ? "freed" : "out-of-bounds");
  report(K_MEM, a, n, pc, b, strlen(b));
}
static inline void mcheck(u64 a, u64 n, u32 pc, int wr) { // a inside heap
  u8 *m = (u8 *)MSTATE + ((a - HEAP_BASE) >> 3);
  u64 last = a + n - 1;
  u8 *ml = (u8 *)MSTATE + ((last - HEAP_BASE) >> 3);
  // state: 0 = never allocated / red zone, 1..8 = first k bytes usable, 0xFD freed
  for (u8 *p = m; p <= ml; p++) {
    u8 st = *p;
    u32 need = p == ml ? (last & 7) + 1 : 8;
    if (unlikely(st < need || st > 8)) badmem(a, n, pc, st, wr);
  }
}
static inline void access_(u64 a, u64 n, u32 fl, u32 pc) {
  T *t = cur;
  if (!t || t->ignore || !n) return;
  step(t, pc, fl & F_W ? K_WRITE : K_READ);
  if (a - HEAP_BASE < HEAP_SIZE) mcheck(a, n, pc, fl & F_W);
  Slot *s = shadow_of(a);
  if (!s) return;
  u32 off = a & 7;
  if (likely(off + n <= 8)) { granule(s, t, ((1u << n) - 1) << off, fl, pc, a); return; }
  u64 end = a + n, p = a;
  while (p < end) {
    u32 o = p & 7; u32 k = 8 - o; if (k > end - p) k = end - p;
    granule(s, t, (((1u << k) - 1) << o) & 0xff, fl, pc, p);
    p += k; s += 4;
  }
}
static void range(u64 a, u64 n, u32 fl, u32 pc) {
  T *t = cur;
  if (!t || t->ignore || !n) return;
  // long ranges are checked in pieces so that other threads can interleave
  while (n > 256) { access_(a, 256, fl, pc); a += 256; n -= 256; }
  access_(a, n, fl, pc);
}
void rt_check_range(const void *p, size_t n) { u64 a = (u64)p; if (n && a - HEAP_BASE < HEAP_SIZE) mcheck(a, n, PC, 0); }

// ------------------------------------------------------------------ sync variables (vector clocks)
typedef struct { u64 addr; u32 *clk; } Sync;
#define SYN (1u << 18)
static Sync *syn;
static u32 *clk_new(void) {
  static u32 *pool; static u32 left;
  if (left == 0) { pool = mmap(0, 64 * MAXT * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); left = 64; }
  u32 *r = pool; pool += MAXT; left--; return r;
}
static Sync *sync_get(u64 a, int create) {
  u32 h = (u32)mixu(a) & (SYN - 1);
  for (;; h = (h + 1) & (SYN - 1)) {
    if (syn[h].addr == a) return &syn[h];
    if (!syn[h].addr) {
      if (!create) return 0;
      static u32 used; if (++used > SYN / 2) reports(K_LIMIT, 0, 0, 0, "too many atomic variables in one run");
      syn[h].addr = a; syn[h].clk = clk_new(); return &syn[h];
    }
  }
}
static void vjoin(u32 *d, const u32 *s) { int n = g.nthreads; for (int i = 0; i < n; i++) if (s[i] > d[i]) d[i] = s[i]; }
static void vcopy(u32 *d, const u32 *s) { memcpy(d, s, g.nthreads * 4); }
enum { MO_RLX, MO_CONS, MO_ACQ, MO_REL, MO_AR, MO_SC };
static int is_acq(int m) { m &= 7; return m == MO_CONS || m == MO_ACQ || m == MO_AR || m == MO_SC; }
static int is_rel(int m) { m &= 7; return m == MO_REL || m == MO_AR || m == MO_SC; }
static void sy_load(T *t, u64 a, int mo) {
  Sync *s = sync_get(a, 0);
  if (!s) return;
  if (is_acq(mo)) vjoin(t->clk, s->clk);
  else { vjoin(t->acqp, s->clk); t->has_acq = 1; }
}
static void sy_store(T *t, u64 a, int mo, int rmw) {
  if (is_rel(mo)) {
    Sync *s = sync_get(a, 1);
    if (rmw) vjoin(s->clk, t->clk); else vcopy(s->clk, t->clk);
    t->clk[t->tid]++;
  } else if (t->has_rel) {
    // a relaxed store keeps what was released there before (as release sequences of one thread do;
    // crossbeam is built for thread sanitizers here and relies on it)
    Sync *s = sync_get(a, 1);
    vjoin(s->clk, t->relf);
  }
}
static void sy_fence(T *t, int mo) {
  if (is_acq(mo) && t->has_acq) vjoin(t->clk, t->acqp);
  if (is_rel(mo)) { vcopy(t->relf, t->clk); t->has_rel = 1; t->clk[t->tid]++; }
}
static inline T *at_pre(u64 a, u64 n, u32 fl, u32 pc) {
  T *t = cur;
  if (!t) return 0;
  if (!t->ignore) {
    step(t, pc, K_ATOMIC);
    if (a - HEAP_BASE < HEAP_SIZE) mcheck(a, n, pc, fl & F_W);
    Slot *s = shadow_of(a);
    if (s) granule(s, t, (((1u << n) - 1) << (a & 7)) & 0xff, fl | F_A, pc, a);
    if (fl & F_W) { g.shash = (g.shash ^ ((u64)t->tid << 32 | pc)) * 0x100000001b3ull; g.shash ^= g.shash >> 31; }
    g.sh->atomics++;
  }
  return t;
}
static inline void spin(T *t, u64 a, u32 pc) {
  if (t->ignore) return;
  if (t->spin_addr == a) { if (++t->spin_n >= 48) { t->spin_n = 0; t->lstep++; g.steps++; step_cap_check(pc); g.sh->spins++; yield_switch(t, pc); } }
  else { t->spin_addr = a; t->spin_n = 0; }
}
// A failing compare-exchange acquires whatever its stated order: parking_lot 0.11 leaves the slow path of
// its write lock through one that is only relaxed (raw_rwlock.rs, wait_for_readers), which is a formal
// flaw of that library and no property of this repository.
#define ATOMICS(N, TY)                                                                                         \
  TY __tsan_atomic##N##_load(const volatile TY *a, int mo) {                                                   \
    T *t = at_pre((u64)a, N / 8, 0, PC);                                                                       \
    if (!t) return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                       \
    spin(t, (u64)a, PC);                                                                                       \
    TY v = *a; sy_load(t, (u64)a, mo); return v;                                                               \
  }                                                                                                            \
  void __tsan_atomic##N##_store(volatile TY *a, TY v, int mo) {                                                \
    T *t = at_pre((u64)a, N / 8, F_W, PC);                                                                     \
    if (!t) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }                                              \
    t->spin_addr = 0; sy_store(t, (u64)a, mo, 0); *a = v;                                                      \
  }                                                                                                            \
  RMW(N, TY, exchange, v) RMW(N, TY, fetch_add, o + v) RMW(N, TY, fetch_sub, o - v) RMW(N, TY, fetch_and, o &v) \
  RMW(N, TY, fetch_or, o | v) RMW(N, TY, fetch_xor, o ^ v) RMW(N, TY, fetch_nand, ~(o & v))                    \
  TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) {                    \
    T *t = at_pre((u64)a, N / 8, F_W, PC);                                                                     \
    if (!t) { __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }        \
    TY o = *a;                                                                                                 \
    if (o == c) { t->spin_addr = 0; sy_load(t, (u64)a, mo); sy_store(t, (u64)a, mo, 1); *a = v; }              \
    else { spin(t, (u64)a, PC); o = *a; if (o == c) { sy_load(t, (u64)a, mo); sy_store(t, (u64)a, mo, 1); *a = v; } \
           else sy_load(t, (u64)a, MO_ACQ), (void)fmo; }                                                                     \
    return o;                                                                                                  \
  }                                                                                                            \
  int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) {               \
    TY e = *c, o = __tsan_atomic##N##_compare_exchange_val(a, e, v, mo, fmo);                                  \
    if (o == e) return 1; *c = o; return 0;                                                                    \
  }                                                                                                            \
  int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) {                 \
    return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo);                                       \
  }
#define RMW(N, TY, OP, EXPR)                                                                                   \
  TY __tsan_atomic##N##_##OP(volatile TY *a, TY v, int mo) {                                                   \
    T *t = at_pre((u64)a, N / 8, F_W, PC);                                                                     \
    if (!t) { TY o = *a; while (!__atomic_compare_exchange_n(a, &o, (TY)(EXPR), 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {} return o; } \
    t->spin_addr = 0;                                                                                          \
    TY o = *a; sy_load(t, (u64)a, mo); sy_store(t, (u64)a, mo, 1); *a = (TY)(EXPR); return o;                  \
  }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo) { T *t = cur; if (!t) { __sync_synchronize(); return; } if (!t->ignore) step(t, PC, K_ATOMIC); sy_fence(t, mo); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ------------------------------------------------------------------ plain accesses
#define RW(N)                                                                     \
  void __tsan_read##N(void *a) { access_((u64)a, N, 0, PC); }                     \
  void __tsan_write##N(void *a) { access_((u64)a, N, F_W, PC); }                  \
  void __tsan_unaligned_read##N(void *a) { access_((u64)a, N, 0, PC); }           \
  void __tsan_unaligned_write##N(void *a) { access_((u64)a, N, F_W, PC); }        \
  void __tsan_read_write##N(void *a) { access_((u64)a, N, F_W, PC); }             \
  void __tsan_unaligned_read_write##N(void *a) { access_((u64)a, N, F_W, PC); }   \
  void __tsan_volatile_read##N(void *a) { (void)a; }                              \
  void __tsan_volatile_write##N(void *a) { (void)a; }                             \
  void __tsan_unaligned_volatile_read##N(void *a) { (void)a; }                    \
  void __tsan_unaligned_volatile_write##N(void *a) { (void)a; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { range((u64)a, n, 0, PC); }
void __tsan_write_range(void *a, size_t n) { range((u64)a, n, F_W, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { range((u64)s, n, 0, PC); range((u64)d, n, F_W, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { range((u64)s, n, 0, PC); range((u64)d, n, F_W, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { range((u64)d, n, F_W, PC); return memset(d, c, n); }
void __tsan_vptr_update(void **a, void *v) { (void)a; (void)v; }
void __tsan_vptr_read(void **a) { (void)a; }
void __tsan_func_entry(void *pc) { T *t = cur; if (!t) return; if (t->sp < STKDEPTH) t->stk[t->sp] = (u32)(u64)pc; t->sp++; }
void __tsan_func_exit(void) { T *t = cur; if (!t) return; if (t->sp) t->sp--; }
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}

// ------------------------------------------------------------------ heap
#define RZ 32
static void mstate_set(u64 a, u64 n, int alive) {
  u8 *m = (u8 *)MSTATE + ((a - HEAP_BASE) >> 3);
  u64 full = n >> 3;
  if (alive) { memset(m, 8, full); if (n & 7) m[full] = n & 7; }
  else memset(m, 0xFD, full + ((n & 7) ? 1 : 0));
}
// Every block taken while a round is open, with the stack that took it. What is still alive after the last round is
// grouped by the innermost frames of that stack.
typedef struct { u64 addr; u32 size, sid; u8 round; } Acc;
typedef struct { u64 h; u32 n; u32 s[RT_STK]; } AccStk;
#define ACCS (1u << 21)
#define ACCSTKS (1u << 15)
static Acc *acc; static u32 nacc; static AccStk *accstk; static u32 acc_round;
static void acc_add(u64 a, u64 n) {
  if (nacc >= ACCS) { g.sh->leaks_full = 1; return; }
  u32 s[RT_STK]; int k; copy_stack(s, &k, 0);
  u64 h = 1469598103934665603ull; for (int i = 0; i < k; i++) h = (h ^ s[i]) * 1099511628211ull;
  h |= 1;
  u32 i = (u32)(h >> 20) & (ACCSTKS - 1), tries = 0;
  while (accstk[i].h && accstk[i].h != h) { i = (i + 1) & (ACCSTKS - 1); if (++tries > ACCSTKS / 2) { g.sh->leaks_full = 1; return; } }
  if (!accstk[i].h) { accstk[i].h = h; accstk[i].n = k; memcpy(accstk[i].s, s, sizeof s); }
  acc[nacc].addr = a; acc[nacc].size = (u32)n; acc[nacc].sid = i; acc[nacc].round = (u8)acc_round; nacc++;
}
void rt_round(u32 r) {
  if (r && !acc) {
    acc = mmap(0, sizeof(Acc) * ACCS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    accstk = mmap(0, sizeof(AccStk) * ACCSTKS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (acc == MAP_FAILED || accstk == MAP_FAILED) die(97);
  }
  acc_round = r;
}
u32 rt_alive(void) { return (u32)g.nalive; }
// blocks of rounds >= from that nobody has freed, grouped by allocation site; sites seen in every round from `from` to `to` are reported
u32 rt_survivors(u32 from, u32 to) {
  RtShared *sh = g.sh; u32 total = 0;
  static LeakEnt grp[4096]; static u64 key[4096]; u32 ng = 0;
  for (u32 i = 0; i < nacc; i++) {
    Acc *b = &acc[i];
    if (!b->size || b->round < from) continue;
    if (*((u8 *)MSTATE + ((b->addr - HEAP_BASE) >> 3)) == 0xFD) continue;
    total++;
    AccStk *q = &accstk[b->sid];
    u64 h = 1; for (u32 k = 0; k < q->n && k < 6; k++) h = (h ^ q->s[k]) * 1099511628211ull;
    u32 j = 0; while (j < ng && key[j] != h) j++;
    if (j == ng) { if (ng == 4096) continue; key[ng] = h; memset(&grp[ng], 0, sizeof grp[ng]); grp[ng].nstack = q->n; memcpy(grp[ng].stack, q->s, sizeof q->s); ng++; }
    grp[j].count++; grp[j].bytes += b->size; grp[j].rounds |= 1u << b->round;
  }
  u32 want = 0; for (u32 r = from; r <= to; r++) want |= 1u << r;
  sh->leak_rounds = to - from + 1;
  for (u32 j = 0; j < ng && sh->nleaks < RT_LEAKS; j++) if ((grp[j].rounds & want) == want) sh->leaks[sh->nleaks++] = grp[j];
  return total;
}
static int host(void) { T *t = cur; return !t || t->hostalloc; }
void *rt_alloc(size_t n, size_t al, int zero) {
  if (host()) { void *p = al <= 16 ? malloc(n ? n : 1) : aligned_alloc(al, (n + al - 1) / al * al); if (p && zero) memset(p, 0, n); return p; }
  T *t = cur;
  if (!t->ignore) { t->lstep++; g.steps++; }
  u64 a = g.heap + RZ;
  u64 eff = al < 8 ? 8 : al;
  if (g.cfg.min_align) { // exactly the alignment asked for and no more, at byte granularity above 8
    a = (a + eff * 2 - 1) / (eff * 2) * (eff * 2) + (eff < 4096 ? eff : 0);
  } else { if (eff < 16) eff = 16; a = (a + eff - 1) / eff * eff; }
  u64 end = a + n;
  if (n > (400ull << 20)) reports(K_MEM, 0, n, PC, "a single allocation of more than 400 MB");
  if (end + RZ > HEAP_BASE + HEAP_SIZE) reports(K_LIMIT, 0, 0, 0, "simulated heap exhausted");
  g.heap = (end + 7) & ~7ull;
  mstate_set(a, n, 1);
  g.sh->allocs++;
  if (acc_round && n) acc_add(a, n);
  if (!zero && g.cfg.junk) { u64 k = n < 65536 ? n : 65536; memset((void *)a, (int)(g.cfg.junk & 0xff), k); }
  return (void *)a;
}
void rt_dealloc(void *p, size_t n, size_t al) {
  (void)al;
  u64 a = (u64)p;
  if (a - HEAP_BASE >= HEAP_SIZE) { free(p); return; }
  T *t = cur;
  if (!t) return;
  if (n) {
    u8 st = *((u8 *)MSTATE + ((a - HEAP_BASE) >> 3));
    if (st == 0xFD || st == 0) reports(K_MEM, a, n, PC, st ? "double free" : "free of memory that was never allocated");
    if (!t->ignore) { // a free conflicts with every unordered access
      u64 q = a, e = a + (n < 4096 ? n : 4096);
      u32 pc = t->sp && t->sp <= STKDEPTH ? t->stk[t->sp - 1] : PC;
      while (q < e) { u64 k = 8; if (q + k > e) k = e - q; granule(shadow_of(q), t, ((1u << k) - 1) & 0xff, F_W, pc, q); q += 8; }
      t->lstep++; g.steps++;
    }
    mstate_set(a, n, 0);
    g.sh->frees++;
  }
}
void *rt_realloc(void *p, size_t o, size_t al, size_t n) {
  void *q = rt_alloc(n, al, 0);
  if (q) { memcpy(q, p, o < n ? o : n); rt_dealloc(p, o, al); }
  return q;
}

// ------------------------------------------------------------------ threads
static T *new_thread(void *(*fn)(void *), void *arg) {
  if (g.nthreads >= MAXT) reports(K_LIMIT, 0, 0, 0, "too many threads in one run");
  T *t = mmap(0, sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  t->tid = g.nthreads; t->fn = fn; t->arg = arg;
  t->clk = clk_new(); t->relf = clk_new(); t->acqp = clk_new();
  g.all[g.nthreads++] = t; g.alive[g.nalive++] = t;
  t->clk[t->tid] = 1;
  t->prio = 1000000 + rnd(1u << 30);
  if (g.cfg.replay) { while (t->tr_pos < g.nreplay && g.replay[t->tr_pos].tid < t->tid) t->tr_pos++; t->tr_end = t->tr_pos; while (t->tr_end < g.nreplay && g.replay[t->tr_end].tid == t->tid) t->tr_end++; }
  arm(t);
  if (t->tid == 0) { t->stk_lo = STK_BASE; t->stk_hi = STK_BASE + MAIN_STK; }
  else { t->stk_lo = STK_BASE + MAIN_STK + (u64)t->tid * THR_STK; t->stk_hi = t->stk_lo + THR_STK; }
  return t;
}
static void run_dtors(T *t) { while (t->dtors) { Dtor *d = t->dtors; t->dtors = d->next; d->fn(d->arg); } }
static void *trampoline(void *p) {
  T *t = p;
  real_futex_wait(&t->baton);
  cur = t;
  t->ret = t->fn(t->arg);
  run_dtors(t);
  t->lstep++; g.steps++;
  t->clk[t->tid]++;
  t->state = S_DONE;
  int k = 0;
  for (int i = 0; i < g.nalive; i++) if (g.alive[i] != t) g.alive[k++] = g.alive[i];
  g.nalive = k;
  for (int i = 0; i < g.nalive; i++) if (g.alive[i]->state == S_JOIN && g.alive[i]->join_on == t) g.alive[i]->state = S_RUN;
  block_switch(t, 0);
  for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
  return 0;
}
#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__); if (!r_##name) *(void **)&r_##name = dlsym(RTLD_NEXT, #name)
static int start_real(T *t) {
  REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  pthread_attr_t at; pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void *)t->stk_lo, t->stk_hi - t->stk_lo);
  int r = r_pthread_create(&t->real, &at, trampoline, t);
  pthread_attr_destroy(&at);
  return r;
}
int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  T *me = cur;
  if (!me) { REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); return r_pthread_create(out, at, fn, arg); }
  u32 pc = PC;
  if (!me->ignore) step(me, pc, K_ATOMIC);
  me->lstep++; g.steps++;
  int refuse = 0; u32 v;
  if (g.cfg.replay) refuse = replay_find(me, 'E', &v);
  else if (!me->ignore && g.cfg.eagain_at && g.sh->armed) { g.spawns++; refuse = g.spawns == g.cfg.eagain_at || (g.cfg.eagain_every && g.spawns > g.cfg.eagain_at && (g.spawns - g.cfg.eagain_at) % g.cfg.eagain_every == 0); }
  if (refuse) { record('E', me, 0); g.sh->eagains++; if (g.nref < 256) g.ref[g.nref++] = me->tag; return EAGAIN; }
  T *t = new_thread(fn, arg);
  vcopy(t->clk, me->clk); t->clk[t->tid] = 1; me->clk[me->tid]++;
  t->ignore = 0; t->tag = me->tag;
  if (at) { int d = 0; pthread_attr_getdetachstate(at, &d); t->detached = d == PTHREAD_CREATE_DETACHED; }
  if (start_real(t)) reports(K_LIMIT, 0, 0, 0, "real thread could not be created");
  *out = t->real;
  g.sh->threads++;
  if (!me->ignore) step(me, pc, K_ATOMIC);
  return 0;
}
static T *by_real(pthread_t p) { for (int i = 0; i < g.nthreads; i++) if (g.all[i]->real == p) return g.all[i]; return 0; }
int pthread_join(pthread_t p, void **ret) {
  T *me = cur;
  if (!me) { REAL(int, pthread_join, pthread_t, void **); return r_pthread_join(p, ret); }
  T *t = by_real(p);
  if (!t) return ESRCH;
  u32 pc = PC;
  me->lstep++; g.steps++;
  if (!me->ignore) step(me, pc, K_ATOMIC);
  while (t->state != S_DONE) { me->state = S_JOIN; me->join_on = t; block_switch(me, pc); }
  vjoin(me->clk, t->clk);
  if (ret) *ret = t->ret;
  t->joined = 1;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!cur) { REAL(int, pthread_detach, pthread_t); return r_pthread_detach(p); }
  T *t = by_real(p); if (t) t->detached = 1;
  return 0;
}
int __cxa_thread_atexit_impl(void (*fn)(void *), void *arg, void *dso) {
  T *t = cur;
  if (!t) { REAL(int, __cxa_thread_atexit_impl, void (*)(void *), void *, void *); return r___cxa_thread_atexit_impl(fn, arg, dso); }
  Dtor *d = malloc(sizeof *d); d->fn = fn; d->arg = arg; d->next = t->dtors; t->dtors = d;
  return 0;
}
int sched_yield(void) {
  T *t = cur;
  if (!t) { raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); return 0; }
  t->lstep++; g.steps++; step_cap_check(PC);
  yield_switch(t, PC);
  return 0;
}

// ------------------------------------------------------------------ futex
static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *ts, u32 bits, u32 pc) {
  T *me = cur;
  int cmd = op & 127;
  me->lstep++; g.steps++;
  if (!me->ignore) step(me, pc, K_ATOMIC);
  me->lstep++; g.steps++;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (*addr != val) { errno = EAGAIN; return -1; }
    u32 v = 0; int sp = 0;
    if (g.cfg.replay) sp = replay_find(me, 'U', &v) ? (int)v : 0;
    else if (!me->ignore && g.cfg.spurious_den && rnd(g.cfg.spurious_den) == 0) sp = 1 + rnd(2);
    if (sp) { record('U', me, sp); g.sh->spurious++; if (sp == 2) { errno = EINTR; return -1; } return 0; }
    me->deadline = 0;
    if (ts) {
      u64 d = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
      me->deadline = cmd == FUTEX_WAIT ? now_ns() + d : d;
      if (!me->deadline) me->deadline = 1;
    }
    me->state = S_FUTEX; me->faddr = (u64)addr; me->fbits = cmd == FUTEX_WAIT_BITSET ? bits : ~0u; me->woken = 0; me->fseq = ++g.fseq;
    g.sh->futex_waits++;
    block_switch(me, pc);
    int w = me->woken; me->deadline = 0;
    if (w == 2) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    u32 m = cmd == FUTEX_WAKE_BITSET ? bits : ~0u;
    long done = 0;
    while ((u64)done < val) {
      T *c[MAXT]; int n = 0;
      for (int i = 0; i < g.nalive; i++) { T *t = g.alive[i]; if (t->state == S_FUTEX && t->faddr == (u64)addr && (t->fbits & m)) c[n++] = t; }
      if (!n) break;
      // oldest waiter first unless the wake-order fault picks another
      int k = 0; for (int i = 1; i < n; i++) if (c[i]->fseq < c[k]->fseq) k = i;
      if (n > 1 && val != 0x7fffffff) {
        u32 v;
        if (g.cfg.replay) { if (replay_find(me, 'W', &v) && v < (u32)n) k = v; }
        else if (g.cfg.wake_order && rnd(2)) { k = rnd(n); record('W', me, k); g.sh->reorders++; }
      }
      c[k]->state = S_RUN; c[k]->woken = 1; c[k]->deadline = 0; c[k]->faddr = 0;
      done++;
    }
    return done;
  }
  reports(K_LIMIT, 0, cmd, pc, "unsupported futex operation");
  return -1;
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (cur) {
    if (n == SYS_futex) return sim_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32)f, PC);
    if (n == SYS_gettid) return 1000 + cur->tid;
    if (n == SYS_getrandom) { u8 *p = (u8 *)a; for (long i = 0; i < b; i++) p[i] = (u8)rnd64(&g.rnd_rng); return b; }
  }
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
pid_t gettid(void) { return cur ? 1000 + cur->tid : (pid_t)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0); }
ssize_t getrandom(void *p, size_t n, unsigned fl) { return syscall(SYS_getrandom, p, n, fl, 0, 0, 0); }

// ------------------------------------------------------------------ clocks, machine size, files
int clock_gettime(clockid_t id, struct timespec *ts) {
  T *t = cur;
  if (!t) return (int)raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
  if (g.cfg.clock_jump && !t->ignore && mixu(g.cfg.seed ^ ((u64)t->tid << 32) ^ t->lstep) % g.cfg.clock_jump == 0) { g.jump += mixu(g.cfg.seed + t->lstep) % 3000000000ull; g.sh->clock_jumps++; }
  u64 n = now_ns();
  if (id == CLOCK_REALTIME && g.cfg.clock_jump) n += mixu(n / 1000000) % 60000000000ull; // wall clock also jumps backwards
  ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull;
  return 0;
}
static int sim_sleep(u64 ns, u32 pc) {
  T *t = cur;
  t->lstep++; g.steps++;
  t->state = S_SLEEP; t->deadline = now_ns() + ns + 1; g.sh->sleeps++;
  block_switch(t, pc);
  t->deadline = 0;
  return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!cur) return (int)raw6(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0);
  return sim_sleep((u64)a->tv_sec * 1000000000ull + a->tv_nsec, PC);
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
  if (!cur) return (int)-raw6(SYS_clock_nanosleep, id, fl, (long)a, (long)b, 0, 0);
  u64 d = (u64)a->tv_sec * 1000000000ull + a->tv_nsec;
  if (fl & TIMER_ABSTIME) { u64 n = now_ns(); d = d > n ? d - n : 0; }
  return sim_sleep(d, PC);
}
static u32 sim_cpus(void) {
  u32 k = g.affcalls++;
  if (g.cfg.cpu_flap && k && mixu(g.cfg.seed * 31 + k) % 3 == 0) { g.sh->cpu_changes++; return 1 + mixu(g.cfg.seed * 77 + k) % 24; }
  return g.cfg.ncpu ? g.cfg.ncpu : 1;
}
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (!cur) { long r = raw6(SYS_sched_getaffinity, pid, sz, (long)set, 0, 0, 0); if (r < 0) { errno = -r; return -1; } memset((char *)set + r, 0, sz - r); return 0; }
  memset(set, 0, sz);
  u32 n = sim_cpus();
  for (u32 i = 0; i < n; i++) CPU_SET_S(i, sz, set);
  return 0;
}
long sysconf(int name) {
  REAL(long, sysconf, int);
  if (cur && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return sim_cpus();
  return r_sysconf(name);
}
static int sim_open(const char *p, int fl, int mode) {
  if (cur && (!strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5))) { errno = ENOENT; return -1; }
  long r = raw6(SYS_openat, AT_FDCWD, (long)p, fl, mode, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return (int)r;
}
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return sim_open(p, fl, m); }
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return sim_open(p, fl, m); }

// ------------------------------------------------------------------ control interface
void rt_ignore(int d) { if (cur) cur->ignore += d; }
void rt_hostalloc(int d) { if (cur) cur->hostalloc += d; }
u64 rt_steps(void) { return g.steps; }
u64 rt_now(void) { return now_ns(); }
void rt_set_cap(u64 cap) { g.cfg.step_cap = cap; }
int rt_live_threads(void) { return g.nalive; }
// expected length of the adversarial phase: keeps the number of switches affordable
void rt_tune(u64 est) {
  if (est > 0x7fffffff) est = 0x7fffffff;
  if (est < 100) est = 100;
  g.cfg.est_len = (u32)est;
  u32 lo = (u32)(est / 20000);
  if (g.cfg.strategy == ST_RAND && g.cfg.p_den < lo) g.cfg.p_den = lo;
  if (g.cfg.strategy == ST_ATOMIC && g.cfg.p_den < lo / 16) g.cfg.p_den = lo / 16;
  if (g.cfg.stall_den && g.cfg.stall_den < est / 200) g.cfg.stall_den = (u32)(est / 200);
}
// threads are tagged with the operation that (transitively) started them
u32 rt_tag(u32 tag) { T *t = cur; if (!t) return 0; u32 o = t->tag; t->tag = tag; return o; }
// an operation returned: remember which threads it started are still there
u32 rt_tag_mark(u32 tag) {
  u32 n = 0;
  for (int i = 0; i < g.nalive; i++) { T *t = g.alive[i]; if (t != cur && t->tag == tag && !t->marked && t->tid) { t->marked = 1; t->mtag = tag; t->mark = t->lstep; n++; } }
  return n;
}
// after the run: largest number of steps a marked thread took after its operation had returned.
// Threads still alive are given time to end; ~0 if one never does.
u32 rt_tag_worst(u32 *tag) {
  u32 worst = 0;
  for (int r = 0;; r++) {
    int live = 0;
    for (int i = 0; i < g.nalive; i++) if (g.alive[i]->marked) live = 1;
    if (!live || r > 20000) break;
    T *me = cur; me->lstep++; g.steps++; g.jump += 100000; yield_switch(me, 0);
  }
  for (int i = 0; i < g.nthreads; i++) { T *t = g.all[i]; if (t->marked) { u32 d = t->state == S_DONE ? t->lstep - t->mark : ~0u; if (d >= worst) { worst = d; *tag = t->mtag; } } }
  return worst;
}
// did an operation (or a thread it started) have a thread refused?
u32 rt_refused(u32 tag) { u32 n = 0; for (u32 i = 0; i < g.nref; i++) if (g.ref[i] == tag) n++; return n; }
int rt_tid(void) { return cur ? cur->tid : -1; }
int rt_thread_alive(int tid) { T *t = by_tid(tid); return t && t->state != S_DONE; }
u64 rt_rand(void) { return rnd64(&g.rnd_rng); }
void rt_set_ncpu(u32 n) { g.cfg.ncpu = n; }
void rt_arm_faults(int on) { g.sh->armed = on; }
void rt_tick(u64 v) { T *t = cur; if (t && !t->ignore) { t->lstep++; g.steps++; step(t, PC, K_ATOMIC); } (void)v; }
void rt_hash(u64 v) { hmix(v); }
void rt_strategy(int on) { // switch between the serial reference schedule and the configured one
  g.strat = on ? (int)g.cfg.strategy : ST_NONE;
  g.atomic_mode = on && g.strat == ST_ATOMIC && !g.cfg.replay;
  g.site_mode = on && g.strat == ST_SITE && !g.cfg.replay;
  g.next_gev = on && g.strat == ST_PCT && !g.cfg.replay ? g.steps + 1 + rnd(g.cfg.est_len) : ~0ull;
  g.pct_left = g.cfg.pct_d;
  g.stall_next = on && g.cfg.stall_den && !g.cfg.replay ? g.steps + geo(g.cfg.stall_den) : ~0ull;
  for (int i = 0; i < g.nalive; i++) arm(g.alive[i]);
}
static void *xmap(u64 a, u64 n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { static const char m[] = "rt: cannot map simulator memory\n"; raw6(SYS_write, 2, (long)m, sizeof m - 1, 0, 0, 0); die(98); }
  return p;
}
static void (*main_fn)(void *);
static void on_signal(int sig, siginfo_t *si, void *uc) {
  (void)uc;
  char b[120];
  snprintf(b, sizeof b, "process died: signal %d (%s)", sig, strsignal(sig));
  if (g.sh) report(K_CRASH, (u64)si->si_addr, sig, 0, b, strlen(b));
  die(97);
}
// std would otherwise install its own overflow handler, which inspects guard pages simulated threads lack
static void __attribute__((constructor)) early(void) {
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
}
static void *main_thread(void *arg) { main_fn(arg); if (!g.sh->kind) g.sh->done = 1; fill_stats(); die(0); }
// called in the forked child; never returns
void rt_run(const RtCfg *cfg, RtShared *sh, const TrEnt *replay, u32 nreplay, void (*fn)(void *), void *arg) {
  g.cfg = *cfg; g.sh = sh; g.replay = replay; g.nreplay = nreplay;
  xmap(HEAP_BASE, HEAP_SIZE); xmap(STK_BASE, STK_SIZE);
  xmap(SH_HEAP, HEAP_SIZE * 8); xmap(SH_STK, STK_SIZE * 8); xmap(MSTATE, HEAP_SIZE / 8);
  g.glob_lo = (u64)__data_start & ~7ull; g.glob_hi = ((u64)_end + 7) & ~7ull;
  xmap(SH_GLOB, (g.glob_hi - g.glob_lo) * 8 + 4096);
  syn = mmap(0, sizeof(Sync) * SYN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g.heap = HEAP_BASE + 4096;
  g.rng = cfg->sched_seed; g.rnd_rng = cfg->seed ^ 0x5151515151515151ull;
  g.now0 = 1700000000ull * 1000000000ull;
  g.prio_low = 999999;
  g.hash = 0xcbf29ce484222325ull; g.shash = g.hash;
  g.strat = ST_NONE; g.next_gev = ~0ull; g.stall_next = ~0ull;
  g.site = cfg->site_mod ? cfg->site % cfg->site_mod : 0;
  main_fn = fn;
  // pre-resolve
  { REAL(long, sysconf, int); (void)r_sysconf; }
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, 0);
  T *t = new_thread(main_thread, arg);
  if (start_real(t)) die(98);
  real_futex_post(&t->baton);
  for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}
