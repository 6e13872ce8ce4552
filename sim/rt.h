#pragma once
#include <stdint.h>
#include <stddef.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
enum { ST_NONE = 0, ST_RAND = 1, ST_ATOMIC = 2, ST_PCT = 3, ST_SITE = 4 };
enum { K_READ = 0, K_WRITE = 1, K_ATOMIC = 2 };
enum { K_ORACLE = 1, K_DEADLOCK = 2, K_STEPCAP = 3, K_MEM = 4, K_LIMIT = 5, K_CRASH = 6 };
#define RT_TRACE (1u << 20)
#define RT_RACES 64
#define RT_STK 24
#define RT_COV (1u << 16)
typedef struct { u32 kind, tid, lstep, val; } TrEnt;
typedef struct { u32 pc1, pc2, fl1, fl2, t1, t2; u64 addr, count, step; int nstack; u32 stack[RT_STK]; } RaceEnt;
typedef struct {
  u64 seed, sched_seed, step_cap;
  u32 strategy, p_den, pct_d, est_len, site, site_mod, stall_den, stall_len;
  u32 spurious_den, wake_order, eagain_at, eagain_every, ncpu, cpu_flap, min_align, junk, clock_jump, replay;
} RtCfg;
typedef struct { u32 count, rounds, nstack; u64 bytes; u32 stack[RT_STK]; } LeakEnt;
#define RT_LEAKS 16
typedef struct {
  int done, kind, armed, nstack;
  u64 addr, aux;
  u64 steps, hash, shash, nthreads, heap_used, sim_ns;
  u64 switches, preempts, stalls, spurious, reorders, eagains, timeouts, sleeps, clock_jumps, cpu_changes, futex_waits, threads, allocs, frees, atomics, spins;
  u64 user[41];
  u32 stack[RT_STK];
  char msg[4096];
  char panic[1024];
  u32 nraces; RaceEnt races[RT_RACES];
  u32 nleaks, leaks_full, leak_rounds; LeakEnt leaks[RT_LEAKS];
  int npstack; u32 pstack[RT_STK]; // where the last panic that the simulator did not inject was raised
  u8 cov[RT_COV];
  u32 ntrace, trace_overflow;
  TrEnt trace[RT_TRACE];
} RtShared;
