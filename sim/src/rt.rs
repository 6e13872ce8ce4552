//! Bindings to the deterministic runtime (rt.c).
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout};

pub const ST_NONE: u32 = 0;
pub const ST_RAND: u32 = 1;
pub const ST_ATOMIC: u32 = 2;
pub const ST_PCT: u32 = 3;
pub const ST_SITE: u32 = 4;

pub const K_ORACLE: i32 = 1;
pub const K_DEADLOCK: i32 = 2;
pub const K_STEPCAP: i32 = 3;
pub const K_MEM: i32 = 4;
pub const K_LIMIT: i32 = 5;
pub const K_CRASH: i32 = 6;

pub const RT_TRACE: usize = 1 << 20;
pub const RT_RACES: usize = 64;
pub const RT_STK: usize = 24;
pub const RT_COV: usize = 1 << 16;

#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct TrEnt { pub kind: u32, pub tid: u32, pub lstep: u32, pub val: u32 }

#[repr(C)]
#[derive(Clone, Copy)]
pub struct RaceEnt {
    pub pc1: u32, pub pc2: u32, pub fl1: u32, pub fl2: u32, pub t1: u32, pub t2: u32,
    pub addr: u64, pub count: u64, pub step: u64,
    pub nstack: i32, pub stack: [u32; RT_STK],
}

#[repr(C)]
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct RtCfg {
    pub seed: u64, pub sched_seed: u64, pub step_cap: u64,
    pub strategy: u32, pub p_den: u32, pub pct_d: u32, pub est_len: u32, pub site: u32, pub site_mod: u32, pub stall_den: u32, pub stall_len: u32,
    pub spurious_den: u32, pub wake_order: u32, pub eagain_at: u32, pub eagain_every: u32, pub ncpu: u32, pub cpu_flap: u32,
    pub min_align: u32, pub junk: u32, pub clock_jump: u32, pub replay: u32,
}

#[repr(C)]
pub struct LeakEnt { pub count: u32, pub rounds: u32, pub nstack: u32, pub bytes: u64, pub stack: [u32; RT_STK] }
#[repr(C)]
pub struct RtShared {
    pub done: i32, pub kind: i32, pub armed: i32, pub nstack: i32,
    pub addr: u64, pub aux: u64,
    pub steps: u64, pub hash: u64, pub shash: u64, pub nthreads: u64, pub heap_used: u64, pub sim_ns: u64,
    pub ctr: [u64; 16],
    pub user: [u64; 41],
    pub stack: [u32; RT_STK],
    pub msg: [u8; 4096],
    pub panic: [u8; 1024],
    pub nraces: u32,
    pub races: [RaceEnt; RT_RACES],
    pub nleaks: u32, pub leaks_full: u32, pub leak_rounds: u32,
    pub leaks: [LeakEnt; 16],
    pub npstack: i32, pub pstack: [u32; RT_STK],
    pub cov: [u8; RT_COV],
    pub ntrace: u32, pub trace_overflow: u32,
    pub trace: [TrEnt; RT_TRACE],
}
pub const CTR: [&str; 16] = [
    "switches", "preemptions", "thread_stalls", "spurious_wakeups", "reordered_wakeups", "refused_threads", "timer_expiries",
    "sleeps", "clock_jumps", "processor_count_changes", "futex_waits", "threads_started", "allocations", "frees", "atomic_operations", "spin_yields",
];

extern "C" {
    pub fn rt_run(cfg: *const RtCfg, sh: *mut RtShared, replay: *const TrEnt, nreplay: u32, f: extern "C" fn(*mut u8), arg: *mut u8) -> !;
    fn rt_violation(msg: *const u8, len: usize) -> !;
    fn rt_abandon(msg: *const u8, len: usize) -> !;
    fn rt_ignore(d: i32);
    fn rt_hostalloc(d: i32);
    pub fn rt_strategy(on: i32);
    pub fn rt_tune(est: u64);
    pub fn rt_steps() -> u64;
    pub fn rt_set_cap(c: u64);
    pub fn rt_tid() -> i32;
    pub fn rt_panicked();
    pub fn rt_arm_faults(on: i32);
    pub fn rt_tag(tag: u32) -> u32;
    pub fn rt_tag_mark(tag: u32) -> u32;
    pub fn rt_refused(tag: u32) -> u32;
    pub fn rt_tag_worst(tag: *mut u32) -> u32;
    pub fn rt_round(r: u32);
    pub fn rt_alive() -> u32;
    pub fn rt_survivors(from: u32, to: u32) -> u32;
    pub fn rt_tick(v: u64);
    pub fn rt_hash(v: u64);
    fn rt_alloc(n: usize, al: usize, zero: i32) -> *mut u8;
    fn rt_dealloc(p: *mut u8, n: usize, al: usize);
    fn rt_realloc(p: *mut u8, o: usize, al: usize, n: usize) -> *mut u8;
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { rt_alloc(l.size(), l.align(), 0) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { rt_alloc(l.size(), l.align(), 1) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { rt_dealloc(p, l.size(), l.align()) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { rt_realloc(p, l.size(), l.align(), n) }
}

/// Runs harness code: not scheduled, not checked, memory from the host's allocator.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G { fn drop(&mut self) { unsafe { rt_hostalloc(-1); rt_ignore(-1) } } }
    unsafe { rt_ignore(1); rt_hostalloc(1) }
    let _g = G;
    f()
}
/// Not scheduled and not checked, but memory comes from the simulated heap (so later accesses are).
pub fn sim_heap<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G { fn drop(&mut self) { unsafe { rt_ignore(-1) } } }
    unsafe { rt_ignore(1) }
    let _g = G;
    f()
}
/// The opposite of `quiet`, for calls into the library from harness code.
pub fn loud<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G { fn drop(&mut self) { unsafe { rt_ignore(1); rt_hostalloc(1) } } }
    unsafe { rt_hostalloc(-1); rt_ignore(-1) }
    let _g = G;
    f()
}
/// Ends the run with a violation. The tag says which kind of failure it is.
pub fn viol(tag: &str, msg: &str) -> ! {
    quiet(|| {
        let m = format!("{}: {}", tag, msg);
        unsafe { rt_violation(m.as_ptr(), m.len()) }
    })
}
/// Ends the run without a verdict (a simulator limit was reached).
pub fn abandon(msg: &str) -> ! { unsafe { rt_abandon(msg.as_ptr(), msg.len()) } }
