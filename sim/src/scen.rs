//! What one simulated run consists of. A scenario plus a schedule (seed or recorded trace) is a replay file.
use crate::geom::*;
use crate::rng::*;
use crate::rt::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Spec {
    pub scene: usize,
    /// 0 binned, 1 locally ordered clustering, 2 spatial
    pub algo: u8,
    /// primitives per leaf, 0 = not given
    pub leaf: usize,
    /// 0 computed by the library, 1 exact boxes given, 2 padded boxes given
    pub boxes: u8,
    /// -1 plain thread, otherwise inside this thread pool
    pub ctx: i32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Build(Spec),
    /// two builds as the two sides of one rayon::join
    Join(Spec, Spec, i32),
    /// rays through tree `tree`; `how`: iterator kind; `policy`: what the caller does to the distance
    Trace { tree: usize, how: u8, policy: u8, seed: u64, rays: usize, ctx: i32 },
    Packet { tree: usize, how: u8, policy: u8, seed: u64, rays: usize, ctx: i32 },
    Convert { tree: usize, raw: u8, ctx: i32 },
    /// refit to boxes made from `seed`; `cut` > 0: the box array ends early, so that the refit panics part way
    Refit { tree: usize, seed: u64, cut: usize },
    Ffi { what: u8, a: usize, b: usize, seed: u64 },
    Save { tree: usize, format: u8, wide: bool, seed: u64 },
    Sleep { us: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct CbFault { pub set: usize, pub panic_at: u64, pub again: u64, pub slow_every: u64, pub slow_ns: u64 }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Scenario {
    pub profile: String,
    pub index: u64,
    pub seed: u64,
    pub cfg: RtCfg,
    /// size of a sub task above which builders start a thread
    pub threshold: usize,
    pub pools: Vec<usize>,
    pub scenes: Vec<Scene>,
    pub trees: Vec<Spec>,
    pub threads: Vec<Vec<Op>>,
    pub faults: Vec<CbFault>,
    pub note: String,
}

pub fn gen_cfg(r: &mut Rng, threads_refused: bool) -> RtCfg {
    let mut c = RtCfg { seed: r.next(), sched_seed: r.next(), step_cap: 2_000_000_000, est_len: 100_000, ncpu: r.pick(&[1u32, 2, 2, 3, 4, 4, 6, 8, 16]), ..Default::default() };
    match r.below(100) {
        0..=44 => { c.strategy = ST_RAND; c.p_den = r.log(3, 4000) as u32; }
        45..=64 => { c.strategy = ST_ATOMIC; c.p_den = r.log(1, 32) as u32; }
        65..=84 => { c.strategy = ST_PCT; c.pct_d = r.pick(&[1u32, 2, 2, 3, 3, 4, 5, 8, 20]); }
        _ => { c.strategy = ST_SITE; c.site = r.next() as u32 & 0xffff; c.site_mod = r.pick(&[64u32, 256, 1024]); c.p_den = r.pick(&[1u32, 1, 2, 8]); c.stall_len = r.log(100, 40_000) as u32; }
    }
    if r.chance(1, 3) { c.stall_den = r.log(500, 50_000) as u32; c.stall_len = r.log(100, 100_000) as u32; }
    if r.chance(1, 3) { c.spurious_den = r.pick(&[2u32, 4, 16]); }
    if r.chance(1, 3) { c.wake_order = 1; }
    if r.chance(1, 4) { c.cpu_flap = 1; }
    if r.chance(1, 3) { c.min_align = 1; }
    if r.chance(1, 2) { c.junk = r.pick(&[0xa5u32, 0xff, 0x7f, 0x01]); }
    if r.chance(1, 4) { c.clock_jump = r.pick(&[1u32, 3, 20]); }
    if threads_refused { c.eagain_at = 1 + r.small(0, 12) as u32; c.eagain_every = r.pick(&[0u32, 0, 1, 2, 5]); }
    c
}
/// which fault kinds a configuration enables (counted in the evidence)
pub fn fault_kinds(c: &RtCfg) -> Vec<&'static str> {
    let mut v = Vec::new();
    if c.stall_den != 0 || c.strategy == ST_SITE { v.push("stalled threads") }
    if c.spurious_den != 0 { v.push("spurious wake-ups") }
    if c.wake_order != 0 { v.push("reordered wake-ups") }
    if c.cpu_flap != 0 { v.push("processor count changes") }
    if c.min_align != 0 { v.push("minimally aligned memory") }
    if c.junk != 0 { v.push("dirty memory") }
    if c.clock_jump != 0 { v.push("clock jumps") }
    if c.eagain_at != 0 { v.push("refused threads") }
    v
}
