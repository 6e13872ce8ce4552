//! Which workload and which kinds of failure belong to which property.
use crate::driver::Stats;
use crate::rng::Rng;
use crate::scen::*;
use std::collections::HashSet;

pub fn generate(p: &str, seed: u64) -> Scenario {
    match p.as_bytes()[0] {
        // shared reads race as well, or not, as builds do
        b'C' if p == "C05" && Rng::new(seed ^ 0xc05).chance(2, 5) => crate::p_trace::generate(p, seed),
        b'T' | b'M' | b'R' => crate::p_trace::generate(p, seed),
        b'F' => crate::p_ffi::generate(p, seed),
        b'S' => crate::p_serde::generate(p, seed),
        b'D' => crate::p_mem::generate(p, seed),
        _ => crate::p_build::generate(p, seed),
    }
}
pub fn run(sc: &'static Scenario) {
    match sc.profile.as_bytes()[0] {
        b'T' | b'M' | b'R' => crate::p_trace::run(sc),
        b'F' => crate::p_ffi::run(sc),
        b'S' => crate::p_serde::run(sc),
        b'D' => crate::p_mem::run(sc),
        _ if !sc.trees.is_empty() => crate::p_trace::run(sc),
        _ => crate::p_build::run(sc),
    }
}
/// does a failure of this kind contradict the property?
pub fn counts(p: &str, tag: &str) -> bool {
    let (setup, t) = match tag.strip_prefix("setup-") { Some(t) => (true, t), None => (false, tag) };
    let dead = matches!(t, "deadlock" | "stepcap" | "hang");
    let broken = matches!(t, "crash" | "mem" | "panic");
    match p {
        "C01" => t == "structure" || broken || dead,
        "C02" => t == "enclosure",
        "C03" => t == "differs" || t == "structure" || broken || dead,
        "C04" => dead || t == "leak" || broken,
        "C05" => t == "race" || t == "mem" || t == "crash",
        "C06" => dead || broken || matches!(t, "fault" | "leak" | "differs" | "structure" | "race"),
        "T01" | "T02" => !setup && (t == "trace" || dead || broken),
        "M01" => !setup && (t == "convert" || dead || broken),
        "R01" => !setup && (t == "refit" || dead || broken),
        "F01" => matches!(t, "ffi" | "handle" | "race") || dead || broken,
        "F02" => matches!(t, "handle" | "race") || t == "mem" || t == "crash",
        "F03" => !setup && (t == "ffi-trace" || dead || broken),
        "D01" => t == "left" || t == "leak",
        "S01" => !setup && (t == "save" || broken || dead),
        _ => false,
    }
}
pub const USER: [&str; 41] = ["", "builds", "nodes_built", "triangle_pieces_checked", "leaves_checked", "deepest_tree", "trees_compared_with_serial_build", "builds_that_unwound", "leak_checks", "rays_traced", "candidates_handed_out", "robust_hits_checked", "traversals_abandoned", "spatial_gaps_examined", "packets_traced", "conversions", "refits", "refits_interrupted", "wide_trees_rechecked", "c_calls", "callback_panics_injected", "callback_sleeps", "saves", "faulty_stream_operations", "restores_refused", "restores_accepted", "truncations", "histories_linearised", "handle_contents_checked", "closest_hits_compared", "nested_traversals", "crowds_of_handles", "traversals_with_partial_slices", "empty_trees_saved", "rounds_of_work", "blocks_alive_after_all_rounds", "", "", "", "", ""];
pub fn rule(p: &str) -> String {
    let w = match p.as_bytes()[0] {
        b'C' if p == "C05" => "one run = either (three of five) a generated set of primitives, a plan of threads x builds (binned, clustered, spatial; plain threads, thread pools, joins; boxes given, padded or computed), or a generated set of trees that several threads trace, convert, refit and build next to each other; one schedule and one fault plan, all from the run's seed",
        b'C' => "one run = one generated set of primitives (17 shapes of scenes, 1 to 9500 primitives, rarely up to 72 000), one plan of threads x builds (binned, clustered, spatial; plain threads, thread pools, joins; boxes given, padded or computed), one schedule and one fault plan, all from the run's seed",
        b'D' => "one run = four rounds of one generated plan of work (builds, refits, conversions, traversals, saves, C calls, several of them interrupted), one schedule and one fault plan, all from the run's seed",
        _ => "one run = one generated set of trees and operations per thread, one schedule and one fault plan, all from the run's seed",
    };
    format!("{}. Non-trivial: more than one thread ran and at least one context switch happened; distinct: the hash over all context switches was not seen before.", w)
}
pub fn sequential_ok(_p: &str) -> bool { false }
pub fn distinct_units(_p: &str, _s: &Stats, d: &HashSet<u64>) -> u64 { d.len() as u64 }
pub const REAL: [&str; 4] = ["rtbvh (whole library, /repo working tree, with cfg(rtbvh_sim) only making the thread spawn threshold settable)", "rtbvh_ffi (C interface, source unchanged)", "rayon, crossbeam, parking_lot, lazy_static, glam, serde, serde_json", "Rust standard library incl. threads, mutexes, condition variables, once cells, thread locals (rebuilt with instrumentation)"];
pub const STUB: [&str; 6] = ["thread scheduler (one thread at a time, chosen by the simulator at instrumented accesses)", "futex system call (wait, wake, time-outs, spurious returns)", "thread creation and join (real pthreads behind the simulator's decision, may be refused)", "clocks and sleeps (simulated time)", "processor count (sched_getaffinity, sysconf)", "heap allocator (arena that never reuses memory, red zones), random number system call"];
pub const ASSUME: [&str; 5] = ["sequentially consistent interleavings at the granularity of instrumented memory accesses; weak memory is covered by the data race detector, which honours the declared orderings, not by executing reorderings",
    "inputs are finite coordinates, mostly up to about 1e6 in magnitude, up to 1e14 in the scenes that make very deep trees",
    "races whose innermost non-standard frame lies inside rayon, crossbeam or parking_lot are attributed to those crates and not reported",
    "seeded search, not exhaustive: a violation needs to be hit by one of the runs",
    "overflow checks and debug assertions of the library are on"];
