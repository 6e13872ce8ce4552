#![allow(static_mut_refs, clippy::all)]
mod driver;
mod env;
mod geom;
mod oracle;
mod p_build;
mod bin_format;
mod p_ffi;
mod p_mem;
mod p_serde;
mod p_trace;
mod profiles;
mod rng;
mod rt;
mod scen;
mod tree;

extern crate rtbvh_ffi as _;

#[global_allocator]
static A: rt::SimAlloc = rt::SimAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // addresses must not differ between processes
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_NOASLR").is_none() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new(std::env::current_exe().unwrap()).args(&a[1..]).env("SIM_NOASLR", "1").exec();
                eprintln!("exec: {}", e);
            }
        }
    }
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if let Some(f) = get("--replay") { std::process::exit(driver::replay_file(&f)); }
    let profile = get("--profile").expect("--profile");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let workers: usize = get("--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    if let Some(n) = get("--large") {
        // which of the first N runs have very large scenes
        for i in 0..n.parse().unwrap() { let sc = driver::scenario(&profile, seed, i); let m = sc.scenes.iter().map(|s| s.n()).max().unwrap_or(0); if m > a.iter().position(|x| x == "--over").and_then(|i| a.get(i + 1)).and_then(|s| s.parse().ok()).unwrap_or(20_000) { println!("{} {}", i, m); } }
        return;
    }
    if let Some(i) = get("--one") {
        let i: u64 = i.parse().unwrap();
        let sc = driver::scenario(&profile, seed, i);
        if a.iter().any(|x| x == "--dump") { println!("{}", serde_json::to_string_pretty(&sc).unwrap()); }
        let sh: *mut rt::RtShared = driver::map_shared();
        let mut sym = driver::Sym::new();
        let t = std::time::Instant::now();
        let st = driver::run_once(&sc, sh, None);
        let el = t.elapsed();
        let s = unsafe { &*sh };
        println!("{}", serde_json::to_string_pretty(&driver::summary(&sc, s)).unwrap());
        println!("{:?}", driver::judge(&sc, s, st, &mut sym));
        println!("{:?} steps {} hash {:#x} ntrace {} ctr {:?} user {:?} nraces {}", el, s.steps, s.hash, s.ntrace, s.ctr, s.user, s.nraces);
        // replaying the recorded schedule must give the very same run
        if s.trace_overflow == 0 {
            let mut tr = s.trace[..s.ntrace as usize].to_vec();
            tr.sort_by_key(|e| (e.tid, e.lstep));
            let h = s.hash;
            let tr0 = s.trace[..s.ntrace as usize].to_vec();
            let steps0 = s.steps;
            let st = driver::run_once(&sc, sh, Some(&tr));
            if s.hash != h {
                let m = (s.ntrace as usize).min(tr0.len());
                let at = (0..m).find(|&i| { let (a, b) = (&tr0[i], &s.trace[i]); (a.kind, a.tid, a.lstep, a.val) != (b.kind, b.tid, b.lstep, b.val) }).unwrap_or(m);
                println!("steps {} / {}, trace {} / {}; first difference at entry {}", steps0, s.steps, tr0.len(), s.ntrace, at);
                for i in at.saturating_sub(2)..(at + 3).min(m) { let (a, b) = (&tr0[i], &s.trace[i]); println!("{:?} / {:?}", (a.kind as u8 as char, a.tid, a.lstep, a.val), (b.kind as u8 as char, b.tid, b.lstep, b.val)); }
            }
            println!("trace replay: {} {:?}", if s.hash == h { "identical" } else { "DIFFERENT" }, driver::judge(&sc, s, st, &mut sym));
        }
        return;
    }
    if get("--hashes").is_some() {
        // determinism self-check: print the hash of each of the first N runs
        let n: u64 = get("--hashes").unwrap().parse().unwrap();
        let sh: *mut rt::RtShared = driver::map_shared();
        for i in 0..n { let sc = driver::scenario(&profile, seed, i); let st = driver::run_once(&sc, sh, None); let s = unsafe { &*sh }; println!("{} {:#x} {} {} {}", i, s.hash, s.steps, st, s.kind); }
        return;
    }
    let o = driver::Opts {
        profile: profile.clone(), seed, tier: get("--tier").unwrap_or("quick".into()),
        budget: get("--budget").and_then(|s| s.parse().ok()).unwrap_or(30.0),
        max_runs: get("--runs").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX),
        workers, out: get("--out").unwrap_or(format!("/verif/evidence/{}.json", profile)),
        replay_dir: get("--replays").unwrap_or("/verif/replays".into()),
    };
    std::process::exit(driver::explore(&o));
}
