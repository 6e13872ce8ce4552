//! Runs scenarios in child processes, judges them, minimises and replays failures, writes the evidence.
use crate::geom::Scene;
use crate::rng::*;
use crate::rt::*;
use crate::scen::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict { Pass, Limit(String), Fail { tag: String, msg: String, where_: String }, Harness(String) }

pub fn map_shared<T>() -> *mut T {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut T
    }
}
fn cstr(b: &[u8]) -> String { let n = b.iter().position(|c| *c == 0).unwrap_or(b.len()); String::from_utf8_lossy(&b[..n]).into_owned() }

extern "C" fn child_entry(arg: *mut u8) {
    let sc: &'static Scenario = unsafe { &*(arg as *const Scenario) };
    crate::env::unpanicked(|| crate::profiles::run(sc));
}
/// One run = one process. Returns the wait status.
pub fn run_once(sc: &Scenario, sh: *mut RtShared, replay: Option<&[TrEnt]>) -> i32 {
    unsafe {
        // reset everything but the (large) trace area
        let off = std::mem::offset_of!(RtShared, trace);
        std::ptr::write_bytes(sh as *mut u8, 0, off);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let lim = libc::rlimit { rlim_cur: 90, rlim_max: 91 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let nul = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if std::env::var_os("SIM_STDERR").is_none() { libc::dup2(nul, 2); }
            crate::env::SH = sh;
            let mut cfg = sc.cfg;
            let (rp, rn) = match replay { Some(t) => { cfg.replay = 1; (t.as_ptr(), t.len() as u32) } None => (std::ptr::null(), 0) };
            rt_run(&cfg, sh, rp, rn, child_entry, sc as *const Scenario as *mut u8);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        st
    }
}

/// Runs something in a process of its own. Whatever this process initialises lazily is inherited by the
/// simulated runs it forks off, so it must not do more than a freshly started one.
pub fn elsewhere(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe(p.as_mut_ptr()) != 0 { return vec![]; }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(p[0]);
            let v = f();
            let mut o = 0;
            while o < v.len() { let n = libc::write(p[1], v[o..].as_ptr() as *const _, v.len() - o); if n <= 0 { break; } o += n as usize; }
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut v = Vec::new();
        let mut b = [0u8; 65536];
        loop { let n = libc::read(p[0], b.as_mut_ptr() as *mut _, b.len()); if n <= 0 { break; } v.extend_from_slice(&b[..n as usize]); }
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        v
    }
}
// ------------------------------------------------------------------ symbols
pub struct Sym { cache: HashMap<u32, Vec<String>> }
impl Sym {
    pub fn new() -> Self { Sym { cache: HashMap::new() } }
    pub fn load(&mut self, pcs: &[u32]) {
        let mut want: Vec<u32> = pcs.iter().copied().filter(|p| *p != 0 && !self.cache.contains_key(p)).collect();
        want.sort();
        want.dedup();
        if want.is_empty() { return; }
        let parse = |t: &str| -> Vec<Vec<String>> {
            t.split("\n\n").map(|b| b.lines().collect::<Vec<_>>().chunks(2).map(|c| format!("{} ({})", c[0], c.get(1).map(|s| s.trim_end_matches(":0")).unwrap_or("?"))).collect()).collect()
        };
        let t = elsewhere(|| {
            let exe = std::fs::read_link("/proc/self/exe").unwrap();
            let out = std::process::Command::new("llvm-symbolizer").arg(format!("--obj={}", exe.display())).args(["--inlines", "--demangle", "--functions=linkage"]).args(want.iter().map(|p| format!("0x{:x}", p - 1))).output();
            match out {
                Ok(o) if o.status.success() => o.stdout,
                _ => {
                    let mut t = Vec::new();
                    for p in &want {
                        let o = std::process::Command::new("addr2line").args(["-f", "-i", "-C", "-e"]).arg(&exe).arg(format!("0x{:x}", p - 1)).output();
                        t.extend(o.map(|o| o.stdout).unwrap_or_default());
                        t.push(b'\n');
                    }
                    t
                }
            }
        });
        for (p, f) in want.iter().zip(parse(&String::from_utf8_lossy(&t))) { self.cache.insert(*p, f); }
        for p in want { self.cache.entry(p).or_default(); }
    }
    pub fn frames(&self, pc: u32) -> Vec<String> { self.cache.get(&pc).cloned().unwrap_or_default() }
    /// innermost frame that is not the standard library's
    pub fn owner(&self, pcs: &[u32]) -> String {
        for p in pcs { for f in self.frames(*p) {
            if f.contains("/library/") || f.contains("/rustc/") { continue; }
            return f;
        } }
        String::new()
    }
    pub fn stack(&self, pcs: &[u32]) -> String {
        let mut v: Vec<String> = Vec::new();
        for p in pcs { for f in self.frames(*p) { if v.last() != Some(&f) { v.push(f); } } }
        v.truncate(14);
        v.iter().map(|s| format!("\n      {}", s)).collect()
    }
}
/// the function whose own doing a panic is: std, the crates everybody uses and the panic hook are looked through
fn raised_by(sym: &Sym, st: &[u32]) -> String {
    let through = |f: &str| ["/library/", "/rustc/", "/serde", "/rayon-", "/rayon-core-", "/crossbeam", "/parking_lot", "/glam-", "/sim/src/rt.rs", "install_hook"].iter().any(|c| f.contains(c));
    st.iter().flat_map(|p| sym.frames(*p)).find(|f| !through(f)).unwrap_or_default()
}
fn library(owner: &str) -> bool { owner.contains("/repo/") }

/// the first data race that is the library's
fn races(sh: &RtShared, sym: &mut Sym) -> Option<Verdict> {
    if sh.nraces > 0 {
        for r in &sh.races[..(sh.nraces as usize).min(RT_RACES)] {
            let stack = &r.stack[..(r.nstack.max(0) as usize).min(RT_STK)];
            let mut all = stack.to_vec();
            all.push(r.pc1);
            all.push(r.pc2);
            sym.load(&all);
            let o2 = sym.owner(&[r.pc2]);
            let o1 = sym.owner(stack);
            // accesses made by the synchronisation libraries themselves follow fences this detector does not model
            let sync = |o: &str| ["crossbeam", "rayon", "parking_lot", "lazy_static"].iter().any(|c| o.contains(&format!("/{}", c)));
            if sync(&o1) || sync(&o2) { continue; }
            if library(&o1) || library(&o2) {
                let d = |f: u32| format!("{}{}", if f & 2 != 0 { "atomic " } else { "" }, if f & 1 != 0 { "write" } else { "read" });
                return Some(Verdict::Fail { tag: "race".into(), msg: format!("data race: {} by thread {} and {} by thread {} of the same memory without synchronisation", d(r.fl1), r.t1, d(r.fl2), r.t2),
                    where_: format!("{}\n    and{}", sym.stack(stack), sym.stack(&[r.pc2])) });
            }
        }
    }
    None
}

/// memory that every round of the same work leaves behind, taken by the library or handed to it by the collections it uses
fn leaks(sh: &RtShared, sym: &mut Sym) -> Option<Verdict> {
    if sh.leaks_full != 0 { return None; }
    for l in &sh.leaks[..(sh.nleaks as usize).min(16)] {
        let st = &l.stack[..(l.nstack as usize).min(RT_STK)];
        sym.load(st);
        let through = |f: &str| ["/library/", "/rustc/", "/serde", "/rayon-1", "/glam-", "/sim/src/rt.rs", "/sim/src/main.rs"].iter().any(|c| f.contains(c));
        let owner = st.iter().flat_map(|p| sym.frames(*p)).find(|f| !through(f)).unwrap_or_default();
        if library(&owner) {
            return Some(Verdict::Fail { tag: "left".into(), msg: format!("{} blocks ({} bytes) are left behind, some of them by each of {} rounds of the same work, after everything made in them was dropped and freed", l.count, l.bytes, sh.leak_rounds), where_: sym.stack(st) });
        }
    }
    None
}
/// Reads a finished run's outcome. A failure of another property does not hide a data race seen on the way to it.
pub fn judge(sc: &Scenario, sh: &RtShared, status: i32, sym: &mut Sym) -> Verdict {
    let v = outcome(sc, sh, status, sym);
    if let Verdict::Fail { tag, .. } = &v {
        if !crate::profiles::counts(&sc.profile, tag) && crate::profiles::counts(&sc.profile, "race") { if let Some(r) = races(sh, sym) { return r; } }
    }
    v
}
fn outcome(sc: &Scenario, sh: &RtShared, status: i32, sym: &mut Sym) -> Verdict {
    let exited = libc::WIFEXITED(status);
    let code = libc::WEXITSTATUS(status);
    let setup = if sh.user[0] == 0 { "setup-" } else { "" };
    let mut fail = |tag: &str, msg: String, st: &[u32]| { sym.load(st); let s = sym.stack(st); Verdict::Fail { tag: format!("{}{}", setup, tag), msg, where_: s } };
    if exited && code != 0 { return Verdict::Harness(format!("simulator exit code {}", code)); }
    if !exited {
        let sig = libc::WTERMSIG(status);
        if sig == libc::SIGXCPU || (sig == libc::SIGKILL && sh.steps == 0 && false) { return fail("hang", "the run used 90 s of processor time without ending".into(), &[]); }
        return if sig == libc::SIGKILL { Verdict::Harness("run was killed".into()) } else { fail("crash", format!("the process died with signal {}", sig), &[]) };
    }
    let st = &sh.stack[..(sh.nstack.max(0) as usize).min(RT_STK)];
    let msg = cstr(&sh.msg);
    match sh.kind {
        K_ORACLE => { let (t, m) = msg.split_once(": ").unwrap_or(("oracle", &msg)); return if t == "panicked" {
            let ps = &sh.pstack[..(sh.npstack.max(0) as usize).min(RT_STK)];
            let own = { sym.load(ps); raised_by(sym, ps) };
            // the place a panic names is where the code at fault stands, except where that place passes it on to its caller
            let own = if m.rsplit(" at ").next().is_some_and(|l| l.starts_with('/') && library(l)) { m.rsplit(" at ").next().unwrap().to_string() } else { own };
            if library(&own) { Verdict::Fail { tag: format!("{}panic", setup), msg: format!("the library panicked: {}", m), where_: ps.iter().flat_map(|p| sym.frames(*p)).filter(|f| !f.contains("/library/") && !f.contains("install_hook")).take(14).map(|f| format!("\n      {}", f)).collect() } } else { Verdict::Harness(format!("harness thread panicked: {} (in {})", m, own)) }
        } else if t == "harness" { Verdict::Harness(m.into()) } else if t == "setup" { Verdict::Fail { tag: "setup-panic".into(), msg: m.into(), where_: String::new() } } else { Verdict::Fail { tag: t.into(), msg: m.into(), where_: String::new() } }; }
        K_DEADLOCK => return fail("deadlock", msg, st),
        K_STEPCAP => return fail("stepcap", msg, st),
        K_MEM => return fail("mem", format!("{} (address {:#x})", msg, sh.addr), st),
        K_CRASH => return fail("crash", format!("{}; last panic: {}", msg, cstr(&sh.panic)), st),
        K_LIMIT => return Verdict::Limit(msg),
        _ => {}
    }
    if sh.done == 0 { return fail("crash", "the process ended by itself in the middle of the run".into(), &[]); }
    let _ = sc;
    if let Some(r) = races(sh, sym) { return r; }
    leaks(sh, sym).unwrap_or(Verdict::Pass)
}

// ------------------------------------------------------------------ statistics
#[derive(Clone, Default, Serialize, Deserialize)]
pub struct Stats {
    pub runs: u64, pub limits: u64, pub steps: u64, pub sim_ns: u64, pub max_threads: u64, pub trace_entries: u64,
    pub ctr: Vec<u64>, pub user: Vec<u64>,
    pub hashes: Vec<u64>, pub sync_hashes: Vec<u64>,
    pub cov: Vec<u8>,
    pub strategies: BTreeMap<String, u64>, pub faults: BTreeMap<String, u64>,
    pub other: BTreeMap<String, (u64, String)>,
    pub multi: u64, pub slowest: (f64, u64), pub limit_msg: String, pub max_depth: u64,
    pub samples: Vec<serde_json::Value>,
    pub fail: Option<(u64, String, String)>,
    pub harness: Option<String>,
}
impl Stats {
    fn add(&mut self, sc: &Scenario, sh: &RtShared) {
        self.runs += 1;
        self.steps += sh.steps;
        self.sim_ns += sh.sim_ns;
        self.max_threads = self.max_threads.max(sh.nthreads);
        self.trace_entries += sh.ntrace as u64;
        self.ctr.resize(16, 0);
        self.user.resize(41, 0);
        for i in 0..16 { self.ctr[i] += sh.ctr[i]; }
        for i in 1..41 { if i == 5 { self.user[5] = self.user[5].max(sh.user[5]) } else { self.user[i] += sh.user[i] } }
        self.cov.resize(RT_COV, 0);
        for (a, b) in self.cov.iter_mut().zip(&sh.cov) { *a |= *b; }
        if sh.ctr[1] + sh.ctr[0] > 0 && sh.nthreads > 1 { self.multi += 1; self.hashes.push(sh.hash); self.sync_hashes.push(sh.shash); }
        *self.strategies.entry(["none", "random walk", "atomic-biased", "priority (PCT)", "site stall"][sc.cfg.strategy as usize].into()).or_default() += 1;
        for k in fault_kinds(&sc.cfg) { *self.faults.entry(k.into()).or_default() += 1; }
    }
    fn merge(&mut self, o: Stats) {
        self.runs += o.runs; self.limits += o.limits; self.steps += o.steps; self.sim_ns += o.sim_ns; self.trace_entries += o.trace_entries; self.multi += o.multi;
        self.max_threads = self.max_threads.max(o.max_threads);
        if o.slowest.0 > self.slowest.0 { self.slowest = o.slowest; }
        if !o.limit_msg.is_empty() { self.limit_msg = o.limit_msg; }
        for (a, b) in [(&mut self.ctr, &o.ctr)] { a.resize(16, 0); for i in 0..b.len() { a[i] += b[i]; } }
        self.user.resize(41, 0);
        for i in 0..o.user.len() { if i == 5 { self.user[5] = self.user[5].max(o.user[5]) } else { self.user[i] += o.user[i] } }
        self.hashes.extend(o.hashes);
        self.sync_hashes.extend(o.sync_hashes);
        self.cov.resize(RT_COV, 0);
        for i in 0..o.cov.len() { self.cov[i] |= o.cov[i]; }
        for (k, v) in o.strategies { *self.strategies.entry(k).or_default() += v; }
        for (k, v) in o.faults { *self.faults.entry(k).or_default() += v; }
        for (k, v) in o.other { let e = self.other.entry(k).or_insert((0, v.1.clone())); e.0 += v.0; }
        self.samples.extend(o.samples);
    }
}

pub fn scenario(profile: &str, seed: u64, index: u64) -> Scenario {
    let mut h = 0u64;
    for b in profile.bytes() { h = mix(h ^ b as u64); }
    let s = mix(mix(seed) ^ mix(index.wrapping_mul(0x9e37)) ^ h);
    let mut sc = crate::profiles::generate(profile, s);
    sc.profile = profile.into();
    sc.index = index;
    sc.seed = s;
    sc
}
pub fn summary(sc: &Scenario, sh: &RtShared) -> serde_json::Value {
    serde_json::json!({
        "run": sc.index, "seed": format!("{:#x}", sc.seed), "threads": sc.threads.len(), "operations": sc.threads.iter().flatten().take(6).map(|o| format!("{:?}", o)).collect::<Vec<_>>(),
        "primitives": sc.scenes.iter().map(|s| s.n()).collect::<Vec<_>>(), "pools": sc.pools, "spawn_threshold": sc.threshold, "schedule": format!("{:?}", sc.cfg),
        "callback_faults": sc.faults, "steps": sh.steps, "switches": sh.ctr[0], "threads_run": sh.nthreads, "hash": format!("{:#x}", sh.hash),
    })
}

#[repr(C)]
struct Ctrl { stop: u64, best: u64 }

pub struct Opts { pub profile: String, pub seed: u64, pub tier: String, pub budget: f64, pub max_runs: u64, pub workers: usize, pub out: String, pub replay_dir: String }

fn pin(w: usize) { unsafe { let mut s: libc::cpu_set_t = std::mem::zeroed(); let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize; let o = std::env::var("SIM_PIN").ok().and_then(|s| s.parse::<usize>().ok()).unwrap_or(0); libc::CPU_SET((w + o) % n, &mut s); libc::sched_setaffinity(0, std::mem::size_of_val(&s), &s); } }

fn worker(w: usize, o: &Opts, ctl: *mut Ctrl, dir: &str) -> ! {
    pin(w);
    let sh: *mut RtShared = map_shared();
    let mut st = Stats::default();
    let mut sym = Sym::new();
    let t0 = Instant::now();
    let mut i = w as u64;
    while t0.elapsed().as_secs_f64() < o.budget && i < o.max_runs {
        if unsafe { std::ptr::read_volatile(&(*ctl).stop) } != 0 && i > unsafe { std::ptr::read_volatile(&(*ctl).best) } { break; }
        let sc = scenario(&o.profile, o.seed, i);
        let ti = Instant::now();
        let status = run_once(&sc, sh, None);
        let took = ti.elapsed().as_secs_f64();
        if took > st.slowest.0 { st.slowest = (took, i); }
        let shr = unsafe { &*sh };
        let v = judge(&sc, shr, status, &mut sym);
        st.add(&sc, shr);
        if (i / o.workers as u64) % 97 == 1 && st.samples.len() < 2 { st.samples.push(summary(&sc, shr)); }
        match v {
            Verdict::Pass => {}
            Verdict::Limit(m) => { st.limits += 1; st.limit_msg = m; }
            Verdict::Harness(m) => { st.harness = Some(format!("run {}: {}", i, m)); break; }
            Verdict::Fail { tag, msg, .. } => {
                if crate::profiles::counts(&o.profile, &tag) {
                    st.fail = Some((i, tag, msg));
                    unsafe { std::ptr::write_volatile(&mut (*ctl).stop, 1); let b = &mut (*ctl).best; if i < std::ptr::read_volatile(b) { std::ptr::write_volatile(b, i); } }
                    break;
                }
                let e = st.other.entry(tag).or_insert((0, format!("run {}: {}", i, msg)));
                e.0 += 1;
            }
        }
        i += o.workers as u64;
    }
    std::fs::write(format!("{}/w{}.json", dir, w), serde_json::to_vec(&st).unwrap()).unwrap();
    unsafe { libc::_exit(0) }
}

#[derive(Serialize, Deserialize)]
pub struct Replay { pub property: String, pub violation: String, pub tag: String, pub message: String, pub location: String, pub mode: String, pub hash: String, pub steps: u64, pub verif_seed: u64, pub run: u64, pub minimised: String, pub scenario: Scenario, pub trace: Vec<[u32; 4]> }

fn same(v: &Verdict, tag: &str) -> bool { matches!(v, Verdict::Fail { tag: t, .. } if t == tag) }

/// Structural shrinks of a scenario, most drastic first.
fn shrinks(sc: &Scenario) -> Vec<Scenario> {
    let mut out = Vec::new();
    for i in 0..sc.threads.len() { if sc.threads.len() > 1 { let mut s = sc.clone(); s.threads.remove(i); out.push(s); } }
    for i in 0..sc.threads.len() { for j in 0..sc.threads[i].len() { if sc.threads[i].len() > 1 { let mut s = sc.clone(); s.threads[i].remove(j); out.push(s); } } }
    for i in 0..sc.threads.len() { for j in 0..sc.threads[i].len() {
        let mut rep = |o: Op| { let mut s = sc.clone(); s.threads[i][j] = o; out.push(s); };
        match &sc.threads[i][j] {
            Op::Join(a, b, c) => { rep(Op::Build(Spec { ctx: *c, ..*a })); rep(Op::Build(Spec { ctx: *c, ..*b })); }
            Op::Build(a) if a.ctx >= 0 => rep(Op::Build(Spec { ctx: -1, ..*a })),
            Op::Trace { tree, how, policy, seed, rays, ctx } if *rays > 1 || *ctx >= 0 => { rep(Op::Trace { tree: *tree, how: *how, policy: *policy, seed: *seed, rays: (*rays / 2).max(1), ctx: -1 }); }
            Op::Packet { tree, how, policy, seed, rays, ctx } if *rays > 1 || *ctx >= 0 => { rep(Op::Packet { tree: *tree, how: *how, policy: *policy, seed: *seed, rays: (*rays / 2).max(1), ctx: -1 }); }
            _ => {}
        }
    } }
    for i in 0..sc.faults.len() { let mut s = sc.clone(); s.faults.remove(i); out.push(s); }
    // a scene nothing refers to any more costs only space
    let used: HashSet<usize> = crate::p_build::specs(sc).iter().map(|s| s.scene).collect();
    if sc.profile.starts_with('C') { for i in 0..sc.scenes.len() { if !used.contains(&i) && sc.scenes[i].n() > 1 { let mut s = sc.clone(); s.scenes[i].p.truncate(1); s.scenes[i].times = 0; out.push(s); } } }
    for i in 0..sc.scenes.len() {
        if sc.scenes[i].times > 1 { for t in [1, sc.scenes[i].times / 2] { let mut s = sc.clone(); s.scenes[i].times = t; out.push(s); } }
        let n = sc.scenes[i].p.len();
        if n <= 1 { continue; }
        let mut part = |a: usize, b: usize| { let mut s = sc.clone(); let p: Vec<[f32; 9]> = sc.scenes[i].p[..a].iter().chain(&sc.scenes[i].p[b..]).copied().collect(); if !p.is_empty() { s.scenes[i].p = p; out.push(s); } };
        let mut k = n / 2;
        let mut cuts = 0;
        while k >= 1 && cuts < 24 { let mut a = 0; while a < n && cuts < 24 { part(a, (a + k).min(n)); a += k; cuts += 1; } k /= 2; }
    }
    let z = |f: &dyn Fn(&mut RtCfg)| { let mut s = sc.clone(); f(&mut s.cfg); s };
    for s in [z(&|c| c.stall_den = 0), z(&|c| c.spurious_den = 0), z(&|c| c.wake_order = 0), z(&|c| c.cpu_flap = 0), z(&|c| c.min_align = 0), z(&|c| c.junk = 0), z(&|c| c.clock_jump = 0), z(&|c| c.eagain_every = 0), z(&|c| { c.eagain_at = 0; c.eagain_every = 0 })] { if s.cfg != sc.cfg { out.push(s); } }
    out
}

pub fn minimise(sc0: &Scenario, tag: &str, o: &Opts, sym: &mut Sym, secs: f64) -> (Scenario, Option<Vec<TrEnt>>, String) {
    let sh: *mut RtShared = map_shared();
    let shr = unsafe { &*sh };
    let t0 = Instant::now();
    let mut best = sc0.clone();
    let mut tried = 0u64;
    let mut accepted = 0u64;
    // 1. scenario
    'outer: loop {
        for cand in shrinks(&best) {
            if t0.elapsed().as_secs_f64() > secs * 0.6 { break 'outer; }
            let retries = if cand.cfg.strategy == ST_NONE { 1 } else { 4 };
            for k in 0..retries {
                let mut c = cand.clone();
                if k > 0 { c.cfg.sched_seed = mix(best.cfg.sched_seed ^ (tried + 1)); }
                tried += 1;
                let st = run_once(&c, sh, None);
                if same(&judge(&c, shr, st, sym), tag) { best = c; accepted += 1; continue 'outer; }
                if t0.elapsed().as_secs_f64() > secs * 0.6 { break 'outer; }
            }
        }
        break;
    }
    // 2. schedule: record, then remove decisions
    let st = run_once(&best, sh, None);
    if !same(&judge(&best, shr, st, sym), tag) { return (best, None, "the failing run could not be recorded".into()); }
    let note = |n0: usize, n1: usize, tried: u64, accepted: u64| format!("{} shrinking runs, {} accepted; {} of {} recorded scheduling decisions kept", tried, accepted, n1, n0);
    if shr.trace_overflow != 0 { return (best, None, format!("{} shrinking runs, {} accepted; schedule too long to record, replayed from its seed", tried, accepted)); }
    let mut tr: Vec<TrEnt> = shr.trace[..shr.ntrace as usize].to_vec();
    tr.sort_by_key(|e| (e.tid, e.lstep));
    let n0 = tr.len();
    let st = run_once(&best, sh, Some(&tr));
    if !same(&judge(&best, shr, st, sym), tag) { return (best, None, format!("{} shrinking runs, {} accepted; recorded schedule did not reproduce, replayed from its seed", tried, accepted)); }
    let mut k = (tr.len() / 2).max(1);
    while k >= 1 && !tr.is_empty() {
        let mut a = 0;
        let mut any = false;
        while a < tr.len() {
            if t0.elapsed().as_secs_f64() > secs { let n1 = tr.len(); return (best, Some(tr), note(n0, n1, tried, accepted)); }
            let b = (a + k).min(tr.len());
            let cand: Vec<TrEnt> = tr[..a].iter().chain(&tr[b..]).copied().collect();
            tried += 1;
            let st = run_once(&best, sh, Some(&cand));
            if same(&judge(&best, shr, st, sym), tag) { tr = cand; accepted += 1; any = true; } else { a = b; }
        }
        if k == 1 && !any { break; }
        k = if k == 1 { 1 } else { k / 2 };
    }
    let _ = o;
    let n1 = tr.len();
    (best, Some(tr), note(n0, n1, tried, accepted))
}

pub fn replay_file(path: &str) -> i32 {
    let t = match std::fs::read(path) { Ok(t) => t, Err(e) => { eprintln!("cannot read {}: {}", path, e); return 2; } };
    let r: Replay = match serde_json::from_slice(&t) { Ok(r) => r, Err(e) => { eprintln!("{}: {}", path, e); return 2; } };
    let sh: *mut RtShared = map_shared();
    let mut sym = Sym::new();
    let tr: Vec<TrEnt> = r.trace.iter().map(|e| TrEnt { kind: e[0], tid: e[1], lstep: e[2], val: e[3] }).collect();
    let st = run_once(&r.scenario, sh, if r.mode == "trace" { Some(&tr) } else { None });
    let shr = unsafe { &*sh };
    match judge(&r.scenario, shr, st, &mut sym) {
        Verdict::Fail { tag, msg, where_ } => {
            println!("{}: {}{}", tag, msg, where_);
            println!("hash {:#x} steps {} (recorded: {} {})", shr.hash, shr.steps, r.hash, r.steps);
            if tag == r.tag { println!("VIOLATION property={} replay={}", r.property, path); 1 } else { println!("a different failure than the recorded one ({})", r.tag); 3 }
        }
        Verdict::Pass => { println!("no violation (hash {:#x}, recorded {})", shr.hash, r.hash); 0 }
        v => { println!("{:?}", v); 2 }
    }
}

pub fn explore(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let dir = format!("{}/tmp-{}-{}", std::env::temp_dir().display(), o.profile, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let ctl: *mut Ctrl = map_shared();
    unsafe { (*ctl).best = u64::MAX; }
    let mut pids = Vec::new();
    for w in 0..o.workers {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 { unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); } worker(w, o, ctl, &dir); }
        pids.push(pid);
    }
    let mut bad = None;
    for (w, p) in pids.iter().enumerate() {
        let mut st = 0;
        while unsafe { libc::waitpid(*p, &mut st, 0) } < 0 {}
        if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 { bad = Some(format!("worker {} ended with status {:#x}", w, st)); }
    }
    let mut all = Stats::default();
    let mut fail: Option<(u64, String, String)> = None;
    for w in 0..o.workers {
        let f = format!("{}/w{}.json", dir, w);
        match std::fs::read(&f).ok().and_then(|t| serde_json::from_slice::<Stats>(&t).ok()) {
            Some(s) => {
                if let Some(h) = &s.harness { bad = Some(h.clone()); }
                if let Some(x) = &s.fail { if fail.as_ref().map(|y| x.0 < y.0).unwrap_or(true) { fail = Some(x.clone()); } }
                all.merge(s);
            }
            None => bad = Some(format!("worker {} left no statistics", w)),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let explore_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violation = serde_json::Value::Null;
    if let Some((i, tag, msg)) = &fail {
        let mut sym = Sym::new();
        let sc = scenario(&o.profile, o.seed, *i);
        println!("run {} (VERIF_SEED {}) violates {}: {}: {}", i, o.seed, o.profile, tag, msg);
        let (m, tr, how) = minimise(&sc, tag, o, &mut sym, match o.tier.as_str() { "quick" => 60.0, "fast" => 1.0, _ => 240.0 });
        let sh: *mut RtShared = map_shared();
        let st = run_once(&m, sh, tr.as_deref());
        let shr = unsafe { &*sh };
        let (msg2, where_) = match judge(&m, shr, st, &mut sym) { Verdict::Fail { msg, where_, .. } => (msg, where_), v => (format!("{:?}", v), String::new()) };
        let r = Replay {
            property: o.profile.clone(), violation: format!("{}: {}", tag, msg), tag: tag.clone(), message: msg2.clone(), location: where_.clone(),
            mode: if tr.is_some() { "trace" } else { "seed" }.into(), hash: format!("{:#x}", shr.hash), steps: shr.steps, verif_seed: o.seed, run: *i, minimised: how.clone(),
            scenario: m, trace: tr.unwrap_or_default().iter().map(|e| [e.kind, e.tid, e.lstep, e.val]).collect(),
        };
        std::fs::create_dir_all(&o.replay_dir).unwrap();
        let path = format!("{}/{}-{}-{}.json", o.replay_dir, o.profile, o.seed, i);
        std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
        // reproduce in a fresh process
        let exe = std::env::current_exe().unwrap();
        let again = std::process::Command::new(exe).args(["--replay", &path]).output();
        let ok = again.as_ref().map(|a| a.status.code() == Some(1)).unwrap_or(false);
        println!("minimised: {}\n  {}: {}{}\n  replay in a fresh process: {}", how, tag, msg2, where_, if ok { "reproduced" } else { "NOT reproduced" });
        violation = serde_json::json!({ "tag": tag, "message": msg2, "run": i, "replay": path, "minimised": how, "replayed_in_fresh_process": ok });
        println!("VIOLATION property={} replay={}", o.profile, path);
        code = 1;
    } else if let Some(b) = &bad { println!("the check itself failed: {}", b); code = 2; }
    write_evidence(o, &all, explore_s, t0.elapsed().as_secs_f64(), code, violation);
    code
}

fn write_evidence(o: &Opts, s: &Stats, explore_s: f64, wall: f64, code: i32, violation: serde_json::Value) {
    let d: HashSet<u64> = s.hashes.iter().copied().collect();
    let ds: HashSet<u64> = s.sync_hashes.iter().copied().collect();
    let cov: u64 = s.cov.iter().map(|b| b.count_ones() as u64).sum();
    let per_h = |x: u64| (x as f64 / explore_s.max(0.001) * 3600.0) as u64;
    let mut fired = serde_json::Map::new();
    for (i, n) in CTR.iter().enumerate() { fired.insert(n.to_string(), s.ctr.get(i).copied().unwrap_or(0).into()); }
    let mut user = serde_json::Map::new();
    for (i, n) in crate::profiles::USER.iter().enumerate() { if !n.is_empty() { let v = s.user.get(i).copied().unwrap_or(0); if v > 0 { user.insert(n.to_string(), v.into()); } } }
    let nontrivial = if crate::profiles::sequential_ok(&o.profile) { crate::profiles::distinct_units(&o.profile, s, &d) } else { d.len() as u64 };
    let v = serde_json::json!({
        "property": o.profile, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": nontrivial,
            "rule": crate::profiles::rule(&o.profile),
            "samples": s.samples.iter().take(4).collect::<Vec<_>>(),
            "runs_per_hour": per_h(s.runs), "seeds_per_hour": per_h(s.runs), "exploration_wall_s": explore_s, "workers": o.workers,
            "simulated_seconds": s.sim_ns as f64 / 1e9, "instrumented_steps": s.steps, "recorded_scheduling_decisions": s.trace_entries,
            "runs_with_more_than_one_thread_and_a_switch": s.multi,
            "distinct_interleavings": d.len(), "distinct_orders_of_synchronisation": ds.len(),
            "distinct_switch_sites": cov,
            "interleaving_measure": "hash over every context switch (from, to, local step); orders of synchronisation: hash over the global order of atomic writes; switch sites: pairs of (code position left, code position entered)",
            "max_threads_in_one_run": s.max_threads,
            "events": fired, "fault_kinds_enabled_in_runs": s.faults, "strategies": s.strategies, "checked": user,
            "runs_ended_by_simulator_limits": s.limits, "limit": s.limit_msg,
            "failures_of_other_properties_seen": s.other.iter().map(|(k, v)| serde_json::json!({"kind": k, "runs": v.0, "first": v.1})).collect::<Vec<_>>(),
            "real_components": crate::profiles::REAL, "stub_components": crate::profiles::STUB,
            "violation": violation,
        },
        "assumptions": crate::profiles::ASSUME,
        "wall_s": wall, "violations": if code == 1 { 1 } else { 0 },
    });
    if let Some(p) = std::path::Path::new(&o.out).parent() { let _ = std::fs::create_dir_all(p); }
    std::fs::write(&o.out, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
    println!("{}: {} runs in {:.1} s, {} distinct interleavings, {} switch sites, {} limits, slowest run {:?}, other failures: {:?}", o.profile, s.runs, explore_s, d.len(), cov, s.limits, s.slowest, s.other.iter().map(|(k, v)| format!("{} x{} {}", k, v.0, v.1)).collect::<Vec<_>>());
}
