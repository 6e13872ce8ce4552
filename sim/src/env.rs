//! State shared by the simulated threads of one run, and the calls into the library.
use crate::geom::*;
use crate::rt::*;
use crate::scen::*;
use crate::tree::*;
use rtbvh::*;
use std::collections::HashMap;
use std::num::NonZeroUsize;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Set { pub tris: &'static [Tri], pub balls: &'static [Ball], pub exact: &'static [Aabb], pub padded: &'static [Aabb] }
pub struct RefTree { pub canon: Vec<u32>, pub steps: u64 }
pub struct Env {
    pub sc: &'static Scenario,
    pub sets: Vec<Set>,
    pub pools: Vec<rayon::ThreadPool>,
    pub refs: HashMap<Spec, RefTree>,
}
pub static mut SH: *mut RtShared = std::ptr::null_mut();
/// counters in shared memory: see USER in stats.rs
pub fn count(i: usize, n: u64) { unsafe { (*SH).user[i] += n } }
pub fn phase(p: u64) { unsafe { (*SH).user[0] = p } }

thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) } }
/// panics are silent; what they say is kept for the report
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        quiet(|| {
            let p = i.payload();
            let m = if p.is::<Injected>() { "injected".to_string() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() };
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let m = format!("{} at {}", m, l);
            if !p.is::<Injected>() { unsafe { rt_panicked() } }
            unsafe { let b = m.as_bytes(); let n = b.len().min(1000); let sh = &mut *SH; sh.panic[..n].copy_from_slice(&b[..n]); sh.panic[n] = 0; }
            let _ = LAST.try_with(|x| *x.borrow_mut() = m);
        })
    }));
}
pub fn last_panic() -> String { quiet(|| LAST.try_with(|x| x.borrow().clone()).unwrap_or_default()) }
/// any panic seen in this run, also in threads the library started
pub fn any_panic() -> String { quiet(|| unsafe { let p = &(*SH).panic; let n = p.iter().position(|c| *c == 0).unwrap_or(0); String::from_utf8_lossy(&p[..n]).into_owned() }) }

fn leak<T>(v: Vec<T>) -> &'static [T] { Box::leak(v.into_boxed_slice()) }

pub fn setup(sc: &'static Scenario) -> &'static mut Env {
    install_hook();
    // what comes before the threads start is bounded by the scenario's size: it must not take for ever either
    let n: usize = sc.scenes.iter().map(|s| s.n()).sum();
    unsafe { rt_set_cap(rt_steps() + 600_000_000 + 100_000 * n as u64); }
    set_threshold(usize::MAX >> 1);
    let mut sets = Vec::new();
    for (i, s) in sc.scenes.iter().enumerate() {
        let (t, b, e, p) = quiet(|| (if s.ball { vec![] } else { s.tris(i as u32) }, if s.ball { s.balls(i as u32) } else { vec![] }, given_boxes(s, 1), given_boxes(s, 2)));
        let x = sim_heap(|| Set { tris: leak(t.to_vec()), balls: leak(b.to_vec()), exact: leak(e.to_vec()), padded: leak(p.to_vec()) });
        quiet(|| sets.push(x));
    }
    // thread pools exist before the builds that use them, like in a real program
    let mut pools = Vec::new();
    for k in &sc.pools {
        let p = rayon::ThreadPoolBuilder::new().num_threads(*k).build().unwrap();
        p.install(|| ());
        quiet(|| pools.push(p));
    }
    rayon::join(|| (), || ());
    let _ = rayon::current_num_threads();
    rayon::scope(|s| s.spawn(|_| ()));
    quiet(|| Box::leak(Box::new(Env { sc, sets, pools, refs: HashMap::new() })))
}
pub fn set_threshold(t: usize) { sim_heap(|| rtbvh::SIM_WORK_SIZE_THRESHOLD.store(t, std::sync::atomic::Ordering::SeqCst)) }

fn raw<T: Primitive<i32>>(p: &'static [T], b: Option<&'static [Aabb]>, algo: u8, leaf: usize) -> Bvh {
    let bl = Builder { aabbs: b, primitives: p, primitives_per_leaf: NonZeroUsize::new(leaf) };
    let r = if algo == 0 { bl.construct_binned_sah() } else { bl.construct_locally_ordered_clustered() };
    r.expect("valid input was rejected")
}
impl Env {
    pub fn scene(&self, i: usize) -> &'static Scene { &self.sc.scenes[i] }
    pub fn build(&'static self, s: &Spec) -> Bvh {
        let set = &self.sets[s.scene];
        let b = match s.boxes { 0 => None, 1 => Some(set.exact), _ => Some(set.padded) };
        if self.sc.scenes[s.scene].ball { return raw(set.balls, b, s.algo, s.leaf); }
        if s.algo == 2 {
            Builder { aabbs: b, primitives: set.tris, primitives_per_leaf: NonZeroUsize::new(s.leaf) }.construct_spatial_sah().expect("valid input was rejected")
        } else { raw(set.tris, b, s.algo, s.leaf) }
    }
    /// runs `f` on the calling thread or inside a pool
    pub fn within<R: Send>(&'static self, ctx: i32, f: impl FnOnce() -> R + Send) -> R {
        if ctx < 0 { f() } else { self.pools[ctx as usize].install(f) }
    }
    /// a build as the user sees it: a tree or a panic
    pub fn build_op(&'static self, s: &Spec, tag: u32) -> Result<Bvh, String> {
        let r = catch_unwind(AssertUnwindSafe(|| self.within(s.ctx, || { let o = unsafe { rt_tag(tag) }; struct R(u32); impl Drop for R { fn drop(&mut self) { unsafe { rt_tag(self.0); } } } let _r = R(o); self.build(s) })));
        unsafe { rt_tag_mark(tag); }
        count(1, 1);
        match r { Ok(t) => { count(2, t.nodes().len() as u64); Ok(t) } Err(e) => { drop(e); Err(any_panic()) } }
    }
    /// boxes a tree built from this spec must enclose
    pub fn boxes(&self, s: &Spec) -> &'static [Aabb] { if s.boxes == 2 { self.sets[s.scene].padded } else { self.sets[s.scene].exact } }
    pub fn check_structure(&self, s: &Spec, t: &Bvh) -> Result<Vec<Leaf>, String> {
        structure(t.nodes(), t.indices(), self.scene(s.scene).n(), if s.algo == 2 { Kind::Spatial } else { Kind::Exact })
    }
    pub fn check_enclosure(&self, s: &Spec, t: &Bvh, leaves: &[Leaf]) -> Result<(), String> {
        if s.algo == 2 { let sc = self.scene(s.scene); enclosure_spatial(t.nodes(), t.indices(), leaves, sc, sc.scale() * 1e-5).map(|p| count(3, p)) } else { enclosure_exact(t.nodes(), t.indices(), leaves, self.boxes(s)) }
    }
    /// serial reference build: no thread is started, nothing is preempted
    pub fn reference(&'static mut self, specs: &[Spec]) -> &'static mut Env {
        let me: &'static Env = unsafe { &*(self as *const Env) };
        for s in specs {
            let mut s = *s;
            s.ctx = -1;
            if me.refs.contains_key(&s) { continue; }
            let a = unsafe { rt_steps() };
            let t = match me.build_op(&s, 1) { Ok(t) => t, Err(p) => viol("setup", &format!("serial reference build {:?} panicked: {}", s, p)) };
            let steps = unsafe { rt_steps() } - a;
            quiet(|| {
                let c = canon(t.nodes(), t.indices());
                self.refs.insert(s, RefTree { canon: c, steps });
                std::mem::forget(t);
            });
        }
        self
    }
    pub fn ref_of(&self, s: &Spec) -> &RefTree { let mut k = *s; k.ctx = -1; &self.refs[&k] }
}

/// A panic that nobody injected and the harness did not expect ends the run. Whether it is the library's or the harness's
/// own is told from the stack it was raised on.
pub fn unpanicked(f: impl FnOnce()) {
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() { viol("panicked", &any_panic()); }
}
/// Starts the scenario's threads, switches the scheduler and the faults on, and waits for all of them.
pub fn run_threads(env: &'static Env, est: u64, cap: u64, f: fn(&'static Env, usize)) {
    let n = env.sc.threads.len();
    set_threshold(env.sc.threshold);
    for c in &env.sc.faults { quiet(|| unsafe { CTL[c.set].panic_at = c.panic_at; CTL[c.set].panic_again = c.again; CTL[c.set].slow_every = c.slow_every; CTL[c.set].slow_ns = c.slow_ns; CTL[c.set].calls = 0; }) }
    let mut h = quiet(Vec::new);
    for i in 0..n {
        let j = std::thread::Builder::new().spawn(move || unpanicked(|| f(env, i))).expect("harness thread");
        quiet(|| h.push(j));
    }
    unsafe {
        phase(1);
        rt_tune(est);
        rt_set_cap(rt_steps() + cap);
        rt_strategy(1);
        rt_arm_faults(1);
    }
    while let Some(j) = quiet(|| h.pop()) {
        if j.join().is_err() { viol("harness", &format!("harness thread panicked: {}", any_panic())); }
    }
    unsafe { rt_arm_faults(0); rt_strategy(0); }
    for c in &env.sc.faults { quiet(|| unsafe { let x = CTL[c.set]; count(20, x.fired); count(21, x.sleeps); CTL[c.set].panic_at = 0; CTL[c.set].slow_every = 0; }) }
    phase(2);
}
