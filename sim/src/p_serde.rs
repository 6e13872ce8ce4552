//! S01: saving and restoring trees through streams that split, delay, interrupt and fail, and crashes at any byte.
use crate::bin_format;
use crate::env::*;
use crate::geom::*;
use crate::oracle::*;
use crate::p_build::*;
use crate::p_trace::*;
use crate::rng::*;
use crate::rt::*;
use crate::scen::*;
use glam::*;
use rtbvh::*;
use std::io::{self, BufReader, BufWriter, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, RwLock};

pub fn generate(_prof: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let mut sc = Scenario { seed, ..Default::default() };
    let crowd = r.chance(1, 300);
    let huge = !crowd && r.chance(1, 120);
    let long = !crowd && !huge && r.chance(1, 60);
    let many = !crowd && !huge && !long && r.chance(1, 60);
    let ns = if crowd || huge { 1 } else { r.pick(&[1usize, 1, 2, 3]) };
    for _ in 0..ns {
        let n = if huge { r.range(300, 4000) } else { match r.below(20) { 0 => 1, 1 => 2, 2 => 3, 3..=6 => r.range(4, 9), 7..=16 => r.range(10, 40), _ => r.range(40, 120) } };
        let s = if crowd { gen_crowd(&mut r, true) } else { gen_scene(&mut r, n, true) };
        sc.scenes.push(s);
    }
    let nt = if crowd { 1 } else { r.pick(&[1usize, 1, 2, 3]) };
    for k in 0..nt {
        let i = if k < ns { k } else { r.below(ns) };
        let s = sc.scenes[i].clone();
        let mut q = gen_spec(&mut r, i, &s, 0);
        q.ctx = -1;
        if crowd || huge && (q.algo == 2 && s.n() > 2500 || q.algo == 1 && s.n() > 1600) { q.algo = 0; }
        sc.trees.push(q);
    }
    let nthreads = if crowd { 1 } else if many { r.range(9, 40) } else { r.pick(&[1usize, 2, 2, 3, 4]) };
    for _ in 0..nthreads {
        let mut v = Vec::new();
        for _ in 0..if crowd { 2 } else if long { r.range(15, 60) } else if many { 1 } else { r.range(1, 4) } {
            let tree = r.below(nt);
            v.push(match r.below(12) {
                0..=7 => Op::Save { tree: if r.chance(1, 12) { usize::MAX } else { tree }, format: r.below(2) as u8, wide: r.chance(1, 2), seed: r.next() },
                8..=9 => Op::Refit { tree, seed: r.next(), cut: 0 },
                10 => Op::Convert { tree, raw: r.below(2) as u8, ctx: -1 },
                _ => Op::Sleep { us: r.below(2000) as u64 },
            });
        }
        sc.threads.push(v);
    }
    sc.threshold = gen_threshold(&mut r, 64);
    sc.cfg = gen_cfg(&mut r, false);
    sc
}

// ------------------------------------------------------------------ streams
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End { None, Error(io::ErrorKind), Zero, Panic, /// the process dies: what was written is durable, nothing is reported
    Crash }
struct Faults { rng: Rng, short: bool, intr: bool, slow: bool, at: usize, end: End, hit: bool, ops: u64 }
impl Faults {
    fn new(r: &mut Rng, at: usize, end: End) -> Faults { Faults { rng: Rng::new(r.next()), short: r.chance(2, 3), intr: r.chance(1, 2), slow: r.chance(1, 8), at, end, hit: false, ops: 0 } }
    /// None: interrupted; Some(k): this many of `want` bytes pass
    fn step(&mut self, pos: usize, want: usize) -> (Option<usize>, u64) {
        self.ops += 1;
        let nap = if self.slow && self.rng.chance(1, 20) { 1 + self.rng.below(5000) as u64 } else { 0 };
        if nap > 0 { count(23, 1); }
        if self.intr && self.rng.chance(1, 6) { count(23, 1); return (None, nap); }
        let mut k = want;
        if self.end != End::None && self.end != End::Crash { k = k.min(self.at.saturating_sub(pos)); }
        if self.short && k > 1 && self.rng.chance(1, 3) { count(23, 1); k = 1 + self.rng.below(k); }
        (Some(k), nap)
    }
    fn fail(&mut self) -> io::Result<usize> {
        count(23, 1);
        self.hit = true;
        match self.end { End::Error(k) => Err(quiet(|| io::Error::from(k))), End::Panic => std::panic::panic_any(Injected), _ => Ok(0) }
    }
}
struct Out<'a> { data: &'a mut Vec<u8>, f: &'a mut Faults }
impl<'a> Write for Out<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let pos = self.data.len();
        let (k, nap) = quiet(|| self.f.step(pos, b.len()));
        if nap > 0 { std::thread::sleep(std::time::Duration::from_nanos(nap)); }
        match k {
            None => Err(io::Error::from(io::ErrorKind::Interrupted)),
            Some(0) => self.f.fail(),
            Some(k) => { self.data.extend_from_slice(&b[..k]); Ok(k) }
        }
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
struct In<'a> { data: &'a [u8], pos: usize, f: &'a mut Faults }
impl<'a> Read for In<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let want = b.len().min(self.data.len() - self.pos);
        if want == 0 { return Ok(0); }
        let (k, nap) = quiet(|| self.f.step(self.pos, want));
        if nap > 0 { std::thread::sleep(std::time::Duration::from_nanos(nap)); }
        match k {
            None => Err(io::Error::from(io::ErrorKind::Interrupted)),
            Some(0) => self.f.fail(),
            Some(k) => { b[..k].copy_from_slice(&self.data[self.pos..self.pos + k]); self.pos += k; Ok(k) }
        }
    }
}
const KINDS: [io::ErrorKind; 5] = [io::ErrorKind::Other, io::ErrorKind::StorageFull, io::ErrorKind::BrokenPipe, io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut];
fn ending(r: &mut Rng) -> End { match r.below(8) { 0 => End::Zero, 1 => End::Panic, _ => End::Error(r.pick(&KINDS)) } }

fn write_to<T: serde::Serialize, W: Write>(t: &T, w: W, format: u8) -> Result<W, String> {
    if format == 0 { let mut w = w; serde_json::to_writer(&mut w, t).map_err(|e| quiet(|| e.to_string()))?; Ok(w) }
    else { let mut s = bin_format::Ser(w); t.serialize(&mut s).map_err(|e| quiet(|| e.to_string()))?; Ok(s.0) }
}
fn read_from<T: serde::de::DeserializeOwned, R: Read>(r: R, format: u8) -> Result<T, String> {
    if format == 0 { serde_json::from_reader(r).map_err(|e| quiet(|| e.to_string())) } else { T::deserialize(&mut bin_format::De(r)).map_err(|e| quiet(|| e.to_string())) }
}
/// what the program that saves sees
fn save<T: serde::Serialize>(t: &T, format: u8, buf: usize, data: &mut Vec<u8>, f: &mut Faults) -> Result<(), String> {
    let o = Out { data, f };
    if buf == 0 { write_to(t, o, format).map(|_| ()) }
    else {
        let mut w = write_to(t, BufWriter::with_capacity(buf, o), format)?;
        w.flush().map_err(|e| quiet(|| e.to_string()))?;
        let _ = w.into_parts();
        Ok(())
    }
}
fn load<T: serde::de::DeserializeOwned>(data: &[u8], format: u8, buf: usize, f: &mut Faults) -> Result<T, String> {
    let i = In { data, pos: 0, f };
    if buf == 0 { read_from(i, format) } else { read_from(BufReader::with_capacity(buf, i), format) }
}

// ------------------------------------------------------------------ comparison
trait Tree: serde::Serialize + serde::de::DeserializeOwned + Clone {
    fn fp(&self) -> u64;
    fn same(&self, o: &Self) -> Result<(), String>;
    fn order(&self, r: &mut Ray, prims: usize) -> Vec<u32>;
    fn order4(&self, r: &mut RayPacket4, prims: usize) -> Vec<u32>;
    const WHAT: &'static str;
}
fn same_nodes(a: &[BvhNode], b: &[BvhNode]) -> Result<(), String> {
    if a.len() != b.len() { return Err(format!("{} nodes instead of {}", b.len(), a.len())); }
    let w = |x: &BvhNode| { let q = &x.bounds; [q.min.x.to_bits(), q.min.y.to_bits(), q.min.z.to_bits(), q.max.x.to_bits(), q.max.y.to_bits(), q.max.z.to_bits(), q.extra1 as u32, q.extra2 as u32] };
    for (i, (x, y)) in a.iter().zip(b).enumerate() { if w(x) != w(y) { return Err(format!("node {} is {:?} instead of {:?}", i, y, x)); } }
    Ok(())
}
fn same_idx(a: &[u32], b: &[u32]) -> Result<(), String> {
    if a.len() != b.len() { return Err(format!("{} indices instead of {}", b.len(), a.len())); }
    match a.iter().zip(b).position(|(x, y)| x != y) { Some(i) => Err(format!("index {} is {} instead of {}", i, b[i], a[i])), None => Ok(()) }
}
fn pull<'r, R: 'r>(it: impl Iterator<Item = (u32, &'r mut R)>, lim: usize) -> Vec<u32> {
    let mut v = quiet(Vec::new);
    for (i, _) in it { quiet(|| v.push(i)); if v.len() > lim * 4 + 8 { break; } }
    v
}
impl Tree for Bvh {
    fn fp(&self) -> u64 { hash_nodes(self.nodes(), self.indices()) ^ self.build_type() as u64 }
    fn same(&self, o: &Self) -> Result<(), String> {
        if self.build_type() != o.build_type() { return Err(format!("build type {:?} instead of {:?}", o.build_type(), self.build_type())); }
        if self.prim_count() != o.prim_count() { return Err(format!("primitive count {} instead of {}", o.prim_count(), self.prim_count())); }
        same_nodes(self.nodes(), o.nodes())?;
        same_idx(self.indices(), o.indices())
    }
    fn order(&self, r: &mut Ray, n: usize) -> Vec<u32> { pull(self.traverse_iter_indices(r), n) }
    fn order4(&self, r: &mut RayPacket4, n: usize) -> Vec<u32> { pull(self.traverse_iter_indices_packet(r), n) }
    const WHAT: &'static str = "binary";
}
impl Tree for Mbvh {
    fn fp(&self) -> u64 { hash_wide(self) }
    fn same(&self, o: &Self) -> Result<(), String> {
        if self.prim_count() != o.prim_count() { return Err(format!("primitive count {} instead of {}", o.prim_count(), self.prim_count())); }
        same_nodes(self.nodes(), o.nodes())?;
        same_idx(self.indices(), o.indices())?;
        let (a, b) = (self.quad_nodes(), o.quad_nodes());
        if a.len() != b.len() { return Err(format!("{} four-wide nodes instead of {}", b.len(), a.len())); }
        let w = |x: &MbvhNode| { let (a, b, c) = x.min_points(); let (d, e, f) = x.max_points(); ([a, b, c, d, e, f].map(|v| v.to_array().map(f32::to_bits)), x.children, x.counts) };
        for (i, (x, y)) in a.iter().zip(b).enumerate() { if w(x) != w(y) { return Err(format!("four-wide node {} is {:?} instead of {:?}", i, y, x)); } }
        Ok(())
    }
    fn order(&self, r: &mut Ray, n: usize) -> Vec<u32> { pull(self.traverse_iter_indices(r), n) }
    fn order4(&self, r: &mut RayPacket4, n: usize) -> Vec<u32> { pull(self.traverse_iter_indices_packet(r), n) }
    const WHAT: &'static str = "four-wide";
}

// ------------------------------------------------------------------ shared state
struct Obj { spec: Spec, lock: RwLock<(Bvh, Option<Mbvh>)> }
/// what is on the disk: bytes, whether all of them got there, and what was saved
struct File { data: Vec<u8>, whole: bool, format: u8, wide: Option<Mbvh>, bin: Option<Bvh> }
struct Glob { objs: Vec<Obj>, disk: Mutex<Vec<File>> }
/// one tree written to a stream and read back, either of which may fail at any byte
pub fn round_trip(t: &Bvh, m: Option<&Mbvh>, format: u8, seed: u64) {
    fn go<T: Tree>(t: &T, format: u8, seed: u64) {
        let mut r = Rng::new(seed);
        let mut data: Vec<u8> = Vec::new();
        let wend = if r.chance(1, 3) { ending(&mut r) } else { End::None };
        let mut f = { let at = 1 + r.below(3000); Faults::new(&mut r, at, wend) };
        let buf = r.pick(&[0usize, 1, 64, 8192]);
        let res = catch_unwind(AssertUnwindSafe(|| save(t, format, buf, &mut data, &mut f)));
        if let Err(e) = res { drop(e); }
        let rend = if r.chance(1, 3) { ending(&mut r) } else { End::None };
        let n = data.len();
        let cut = if r.chance(1, 2) { n } else { r.below(n + 1) };
        let mut f = { let at = r.below(n.max(1)); Faults::new(&mut r, at, rend) };
        let res = catch_unwind(AssertUnwindSafe(|| load::<T>(&data[..cut], format, buf, &mut f)));
        match res { Err(e) => drop(e), Ok(Ok(t)) => { count(25, 1); drop(t) } Ok(Err(e)) => { count(24, 1); quiet(|| drop(e)) } }
        drop(data);
        unsafe { (*SH).panic[0] = 0; }
        count(22, 1);
    }
    match m { Some(m) => go(m, format, seed), None => go(t, format, seed) }
}
static mut G: *const Glob = std::ptr::null();
fn glob() -> &'static Glob { unsafe { &*G } }

fn judge_load<T: Tree>(want: &T, data: &[u8], whole: bool, format: u8, seed: u64, fault: bool, env: &Env, sc: usize) {
    let (mut f, buf) = quiet(|| {
        let mut r = Rng::new(seed);
        let end = if fault { ending(&mut r) } else { End::None };
        let at = match r.below(4) { 0 => r.below(20).min(data.len().saturating_sub(1)), 1 => data.len().saturating_sub(1 + r.below(20)), _ => r.below(data.len().max(1)) };
        let f = Faults::new(&mut r, at, end);
        (f, r.pick(&[0usize, 1, 2, 3, 7, 16, 64, 8192]))
    });
    let end = f.end;
    let r = catch_unwind(AssertUnwindSafe(|| load::<T>(data, format, buf, &mut f)));
    let hit = f.hit;
    let what = || format!("restoring a {} tree ({} of format {}, {} bytes, {}, faults {:?} at {}, buffer {})", T::WHAT, if whole { "all" } else { "the first part" }, format, data.len(), want.fp(), end, f.at, buf);
    match r {
        Err(e) => quiet(|| { std::mem::forget(e); if !(hit && end == End::Panic) { viol("save", &format!("{} panicked: {}", what(), any_panic())); } unsafe { (*SH).panic[0] = 0; } count(24, 1); }),
        Ok(Err(e)) => quiet(|| { if whole && !hit { viol("save", &format!("{} failed although nothing was wrong: {}", what(), e)); } count(24, 1); }),
        Ok(Ok(t)) => {
            quiet(|| {
                if !whole { viol("save", &format!("{}: a copy that was cut off has been accepted", what())); }
                if hit { viol("save", &format!("{}: the stream failed, but the restore succeeded", what())); }
                if let Err(e) = want.same(&t) { viol("save", &format!("{}: {}", what(), e)); }
                count(25, 1);
            });
            // the restored tree answers like the one that was saved
            let n = env.scene(sc).n();
            for k in 0..4u64 {
                let (o, d) = quiet(|| { let mut r = Rng::new(seed ^ (k * 77 + 5)); if env.scene(sc).ball { gen_ray(&mut r, env.sets[sc].balls, env.scene(sc).scale()) } else { gen_ray(&mut r, env.sets[sc].tris, env.scene(sc).scale()) } });
                let (mut a, mut b) = (Ray::new(o, d), Ray::new(o, d));
                let (x, y) = (want.order(&mut a, n), t.order(&mut b, n));
                quiet(|| { count(9, 1); if x != y { viol("save", &format!("{}: ray {:?} {:?} sees {:?} instead of {:?}", what(), o, d, y, x)); } drop((x, y)); });
                let (vo, vd) = (vec4(o.x, o.y, o.z, 0.0), vec4(d.x, d.y, d.z, 0.0));
                let mut p = RayPacket4::new([vo, vo + vd * 0.01, vo, vo], [vd, vd, -vd, vd.zxyw()]);
                let mut q = p;
                let (x, y) = (want.order4(&mut p, n), t.order4(&mut q, n));
                quiet(|| { count(14, 1); if x != y { viol("save", &format!("{}: packet {:?} {:?} sees {:?} instead of {:?}", what(), o, d, y, x)); } drop((x, y)); });
            }
            drop(t);
        }
    }
}
fn save_op<T: Tree>(t: &T, env: &Env, sc: usize, format: u8, seed: u64, keep: impl FnOnce(T) -> (Option<Mbvh>, Option<Bvh>)) {
    // how long it will be
    let (mut f, buf, crash, mut r) = quiet(|| {
        let mut r = Rng::new(seed);
        let len = loud(|| { let mut v: Vec<u8> = Vec::new(); let _ = if format == 0 { serde_json::to_writer(&mut v, t).is_ok() } else { t.serialize(&mut bin_format::Ser(&mut v)).is_ok() }; let n = v.len(); drop(v); n });
        let fault = r.chance(1, 4);
        let end = if fault { ending(&mut r) } else { End::None };
        let at = match r.below(4) { 0 => r.below(20).min(len.saturating_sub(1)), 1 => len.saturating_sub(1 + r.below(20)), _ => r.below(len.max(1)) };
        let f = Faults::new(&mut r, at, end);
        let buf = r.pick(&[0usize, 0, 1, 7, 64, 8192]);
        let crash = if r.chance(1, 3) { Some(r.below(len.max(1))) } else { None };
        (f, buf, crash, r)
    });
    let before = quiet(|| t.fp());
    let mut data: Vec<u8> = Vec::new();
    let res = catch_unwind(AssertUnwindSafe(|| save(t, format, buf, &mut data, &mut f)));
    let (hit, end) = (f.hit, f.end);
    let ok = quiet(|| {
        count(22, 1);
        let what = || format!("saving a {} tree of {} primitives (format {}, faults {:?} at {}, buffer {})", T::WHAT, env.scene(sc).n(), format, end, f.at, buf);
        if t.fp() != before { viol("save", &format!("{} changed the tree", what())); }
        match res {
            Err(e) => { std::mem::forget(e); if !(hit && end == End::Panic) { viol("save", &format!("{} panicked: {}", what(), any_panic())); } unsafe { (*SH).panic[0] = 0; } false }
            Ok(Err(e)) => { if !hit { viol("save", &format!("{} failed although nothing was wrong: {}", what(), e)); } false }
            Ok(Ok(())) => { if hit { viol("save", &format!("{}: the stream failed, but the save succeeded", what())); } true }
        }
    });
    let (seeds, cuts, fault) = quiet(|| {
        let seeds = [r.next(), r.next(), r.next()];
        let mut cuts = Vec::new();
        if ok { for k in 0..3 { cuts.push(match (k, r.below(3)) { (0, _) => data.len().saturating_sub(1), (_, 0) => r.below(data.len().max(1)), (_, 1) => data.len().saturating_sub(1 + r.below(40)), _ => r.below(60).min(data.len().saturating_sub(1)) }); } }
        (seeds, cuts, r.chance(1, 4))
    });
    if ok {
        judge_load(t, &data, true, format, seeds[0], fault, env, sc);
        for (i, c) in cuts.iter().enumerate() { count(26, 1); judge_load(t, &data[..*c], false, format, seeds[1] ^ i as u64, i == 2 && fault, env, sc); }
    } else if !data.is_empty() { judge_load(t, &data, false, format, seeds[1], false, env, sc); }
    let copy = t.clone();
    quiet(|| {
        let n = if let (true, Some(c)) = (ok, crash) { c } else { data.len() };
        let (wide, bin) = keep(copy);
        let d = loud(|| data[..n].to_vec());
        glob().disk.lock().unwrap().push(File { whole: ok && n == data.len(), data: d, format, wide, bin });
    });
    drop(data);
    quiet(|| drop(cuts));
}
fn thread(env: &'static Env, ti: usize) {
    for op in &env.sc.threads[ti] {
        match op {
            // nothing at all is saved and restored like anything else
            Op::Save { tree: usize::MAX, format, wide, seed } => {
                count(33, 1);
                if *wide {
                    let m = if seed & 1 == 0 { Mbvh::default() } else { Mbvh::construct(&Bvh::default()) };
                    save_op(&m, env, 0, *format, *seed, |m| (Some(m), None));
                } else { save_op(&Bvh::default(), env, 0, *format, *seed, |b| (None, Some(b))); }
            }
            Op::Save { tree, format, wide, seed } => {
                let ob = &glob().objs[*tree];
                let st = ob.lock.read().unwrap();
                if *wide {
                    let own;
                    let m = match &st.1 { Some(m) => m, None => { own = Mbvh::construct(&st.0); &own } };
                    save_op(m, env, ob.spec.scene, *format, *seed, |m| (Some(m), None));
                } else { save_op(&st.0, env, ob.spec.scene, *format, *seed, |b| (None, Some(b))); }
            }
            Op::Refit { tree, seed, .. } => {
                let ob = &glob().objs[*tree];
                let sh = quiet(|| { let s = deform(&env.sc.scenes[ob.spec.scene], *seed); shape_of(&s, ob.spec.scene as u32) });
                let mut st = ob.lock.write().unwrap();
                st.0.refit(sh.boxes);
                st.1 = None;
                count(16, 1);
                drop(st);
                quiet(|| drop(sh));
            }
            Op::Convert { tree, raw, .. } => {
                let ob = &glob().objs[*tree];
                let mut st = ob.lock.write().unwrap();
                let m = if *raw != 0 { Mbvh::construct_from_raw(st.0.nodes(), st.0.indices()) } else { Mbvh::construct(&st.0) };
                st.1 = Some(m);
                count(15, 1);
            }
            Op::Sleep { us } => std::thread::sleep(std::time::Duration::from_micros(*us)),
            _ => {}
        }
    }
}
pub fn run(sc: &'static Scenario) {
    let env: &'static Env = setup(sc);
    let mut objs = Vec::new();
    for s in &sc.trees {
        let t = match env.build_op(s, 1) { Ok(t) => t, Err(p) => viol("setup", &p) };
        quiet(|| objs.push(Obj { spec: *s, lock: RwLock::new((t, None)) }));
    }
    quiet(|| unsafe { G = Box::leak(Box::new(Glob { objs, disk: Mutex::new(Vec::new()) })); });
    // rays travel between processes as well
    ray_trip(env, sc.seed);
    let est: u64 = sc.threads.iter().flatten().map(|o| match o { Op::Save { tree: usize::MAX, .. } => 10_000, Op::Save { tree, format, .. } => sc.scenes[sc.trees[*tree].scene].n() as u64 * if *format == 0 { 60_000 } else { 6_000 }, _ => 2000 }).sum::<u64>() + 2000;
    run_threads(env, est, est * 100 + 500_000_000, thread);
    // restart: only what reached the disk is left
    let files = quiet(|| std::mem::take(&mut *glob().disk.lock().unwrap()));
    for (i, f) in files.iter().enumerate() {
        let s = mix(sc.seed ^ (i as u64 + 100));
        if let Some(m) = &f.wide { judge_load(m, &f.data, f.whole, f.format, s, false, env, 0); }
        if let Some(b) = &f.bin { judge_load(b, &f.data, f.whole, f.format, s, false, env, 0); }
    }
    quiet(|| std::mem::forget(files));
}
fn ray_trip(env: &Env, seed: u64) {
    for k in 0..2u64 {
        let (o, d, t) = quiet(|| { let mut r = Rng::new(seed ^ k); let s = env.scene(0); let (o, d) = if s.ball { gen_ray(&mut r, env.sets[0].balls, s.scale()) } else { gen_ray(&mut r, env.sets[0].tris, s.scale()) }; (o, d, r.f() * 100.0) });
        // infinities have no JSON form; such rays only travel in binary
        let formats = if d.x != 0.0 && d.y != 0.0 && d.z != 0.0 { 2 } else { 1 };
        for format in (2 - formats)..2u8 {
            let mut ray = Ray::new(o, d);
            ray.t = t;
            let mut v = Vec::new();
            let ok = if format == 0 { serde_json::to_writer(&mut v, &ray).is_ok() } else { serde::Serialize::serialize(&ray, &mut bin_format::Ser(&mut v)).is_ok() };
            let back: Option<Ray> = read_from(&v[..], format).ok();
            quiet(|| match back { Some(b) if ok && format!("{:?}", b) == format!("{:?}", ray) => {}, b => viol("save", &format!("ray {:?} became {:?}", ray, b)) });
            let x = vec4(o.x, o.y, o.z, 0.0);
            let y = vec4(d.x, d.y, d.z, 0.0);
            let mut p = RayPacket4::new([x, x * 2.0, x + y, x], [y, y * 0.5, -y, y.yxzw()]);
            p.t = vec4(t, 1.0, -t, 1e34);
            v.clear();
            let ok = if format == 0 { serde_json::to_writer(&mut v, &p).is_ok() } else { serde::Serialize::serialize(&p, &mut bin_format::Ser(&mut v)).is_ok() };
            let back: Option<RayPacket4> = read_from(&v[..], format).ok();
            quiet(|| match back { Some(b) if ok && format!("{:?}", b) == format!("{:?}", p) => {}, b => viol("save", &format!("packet {:?} became {:?}", p, b)) });
        }
    }
}
