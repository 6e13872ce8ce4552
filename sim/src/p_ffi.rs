//! F01, F02, F03: the C interface, called from many threads the way C code would.
use crate::env::*;
use crate::geom::*;
use crate::oracle::*;
use crate::p_build::*;
use crate::p_trace::*;
use crate::rng::*;
use crate::rt::*;
use crate::scen::*;
use crate::tree::*;
use glam::*;
use rtbvh::*;
use std::ffi::c_void;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ the interface as a C program declares it
#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct RTBvh { id: u32, node_count: u32, nodes: *const c_void, index_count: u32, indices: *const u32 }
#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct RTMbvh { id: u32, node_count: u32, nodes: *const c_void, index_count: u32, indices: *const u32 }
type Cb = extern "C" fn(u32, *mut f32, *mut c_void) -> bool;
extern "C" {
    fn create_bvh(aabbs: *const c_void, prim_count: usize, centers: *const f32, center_stride: usize, prims_per_leaf: usize, bvh_type: u32, result: *mut RTBvh) -> u32;
    fn create_spatial_Bvh(aabbs: *const c_void, prim_count: usize, centers: *const f32, stride: usize, vertices: *const f32, vertex_stride: usize, triangle_stride: usize, prims_per_leaf: u32, result: *mut RTBvh) -> u32;
    fn create_mbvh(bvh: RTBvh, mbvh: *mut RTMbvh) -> u32;
    fn refit(aabbs: *const c_void, bvh: RTBvh) -> u32;
    fn intersect(bvh: RTBvh, o: *const f32, d: *const f32, t: *mut f32, user: *mut c_void, cb: Cb) -> u32;
    fn intersect_mbvh(bvh: RTMbvh, o: *const f32, d: *const f32, t: *mut f32, user: *mut c_void, cb: Cb) -> u32;
    fn intersect_packet(bvh: RTBvh, ox: *const f32, oy: *const f32, oz: *const f32, dx: *const f32, dy: *const f32, dz: *const f32, t: *mut f32, user: *mut c_void, cb: Cb) -> u32;
    fn intersect_mbvh_packet(bvh: RTMbvh, ox: *const f32, oy: *const f32, oz: *const f32, dx: *const f32, dy: *const f32, dz: *const f32, t: *mut f32, user: *mut c_void, cb: Cb) -> u32;
    fn free_bvh(bvh: RTBvh);
    fn free_mbvh(bvh: RTMbvh);
}
const OK: u32 = 0;
const ERROR: u32 = 1;
const NO_PRIMS: u32 = 2;
const NAN: u32 = 4;
/// what a C caller's handle variable holds before the call
fn blank() -> RTBvh { RTBvh { id: 0xabcd_abcd, node_count: 77, nodes: 8 as *const c_void, index_count: 99, indices: 4 as *const u32 } }
fn blankm() -> RTMbvh { RTMbvh { id: 0xabcd_abcd, node_count: 77, nodes: 8 as *const c_void, index_count: 99, indices: 4 as *const u32 } }
fn same_b(a: &RTBvh, b: &RTBvh) -> bool { a.id == b.id && a.node_count == b.node_count && a.nodes == b.nodes && a.index_count == b.index_count && a.indices == b.indices }

// ------------------------------------------------------------------ generation
pub const PRIV_CREATE: u8 = 0;
pub const SH_CREATE: u8 = 1;
pub const PRIV_CONVERT: u8 = 2;
pub const SH_CONVERT: u8 = 3;
pub const PRIV_REFIT: u8 = 4;
pub const SH_REFIT: u8 = 5;
pub const PRIV_TRACE: u8 = 6;
pub const SH_TRACE: u8 = 7;
pub const CHECK: u8 = 8;
pub const PRIV_FREE: u8 = 9;
pub const SH_FREE: u8 = 10;
pub const BAD: u8 = 11;
pub const AGAIN: u8 = 12;
pub const HERD: u8 = 14; // a great many small trees
const NSH: usize = 4; // shared slots: even ones change, odd ones are only read

pub fn generate(prof: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let mut sc = Scenario { seed, ..Default::default() };
    // numbers beyond sixteen bits
    let crowd = r.chance(1, 800);
    // or a long history
    let huge = !crowd && r.chance(1, if prof == "F03" { 100 } else { 250 });
    let long = !crowd && !huge && r.chance(1, 60);
    // or more threads than anything per thread could be numbered for
    let many = !crowd && !huge && !long && r.chance(1, 60);
    let ns = if crowd || huge { 1 } else { r.pick(&[1usize, 2, 3]) };
    for _ in 0..ns {
        let n = match r.below(20) { 0 => 1, 1 => 2, 2 => 3, 3..=9 => r.range(4, 12), 10..=16 => r.range(12, 50), _ => r.range(50, 160) };
        let n = if huge { r.range(1030, 5000) } else if prof == "F03" { n } else { n.min(60) };
        let mut s = if crowd { gen_crowd(&mut r, false) } else { gen_scene(&mut r, n, false) };
        if s.p.is_empty() { s = gen_scene(&mut r, 4, false); }
        sc.scenes.push(s);
    }
    if r.chance(1, 4) { sc.pools.push(r.pick(&[1usize, 2, 3])); }
    let herd = prof != "F03" && r.chance(1, 8);
    if herd { let n = r.range(1, 3); let s = gen_scene(&mut r, n, false); sc.scenes.push(if s.p.is_empty() { gen_scene(&mut r, 1, false) } else { s }); }
    let nthreads = if crowd { 1 } else if many { r.range(9, 40) } else if long || huge { r.range(1, 2) } else if prof == "F03" { r.pick(&[1usize, 2, 2, 3, 4]) } else { r.pick(&[2usize, 2, 3, 3, 4, 5]) };
    let before = r.chance(1, 3);
    // created before the threads start (note: none), or by the threads themselves, racing for the first call
    if before { for slot in 0..NSH { let scene = r.below(ns); sc.trees.push(Spec { scene, algo: 0, leaf: 0, boxes: 0, ctx: slot as i32 }); } }
    for t in 0..nthreads {
        let nops = if crowd { r.range(2, 3) } else if huge { r.range(2, 6) } else if long { r.range(20, 70) } else if many { r.range(1, 2) } else { r.range(3, 9) };
        let mut v = Vec::new();
        let op = |r: &mut Rng, what: u8| Op::Ffi { what, a: r.below(ns), b: r.below(64), seed: r.next() };
        if !before { for slot in 0..NSH { if slot % nthreads == t { v.push(Op::Ffi { what: SH_CREATE, a: r.below(ns), b: slot, seed: r.next() }); } } }
        if r.chance(2, 3) { v.push(op(&mut r, PRIV_CREATE)); }
        for _ in 0..nops {
            let x = r.below(40);
            let k = match prof {
                "F01" => match x { 0..=4 => PRIV_CREATE, 5..=6 => PRIV_CONVERT, 7..=15 => SH_CONVERT, 16 => PRIV_REFIT, 17..=25 => SH_REFIT, 26 => PRIV_TRACE, 27 => SH_TRACE, 28..=29 => CHECK, 30..=32 => PRIV_FREE, 33..=34 => SH_FREE, 35..=36 => BAD, 37 => AGAIN, _ => 13 },
                "F02" => match x { 0..=8 => PRIV_CREATE, 9..=14 => PRIV_CONVERT, 15..=17 => SH_CONVERT, 18..=19 => PRIV_REFIT, 20..=21 => SH_REFIT, 22 => PRIV_TRACE, 23..=24 => SH_TRACE, 25..=31 => CHECK, 32..=35 => PRIV_FREE, 36 => SH_FREE, 37 => AGAIN, 38 => BAD, _ => 13 },
                _ => match x { 0..=4 => PRIV_CREATE, 5..=7 => PRIV_CONVERT, 8 => SH_CONVERT, 9..=10 => PRIV_REFIT, 11..=23 => PRIV_TRACE, 24..=32 => SH_TRACE, 33 => CHECK, 34..=35 => PRIV_FREE, 36 => BAD, 37 => SH_REFIT, _ => 13 },
            };
            if k == 13 { v.push(Op::Sleep { us: r.below(500) as u64 }) } else { v.push(op(&mut r, k)) }
        }
        if herd && (t == 0 || r.chance(1, 3)) { let k = r.below(v.len() + 1); v.insert(k, Op::Ffi { what: HERD, a: ns, b: if r.chance(1, 6) { r.range(257, 700) } else { r.range(20, 110) }, seed: r.next() }); }
        sc.threads.push(v);
    }
    sc.threshold = gen_threshold(&mut r, 40);
    sc.cfg = gen_cfg(&mut r, false);
    sc
}

// ------------------------------------------------------------------ what the harness knows
/// a tree as it was when its handle was made
struct Base { n: usize, spatial: bool, leaves: Vec<Leaf>, by: Vec<Vec<usize>>, nodes: Vec<BvhNode>, idx: Vec<u32>, refs: usize, scene: usize }
struct H { rt: RTBvh, base: Arc<Base>, shape: Option<Arc<Shape>>, spatial: bool, sum: u64, freed: bool }
struct W { rt: RTMbvh, base: Arc<Base>, shape: Option<Arc<Shape>>, spatial: bool, sum: u64, freed: bool }
#[derive(Clone, Copy)]
struct Shared { rt: RTBvh, base: *const Base, shape: *const Option<Arc<Shape>>, sum: u64 }
unsafe impl Send for Shared {}
static SLOTS: [Mutex<Option<Shared>>; NSH] = [const { Mutex::new(None) }; NSH];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev { Refit(u32), Convert(Option<u32>), Free, See(u32) }
struct Rec { slot: usize, ev: Ev, inv: u64, ret: u64, thread: usize }
struct Glob { clock: u64, hist: Vec<Rec>, versions: [u32; NSH], live_b: Vec<u32>, live_m: Vec<u32>, shapes: [Vec<Arc<Shape>>; NSH], busy: u64 }
static mut G: Glob = Glob { clock: 0, hist: Vec::new(), versions: [0; NSH], live_b: Vec::new(), live_m: Vec::new(), shapes: [const { Vec::new() }; NSH], busy: 0 };
fn g() -> &'static mut Glob { unsafe { &mut *std::ptr::addr_of_mut!(G) } }
fn tick() -> u64 { let g = g(); g.clock += 1; g.clock }
fn born(list: &mut Vec<u32>, id: u32, what: &str) { if list.contains(&id) { viol("ffi", &format!("a new {} has handle {}, which belongs to a {} that has not been freed", what, id, what)); } list.push(id); }
fn dies(list: &mut Vec<u32>, id: u32) { list.retain(|x| *x != id); }

fn slice_b<'a>(h: &RTBvh) -> (&'a [BvhNode], &'a [u32]) {
    unsafe { (std::slice::from_raw_parts(h.nodes as *const BvhNode, h.node_count as usize), std::slice::from_raw_parts(h.indices, h.index_count as usize)) }
}
fn slice_m<'a>(h: &RTMbvh) -> (&'a [MbvhNode], &'a [u32]) {
    if h.node_count == 0 { return (&[], &[]); }
    unsafe { (std::slice::from_raw_parts(h.nodes as *const MbvhNode, h.node_count as usize), std::slice::from_raw_parts(h.indices, h.index_count as usize)) }
}
/// reads the arrays behind a handle as the user would: the accesses are checked and scheduled
fn sum_b(h: &RTBvh) -> u64 { let (n, i) = slice_b(h); hash_nodes(n, i) }
fn sum_m(h: &RTMbvh) -> u64 {
    let (n, i) = slice_m(h);
    let mut s = hash_nodes(&[], i);
    for x in n {
        let (a, b, c) = x.min_points();
        let (d, e, f) = x.max_points();
        for v in [a, b, c, d, e, f] { for k in 0..4 { s = (s ^ v[k].to_bits() as u64).wrapping_mul(0x100000001b3); s ^= s >> 31; } }
        for k in 0..4 { s = (s ^ x.children[k] as u32 as u64).wrapping_mul(0x100000001b3); s = (s ^ x.counts[k] as u32 as u64).wrapping_mul(0x100000001b3); s ^= s >> 29; }
    }
    s
}

// ------------------------------------------------------------------ arrays as C programs have them
/// An array that ends exactly where its memory block ends and starts `off` bytes into it.
struct Arr { p: *mut u8, len: usize, off: usize, sum: u64 }
fn fnv(b: &[u8]) -> u64 { b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) }
impl Arr {
    fn new(b: &[u8], off: usize) -> Arr {
        sim_heap(|| {
            let mut v: Vec<u8> = Vec::with_capacity(0);
            v.reserve_exact(b.len() + off);
            for _ in 0..off { v.push(0xee); }
            v.extend_from_slice(b);
            let v = std::mem::ManuallyDrop::new(v);
            Arr { p: v.as_ptr() as *mut u8, len: b.len(), off, sum: fnv(b) }
        })
    }
    fn floats(f: &[f32], off: usize) -> Arr { let b = quiet(|| f.iter().flat_map(|x| x.to_ne_bytes()).collect::<Vec<u8>>()); let a = Arr::new(&b, off); quiet(|| drop(b)); a }
    fn at(&self) -> *mut u8 { unsafe { self.p.add(self.off) } }
    fn f(&self) -> *mut f32 { self.at() as *mut f32 }
    fn v(&self) -> *const c_void { self.at() as *const c_void }
    fn get(&self, i: usize) -> f32 { unsafe { self.f().add(i).read_unaligned() } }
    fn all(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.p, self.len + self.off) } }
    /// unchanged but for the floats `out`
    fn untouched(&self, out: std::ops::Range<usize>) -> bool {
        let b = self.all();
        if b[..self.off].iter().any(|x| *x != 0xee) { return false; }
        if out.is_empty() { return fnv(&b[self.off..]) == self.sum; }
        true
    }
}
impl Drop for Arr { fn drop(&mut self) { sim_heap(|| unsafe { drop(Vec::from_raw_parts(self.p, self.len + self.off, self.len + self.off)) }) } }

fn boxes_array(b: &[Aabb], off: usize, r: &mut Rng) -> Arr {
    let f: Vec<f32> = quiet(|| b.iter().flat_map(|x| { let (j, k) = (f32::from_bits(r.next() as u32), f32::from_bits(r.next() as u32)); [x.min.x, x.min.y, x.min.z, j, x.max.x, x.max.y, x.max.z, k] }).collect());
    let a = Arr::floats(&f, off);
    quiet(|| drop(f));
    a
}
/// creates a tree through the interface and checks what comes back
fn create(env: &'static Env, scene: usize, seed: u64, version: Option<(usize, u32)>) -> H {
    let mut r = Rng::new(seed);
    let s: &'static Scene = match version { Some(_) => quiet(|| Box::leak(Box::new(moved(&env.sc.scenes[scene], 0)))), None => env.scene(scene) };
    let n = s.n();
    let off = r.pick(&[0usize, 4, 8, 12, 4]);
    let leaf = r.pick(&[0usize, 0, 1, 1, 2, 3, 8]);
    let spatial = version.is_none() && r.chance(1, 3) && n < 40_000;
    // trees of shared slots are always made with boxes, so that every version can be told from the others
    let boxes = if version.is_some() { 1 } else { r.pick(&[0u8, 1, 1, 2]) };
    let exact = quiet(|| given_boxes(s, if boxes == 2 { 2 } else { 1 }));
    let ab = if boxes == 0 { None } else { Some(boxes_array(&exact, off, &mut r)) };
    let pa = ab.as_ref().map(|a| a.v()).unwrap_or(std::ptr::null());
    let junk = |r: &mut Rng| r.pick(&[0.0f32, f32::NAN, 1e30, -7.0]);
    let ctx = if !env.pools.is_empty() && r.chance(1, 4) { 0 } else { -1 };
    let out = sim_heap(|| Box::into_raw(Box::new(blank())));
    let code;
    let ok;
    struct Sy<T>(T);
    unsafe impl<T> Sync for Sy<T> {}
    unsafe impl<T> Send for Sy<T> {}
    if spatial {
        let cs = r.pick(&[12usize, 16, 20, 24]);
        let vs = r.pick(&[12usize, 12, 16, 20, 32]);
        let ts = vs * 3 + r.pick(&[0usize, 0, 4, 12]);
        let (c, v) = quiet(|| {
            let mut c = vec![0.0f32; (n - 1) * cs / 4 + 3];
            let mut v = vec![0.0f32; ((n - 1) * ts + 2 * vs) / 4 + 3];
            for x in c.iter_mut() { *x = junk(&mut r); }
            for x in v.iter_mut() { *x = junk(&mut r); }
            for i in 0..n {
                let m = s.center(i);
                for k in 0..3 { c[i * cs / 4 + k] = m[k]; }
                let t = s.tri(i);
                for j in 0..3 { for k in 0..3 { v[(i * ts + j * vs) / 4 + k] = t[j][k]; } }
            }
            (c, v)
        });
        let (ca, va) = (Arr::floats(&c, r.pick(&[0usize, 4, 8])), Arr::floats(&v, r.pick(&[0usize, 4, 8])));
        quiet(|| { drop(c); drop(v); });
        let a = Sy((pa, ca.f(), va.f(), out));
        code = env.within(ctx, move || { let a = &a; unsafe { create_spatial_Bvh(a.0 .0, n, a.0 .1, cs, a.0 .2, vs, ts, leaf as u32, a.0 .3) } });
        ok = ca.untouched(0..0) && va.untouched(0..0);
    } else {
        let cs = r.pick(&[12usize, 16]);
        let c = quiet(|| { let mut c = vec![0.0f32; n * cs / 4]; for x in c.iter_mut() { *x = junk(&mut r); } for i in 0..n { let m = s.center(i); for k in 0..3 { c[i * cs / 4 + k] = m[k]; } } c });
        let ca = Arr::floats(&c, r.pick(&[0usize, 4, 8]));
        quiet(|| drop(c));
        let ty = if n > 500 { 1 } else { r.below(2) as u32 };
        let a = Sy((pa, ca.f(), out));
        code = env.within(ctx, move || { let a = &a; unsafe { create_bvh(a.0 .0, n, a.0 .1, cs, leaf, ty, a.0 .2) } });
        ok = ca.untouched(0..0);
    }
    // the caller's arrays are gone once the call has returned
    let ok = quiet(|| ok && ab.as_ref().map(|a| a.untouched(0..0)).unwrap_or(true));
    drop(ab);
    let rt = quiet(|| unsafe { *out });
    sim_heap(|| unsafe { drop(Box::from_raw(out)) });
    quiet(|| {
        count(19, 1);
        let what = || format!("tree of {} primitives created through the C interface (spatial {}, boxes {}, limit {})", n, spatial, boxes, leaf);
        if code != OK { viol("ffi", &format!("{}: result code {}", what(), code)); }
        if !ok { viol("ffi-trace", &format!("{}: the caller's arrays were written to", what())); }
        born(&mut g().live_b, rt.id, "tree");
        if rt.nodes.is_null() || rt.indices.is_null() || rt.node_count == 0 || rt.node_count > 1 << 20 || rt.index_count > 1 << 20 || rt.nodes as usize % 16 != 0 { viol("handle", &format!("{}: handle {:?}", what(), rt)); }
    });
    let sum = sum_b(&rt);
    quiet(|| {
        let what = || format!("tree of {} primitives created through the C interface (spatial {}, boxes {}, limit {})", n, spatial, boxes, leaf);
        let (nd, ix) = slice_b(&rt);
        let leaves = match structure(nd, ix, n, if spatial { Kind::Spatial } else { Kind::Exact }) { Ok(l) => l, Err(e) => viol("handle", &format!("{}: {}", what(), e)) };
        // whose tree is it? every box must lie where this caller's primitives are
        let pts: Vec<Aabb>;
        let want: &[Aabb] = if spatial { &[] } else if boxes == 0 { pts = (0..n).map(|i| { let c = s.center(i); let mut b = Aabb::empty(); b.grow(c); b }).collect(); &pts } else { &exact };
        let e = if spatial { enclosure_spatial(nd, ix, &leaves, s, s.scale() * 1e-5).map(|_| ()) } else { enclosure_exact(nd, ix, &leaves, want) };
        if let Err(e) = e { viol("handle", &format!("{}: {}", what(), e)); }
        let mut by = vec![Vec::new(); n];
        let mut refs = 0;
        for (i, x) in leaves.iter().enumerate() { for k in x.first..x.first + x.count { by[ix[k as usize] as usize].push(i); refs += 1; } }
        let base = Arc::new(Base { n, spatial, leaves, by, nodes: nd.to_vec(), idx: ix.to_vec(), refs, scene });
        // without boxes, create_bvh only knows points
        let shape = if !spatial && boxes == 0 { None } else { Some(shape_of(s, 15)) };
        H { rt, base, shape, spatial, sum, freed: false }
    })
}
/// version `v` of a scene: far away from every other version
fn moved(s: &Scene, v: u32) -> Scene {
    let mut o = s.clone();
    let d = (s.scale() * 16.0 + 64.0) as f32 * v as f32;
    for p in o.p.iter_mut() { for k in 0..3 { p[k * 3] += d; } }
    o
}
/// Is this the tree of version `v`? Every box on the way to a leaf encloses what is in the leaf and nothing reaches another version.
fn version_fits(base: &Base, boxes: &[Vec<(Vec3, Vec3)>], firsts: &[(usize, usize)], sh: &Shape) -> Result<(), String> {
    let mut all = Aabb::empty();
    for b in sh.boxes { all.grow_bb(b); }
    let slack = (sh.scene.scale() as f32) * 1e-3 + 0.02 + 1e-3 * base.leaves.len() as f32;
    for (path, (f, c)) in boxes.iter().zip(firsts) {
        for (d, (lo, hi)) in path.iter().enumerate() {
            for k in *f..f + c {
                let b = &sh.boxes[base.idx[k] as usize];
                for x in 0..3 { if !(lo[x] <= b.min[x] && hi[x] >= b.max[x]) { return Err(format!("box {:?}..{:?} at depth {} does not enclose primitive {} at {}", lo, hi, d, base.idx[k], show(b))); } }
            }
            for x in 0..3 { if lo[x] < all.min[x] - slack || hi[x] > all.max[x] + slack { return Err(format!("box {:?}..{:?} at depth {} reaches out of {}", lo, hi, d, show(&all))); } }
        }
    }
    Ok(())
}
fn paths_b(base: &Base, nd: &[BvhNode]) -> (Vec<Vec<(Vec3, Vec3)>>, Vec<(usize, usize)>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    for l in &base.leaves { if l.count == 0 { continue; } a.push(l.path.iter().map(|i| { let x = &nd[*i as usize].bounds; (x.min, x.max) }).collect()); b.push((l.first as usize, l.count as usize)); }
    (a, b)
}
fn paths_m(base: &Base, nd: &[MbvhNode], ix: &[u32]) -> Result<(Vec<Vec<(Vec3, Vec3)>>, Vec<(usize, usize)>), String> {
    if ix != &base.idx[..] { return Err("the indices are not those of the binary tree".into()); }
    let s = mbvh_leaves(nd, ix.len())?;
    let mut want: Vec<(usize, usize)> = base.leaves.iter().filter(|l| l.count > 0).map(|l| (l.first as usize, l.count as usize)).collect();
    let mut got: Vec<(usize, usize)> = s.iter().map(|x| (x.child as usize, x.count as usize)).collect();
    want.sort();
    let b = got.clone();
    got.sort();
    if want != got { return Err(format!("its leaves are {:?}, those of the binary tree {:?}", got, want)); }
    Ok((s.into_iter().map(|x| x.boxes).collect(), b))
}
fn which_version(slot: usize, base: &Base, p: &(Vec<Vec<(Vec3, Vec3)>>, Vec<(usize, usize)>), what: &str) -> u32 {
    let mut why = String::new();
    for (v, sh) in g().shapes[slot].iter().enumerate() {
        match version_fits(base, &p.0, &p.1, sh) { Ok(()) => return v as u32, Err(e) => why = format!("{}; version {}: {}", why, v, e) }
    }
    let mut m = why;
    m.truncate(700);
    viol("ffi", &format!("{} shows none of the states the tree ever had{}", what, m))
}

// ------------------------------------------------------------------ tracing
struct Nest { b: Option<RTBvh>, m: Option<RTMbvh>, o: [f32; 3], d: [f32; 3], every: usize, /// which of the four traces: binary, four-wide, and the same for packets
    kinds: u8, first: [u64; 4] }
struct User {
    lanes: usize, o: [Vec3; 4], d: [Vec3; 4], pol: [Policy; 4], tris: &'static [Tri], ids: Vec<usize>, left: [f32; 4], low: [f32; 4], k: usize,
    limit: usize, n: usize, stopped: bool, bad: Option<String>, calls: usize, nest: Option<Nest>, sleep: u64, stop: usize, any: bool, last: f32,
}
extern "C" fn nothing(_: u32, _: *mut f32, u: *mut c_void) -> bool { quiet(|| unsafe { *(u as *mut u64) += 1 }); false }
extern "C" fn callback(id: u32, t: *mut f32, user: *mut c_void) -> bool {
    let u = unsafe { &mut *(user as *mut User) };
    let mut seen = [0.0f32; 4];
    for l in 0..quiet(|| u.lanes) { seen[l] = unsafe { t.add(l).read_unaligned() }; }
    let (stop, nt, nest, sleep) = quiet(|| {
        u.calls += 1;
        if u.bad.is_some() { return (true, seen, false, 0); }
        if u.stopped { u.bad = Some("the callback was called again after it had asked to stop".into()); return (true, seen, false, 0); }
        for l in 0..u.lanes { if seen[l].to_bits() != u.left[l].to_bits() { u.bad = Some(format!("the callback is shown distance {} where it had left {}", seen[l], u.left[l])); return (true, seen, false, 0); } }
        if id as usize >= u.n { u.bad = Some(format!("primitive {} of {} was handed out", id, u.n)); return (true, seen, false, 0); }
        u.ids.push(id as usize);
        u.k += 1;
        if u.k > u.limit { u.bad = Some(format!("more than {} candidates were handed out", u.limit)); return (true, seen, false, 0); }
        let mut nt = seen;
        for l in 0..u.lanes {
            let h = if u.tris.is_empty() { None } else { u.tris[id as usize].hit(u.o[l].as_dvec3(), u.d[l].as_dvec3()) };
            nt[l] = next_bound(&u.pol[l], u.k, seen[l], h);
            u.left[l] = nt[l];
            if nt[l] < u.low[l] { u.low[l] = nt[l]; }
        }
        let hit = u.any && !u.tris.is_empty() && (0..u.lanes).any(|l| u.tris[id as usize].hit(u.o[l].as_dvec3(), u.d[l].as_dvec3()).is_some());
        let stop = hit || u.k >= u.stop || u.pol[0].kind == 4 && u.k >= u.pol[0].stop;
        // the last call may leave any distance
        if stop && u.last != 0.0 { for l in 0..u.lanes { nt[l] = u.last + l as f32; u.left[l] = nt[l]; } }
        u.stopped = stop;
        let nest = u.nest.as_ref().map(|n| u.k % n.every == 0).unwrap_or(false);
        (stop, nt, nest, if u.sleep > 0 && u.k as u64 % 3 == 0 { u.sleep } else { 0 })
    });
    for l in 0..quiet(|| u.lanes) { unsafe { t.add(l).write_unaligned(nt[l]); } }
    if sleep > 0 { std::thread::sleep(std::time::Duration::from_nanos(sleep)); }
    if nest {
        // a primitive that is itself a tree
        let n = quiet(|| u.nest.as_mut().unwrap() as *mut Nest);
        let n = unsafe { &mut *n };
        for k in 0..4 {
            if n.kinds & 1 << k == 0 { continue; }
            let mut t = [1e30f32; 4];
            let mut c = 0u64;
            let p = &mut c as *mut u64 as *mut c_void;
            let l = |x: f32| [x, x, x + 0.25, x - 0.5];
            let (o, d) = ([l(n.o[0]), l(n.o[1]), l(n.o[2])], n.d.map(|x| [x; 4]));
            let done = unsafe { match (k, n.b, n.m) {
                (0, Some(b), _) => Some(intersect(b, n.o.as_ptr(), n.d.as_ptr(), t.as_mut_ptr(), p, nothing)),
                (1, _, Some(m)) => Some(intersect_mbvh(m, n.o.as_ptr(), n.d.as_ptr(), t.as_mut_ptr(), p, nothing)),
                (2, Some(b), _) => Some(intersect_packet(b, o[0].as_ptr(), o[1].as_ptr(), o[2].as_ptr(), d[0].as_ptr(), d[1].as_ptr(), d[2].as_ptr(), t.as_mut_ptr(), p, nothing)),
                (3, _, Some(m)) => Some(intersect_mbvh_packet(m, o[0].as_ptr(), o[1].as_ptr(), o[2].as_ptr(), d[0].as_ptr(), d[1].as_ptr(), d[2].as_ptr(), t.as_mut_ptr(), p, nothing)),
                _ => None,
            } };
            quiet(|| {
                if done.is_none() || u.bad.is_some() { return; }
                count(30, 1);
                if done != Some(OK) { u.bad = Some(format!("a trace from inside the callback returned {:?}", done)); }
                else if t != [1e30; 4] { u.bad = Some(format!("a trace from inside the callback returned distances {:?} nobody left", t)); }
                else if n.first[k] == u64::MAX { n.first[k] = c; }
                else if n.first[k] != c { u.bad = Some(format!("the same trace from inside the callback handed out {} and then {} candidates", n.first[k], c)); }
            });
        }
    }
    stop
}
enum Hd { B(RTBvh), M(RTMbvh) }
struct Tgt<'a> { h: Hd, base: &'a Base, shape: Option<Arc<Shape>>, spatial: bool, nest: Option<(Option<RTBvh>, Option<RTMbvh>)> }
fn trace(tg: &Tgt, seed: u64) {
    let mut r = Rng::new(seed);
    let packet = r.chance(1, 2);
    let lanes = if packet { 4 } else { 1 };
    let (tris, scale): (&'static [Tri], f64) = quiet(|| match &tg.shape { Some(s) => (s.tris, s.scene.scale()), None => (&[][..], 10.0) });
    let mut u = quiet(|| {
        let mut u = User { lanes, o: [Vec3::ZERO; 4], d: [Vec3::ZERO; 4], pol: [Policy { kind: 0, init: 1e34, stop: usize::MAX, seed: 0 }; 4], tris, ids: vec![], left: [0.0; 4], low: [0.0; 4], k: 0, limit: tg.base.refs, n: tg.base.n, stopped: false, bad: None, calls: 0, nest: None, sleep: if r.chance(1, 4) { 1 + r.below(5000) as u64 } else { 0 }, stop: if r.chance(1, 5) { 1 + r.below(6) } else { usize::MAX }, any: r.chance(1, 8), last: if r.chance(1, 2) { 0.0 } else { r.s() * 100.0 } };
        let kind = r.pick(&[0u8, 1, 1, 1, 2, 3, 4, 5, 6]);
        for l in 0..lanes {
            let (o, d) = gen_ray(&mut r, tris, scale);
            u.o[l] = o;
            u.d[l] = d;
            if l > 0 && r.chance(1, 2) { u.o[l] = u.o[0] + vec3(r.s(), r.s(), r.s()) * (scale as f32 * 0.03); u.d[l] = u.d[0]; }
            let k = if l == 0 || kind == 4 || r.chance(1, 2) { kind } else { r.pick(&[0u8, 1, 2, 5]) };
            u.pol[l] = gen_policy(&mut r, k, scale);
            if k == 4 && u.pol[l].stop == 0 { u.pol[l].stop = 1; }
        }
        if let Some((b, m)) = tg.nest { if r.chance(1, 3) { let (o, d) = gen_ray::<Tri>(&mut r, &[], scale); u.nest = Some(Nest { b, m, o: o.to_array(), d: d.to_array(), every: 1 + r.below(4) + tg.base.refs / 400, kinds: r.pick(&[1u8, 2, 3, 4, 8, 12, 15]), first: [u64::MAX; 4] }); } }
        u
    });
    // NaN input is refused
    let nan = r.chance(1, 12);
    if nan { quiet(|| { let l = r.below(lanes); let k = r.below(3); if r.chance(1, 2) { u.o[l][k] = f32::NAN } else { u.d[l][k] = f32::NAN } }); }
    for l in 0..4 { u.left[l] = u.pol[l].init; u.low[l] = u.pol[l].init; }
    let offs = r.pick(&[0usize, 4, 8, 12]);
    let (t0, comp): (Vec<f32>, Vec<Arr>) = if packet {
        let f = |g: &dyn Fn(usize) -> f32| Arr::floats(&[g(0), g(1), g(2), g(3)], offs);
        let (o, d) = (u.o, u.d);
        let c = [f(&|l| o[l].x), f(&|l| o[l].y), f(&|l| o[l].z), f(&|l| d[l].x), f(&|l| d[l].y), f(&|l| d[l].z)];
        quiet(|| (u.left.to_vec(), c.into_iter().collect()))
    } else {
        let c = [Arr::floats(&u.o[0].to_array(), offs), Arr::floats(&u.d[0].to_array(), offs)];
        quiet(|| (vec![u.left[0]], c.into_iter().collect()))
    };
    let t = Arr::floats(&t0, offs);
    quiet(|| drop(t0));
    let up = &mut u as *mut User as *mut c_void;
    let c = |i: usize| quiet(|| comp[i].f()) as *const f32;
    let code = unsafe {
        match (&tg.h, packet) {
            (Hd::B(h), false) => intersect(*h, c(0), c(1), t.f(), up, callback),
            (Hd::M(h), false) => intersect_mbvh(*h, c(0), c(1), t.f(), up, callback),
            (Hd::B(h), true) => intersect_packet(*h, c(0), c(1), c(2), c(3), c(4), c(5), t.f(), up, callback),
            (Hd::M(h), true) => intersect_mbvh_packet(*h, c(0), c(1), c(2), c(3), c(4), c(5), t.f(), up, callback),
        }
    };
    quiet(|| {
        count(if packet { 14 } else { 9 }, 1);
        count(10, u.ids.len() as u64);
        let what = || format!("ray {:?} {:?} policies {:?} starting at {:?} through {} tree of {} primitives (spatial {}) via the C interface", &u.o[..lanes], &u.d[..lanes], &u.pol[..lanes].iter().map(|p| (p.kind, p.stop)).collect::<Vec<_>>(), &u.pol[..lanes].iter().map(|p| p.init).collect::<Vec<_>>(), match tg.h { Hd::B(_) => "binary", Hd::M(_) => "four-wide" }, tg.base.n, tg.spatial);
        if nan {
            if code != NAN { viol("ffi-trace", &format!("{}: result code {} for NaN", what(), code)); }
            if u.calls > 0 { viol("ffi-trace", &format!("{}: the callback was called", what())); }
        } else if code != OK { viol("ffi-trace", &format!("{}: result code {}", what(), code)); }
        if let Some(b) = &u.bad { viol("ffi-trace", &format!("{}: {}", what(), b)); }
        for l in 0..lanes { if t.get(l).to_bits() != u.left[l].to_bits() { viol("ffi-trace", &format!("{}: lane {} returns with distance {}, the last callback had left {}", what(), l, t.get(l), u.left[l])); } }
        if !t.untouched(0..lanes) || comp.iter().any(|a| !a.untouched(0..0)) { viol("ffi-trace", &format!("{}: memory that is not an output was written", what())); }
        let empty = match &tg.h { Hd::M(m) => m.node_count == 0, _ => false };
        if u.stopped { count(12, 1); return; }
        if nan || empty { return; }
        let sh = match &tg.shape { Some(s) => s, None => return };
        let seen: std::collections::HashSet<usize> = u.ids.iter().copied().collect();
        for l in 0..lanes {
            if !(0..lanes).all(|x| finite(u.o[x], u.d[x])) { continue; }
            let b = if tg.spatial { Bound::Paths(&tg.base.by, &tg.base.leaves) } else { Bound::Strict };
            let (sure, _) = must_see(sh.tris, u.o[l], u.d[l], u.low[l] as f64, &b, &tg.base.nodes);
            count(11, sure.len() as u64);
            for (i, x) in &sure { if !seen.contains(i) { viol("ffi-trace", &format!("{}: primitive {} is hit by lane {} at {} (smallest bound {}), but was not handed out ({} candidates)", what(), i, l, x, u.low[l], u.ids.len())); } }
            // the closest hit the caller keeps is the closest there is
            if u.pol[l].kind == 1 {
                count(29, 1);
                let best = sure.iter().map(|x| x.1).fold(f64::INFINITY, f64::min);
                if (t.get(l) as f64) > best * (1.0 + 1e-3) + 1e-6 { viol("ffi-trace", &format!("{}: lane {} ends with {}, primitive hit at {}", what(), l, t.get(l), best)); }
            }
        }
    });
    quiet(|| drop(comp_take(comp)));
    drop(t);
    quiet(|| drop(u));
}
fn comp_take(c: Vec<Arr>) -> Vec<Arr> { c }

// ------------------------------------------------------------------ operations
struct Me { ti: usize, b: Vec<H>, m: Vec<W> }
fn check_b(h: &H) {
    if quiet(|| h.freed) { return; }
    let s = sum_b(&h.rt);
    quiet(|| { count(28, 1); if s != h.sum { viol("handle", &format!("the arrays of tree {} have changed though nobody refitted or freed it", h.rt.id)); } });
}
fn check_m(w: &W) {
    if quiet(|| w.freed) { return; }
    let s = sum_m(&w.rt);
    quiet(|| { count(28, 1); if s != w.sum { viol("handle", &format!("the arrays of four-wide tree {} have changed though nobody freed it", w.rt.id)); } });
}
fn check_shared(s: &Shared) {
    let x = sum_b(&s.rt);
    quiet(|| { count(28, 1); if x != s.sum { viol("handle", &format!("the arrays of tree {} have changed though nobody refitted or freed it", s.rt.id)); } });
}
fn convert(rt: RTBvh) -> (u32, RTMbvh) {
    let out = sim_heap(|| Box::into_raw(Box::new(blankm())));
    let code = unsafe { create_mbvh(rt, out) };
    let m = quiet(|| unsafe { *out });
    sim_heap(|| unsafe { drop(Box::from_raw(out)) });
    quiet(|| { count(19, 1); count(15, 1); if code == OK { born(&mut g().live_m, m.id, "four-wide tree"); } });
    (code, m)
}
fn op(env: &'static Env, me: &mut Me, what: u8, a: usize, b: usize, seed: u64) {
    let ti = me.ti;
    match what {
        PRIV_CREATE => { let h = create(env, a, seed, None); quiet(|| me.b.push(h)); }
        SH_CREATE => {
            let slot = b % NSH;
            let h = create(env, a, seed, Some((slot, 0)));
            let s = quiet(|| {
                g().shapes[slot].push(h.shape.clone().unwrap());
                Shared { rt: h.rt, base: Arc::into_raw(h.base.clone()), shape: Box::leak(Box::new(h.shape.clone())), sum: h.sum }
            });
            quiet(|| std::mem::forget(h));
            *SLOTS[slot].lock().unwrap() = Some(s);
        }
        PRIV_CONVERT => {
            if me.b.is_empty() { return; }
            let k = b % me.b.len();
            if quiet(|| me.b[k].freed) { return; }
            let rt = me.b[k].rt;
            let (code, m) = convert(rt);
            quiet(|| if code != OK { viol("ffi", &format!("converting tree {} gives result code {}", rt.id, code)) });
            let sum = sum_m(&m);
            quiet(|| {
                let h = &me.b[k];
                let (nd, ix) = slice_m(&m);
                let (bn, bi) = slice_b(&h.rt);
                if let Err(e) = mbvh_matches_opt(nd, ix, bn, bi) { viol("ffi", &format!("four-wide tree made from tree {}: {}", rt.id, e)); }
                me.m.push(W { rt: m, base: h.base.clone(), shape: h.shape.clone(), spatial: h.spatial, sum, freed: false });
            });
        }
        SH_CONVERT => {
            let slot = b % NSH;
            let s = match *SLOTS[slot].lock().unwrap() { Some(s) => s, None => return };
            if quiet(|| slot % 2 == 0 && g().hist.iter().filter(|h| h.slot == slot).count() >= 12) { return; }
            let base = unsafe { &*s.base };
            let inv = quiet(tick);
            let (code, m) = convert(s.rt);
            let ret = quiet(tick);
            if code == OK {
                let sum = sum_m(&m);
                quiet(|| {
                    let (nd, ix) = slice_m(&m);
                    let none = mbvh_leaves(nd, ix.len()).map(|l| l.is_empty()).unwrap_or(false);
                    if none { g().hist.push(Rec { slot, ev: Ev::Convert(None), inv, ret, thread: ti }); me.m.push(W { rt: m, base: base_arc(&s), shape: None, spatial: false, sum, freed: false }); return; }
                    let p = match paths_m(base, nd, ix) { Ok(p) => p, Err(e) => viol("ffi", &format!("four-wide tree made from shared tree {}: {}", s.rt.id, e)) };
                    let v = which_version(slot, base, &p, &format!("the four-wide tree made from shared tree {}", s.rt.id));
                    g().hist.push(Rec { slot, ev: Ev::Convert(Some(v)), inv, ret, thread: ti });
                    me.m.push(W { rt: m, base: base_arc(&s), shape: Some(g().shapes[slot][v as usize].clone()), spatial: false, sum, freed: false });
                });
            } else { quiet(|| { if code != ERROR { viol("ffi", &format!("converting shared tree {} gives result code {}", s.rt.id, code)); } g().hist.push(Rec { slot, ev: Ev::Convert(None), inv, ret, thread: ti }) }); }
        }
        PRIV_REFIT => {
            if me.b.is_empty() { return; }
            let k = b % me.b.len();
            if quiet(|| me.b[k].freed) { return; }
            let mut r = Rng::new(seed);
            let sh = quiet(|| { let s = deform(&env.sc.scenes[me.b[k].base.scene], seed); shape_of(&s, 15) });
            let arr = boxes_array(sh.boxes, r.pick(&[0usize, 4, 8, 12]), &mut r);
            let rt = me.b[k].rt;
            let code = unsafe { refit(arr.v(), rt) };
            let clean = quiet(|| arr.untouched(0..0));
            drop(arr);
            let sum = sum_b(&rt);
            quiet(|| {
                count(19, 1); count(16, 1);
                let h = &mut me.b[k];
                if code != OK { viol("ffi", &format!("refitting tree {} gives result code {}", rt.id, code)); }
                if !clean { viol("ffi-trace", "a refit wrote to the caller's boxes"); }
                let (nd, ix) = slice_b(&rt);
                if ix != &h.base.idx[..] || nd.iter().zip(&h.base.nodes).any(|(a, b)| a.get_count_unchecked() != b.get_count_unchecked() || a.get_left_first_unchecked() != b.get_left_first_unchecked()) { viol("handle", &format!("refitting tree {} changed its shape", rt.id)); }
                if let Err(e) = enclosure_exact(nd, ix, &h.base.leaves, sh.boxes) { viol("handle", &format!("tree {} after its refit: {}", rt.id, e)); }
                h.sum = sum;
                h.shape = Some(sh.clone());
                h.spatial = false;
            });
            quiet(|| drop(sh));
        }
        SH_REFIT => {
            let slot = (b % NSH) & !1;
            let s = match *SLOTS[slot].lock().unwrap() { Some(s) => s, None => return };
            if quiet(|| g().hist.iter().filter(|h| h.slot == slot).count() >= 12) { return; }
            let (v, sh) = quiet(|| {
                let base = unsafe { &*s.base };
                let v = g().shapes[slot].len() as u32;
                let sh = shape_of(&moved(&env.sc.scenes[base.scene], v), 15);
                g().shapes[slot].push(sh.clone());
                (v, sh)
            });
            let mut r = Rng::new(seed);
            let arr = boxes_array(sh.boxes, r.pick(&[0usize, 4, 8, 12]), &mut r);
            let inv = quiet(tick);
            let code = unsafe { refit(arr.v(), s.rt) };
            let ret = quiet(tick);
            drop(arr);
            quiet(|| { count(19, 1); count(16, 1); g().hist.push(Rec { slot, ev: if code == OK { Ev::Refit(v) } else { Ev::Convert(None) }, inv, ret, thread: ti }); drop(sh); });
        }
        PRIV_TRACE => {
            let rays = 1 + (seed % 5) as usize;
            let nest = quiet(|| { let b = me.b.iter().find(|h| !h.freed).map(|h| h.rt); let m = me.m.iter().find(|w| !w.freed && w.rt.node_count > 0).map(|w| w.rt); if b.is_some() || m.is_some() { Some((b, m)) } else { None } });
            if seed & 64 == 0 || me.m.is_empty() {
                if me.b.is_empty() { return; }
                let k = b % me.b.len();
                if quiet(|| me.b[k].freed) { return; }
                let t = quiet(|| Tgt { h: Hd::B(me.b[k].rt), base: &me.b[k].base, shape: me.b[k].shape.clone(), spatial: me.b[k].spatial, nest });
                for i in 0..rays { trace(&t, mix(seed ^ i as u64)); }
                quiet(|| drop(t));
            } else {
                let k = b % me.m.len();
                if quiet(|| me.m[k].freed) { return; }
                let t = quiet(|| Tgt { h: Hd::M(me.m[k].rt), base: &me.m[k].base, shape: me.m[k].shape.clone(), spatial: me.m[k].spatial, nest });
                for i in 0..rays { trace(&t, mix(seed ^ i as u64)); }
                quiet(|| drop(t));
            }
        }
        SH_TRACE => {
            let slot = (b % NSH) | 1;
            let s = match *SLOTS[slot].lock().unwrap() { Some(s) => s, None => return };
            let rays = 1 + (seed % 4) as usize;
            let t = quiet(|| Tgt { h: Hd::B(s.rt), base: unsafe { &*s.base }, shape: unsafe { (*s.shape).clone() }, spatial: false, nest: Some((Some(s.rt), None)) });
            for i in 0..rays { trace(&t, mix(seed ^ i as u64)); }
            quiet(|| drop(t));
        }
        CHECK => {
            for h in &me.b { check_b(h); }
            for w in &me.m { check_m(w); }
            for slot in (1..NSH).step_by(2) { let s = *SLOTS[slot].lock().unwrap(); if let Some(s) = s { check_shared(&s); } }
        }
        PRIV_FREE | AGAIN => {
            let again = what == AGAIN;
            if seed & 1 == 0 || me.m.is_empty() {
                if me.b.is_empty() { return; }
                let k = b % me.b.len();
                if quiet(|| me.b[k].freed) != again { return; }
                if !again { check_b(&me.b[k]); quiet(|| { dies(&mut g().live_b, me.b[k].rt.id); me.b[k].freed = true; }); }
                unsafe { free_bvh(me.b[k].rt) };
            } else {
                let k = b % me.m.len();
                if quiet(|| me.m[k].freed) != again { return; }
                if !again { check_m(&me.m[k]); quiet(|| { dies(&mut g().live_m, me.m[k].rt.id); me.m[k].freed = true; }); }
                unsafe { free_mbvh(me.m[k].rt) };
            }
            count(19, 1);
        }
        SH_FREE => {
            let slot = (b % NSH) & !1;
            let s = match *SLOTS[slot].lock().unwrap() { Some(s) => s, None => return };
            if quiet(|| g().hist.iter().filter(|h| h.slot == slot).count() >= 12) { return; }
            let inv = quiet(|| { dies(&mut g().live_b, s.rt.id); tick() });
            unsafe { free_bvh(s.rt) };
            let ret = quiet(tick);
            count(19, 1);
            quiet(|| g().hist.push(Rec { slot, ev: Ev::Free, inv, ret, thread: ti }));
        }
        BAD => bad(me, seed),
        HERD => {
            count(31, 1);
            let mut r = Rng::new(seed);
            for i in 0..b {
                op(env, me, PRIV_CREATE, a, 0, r.next());
                if r.chance(1, 4) { op(env, me, PRIV_CONVERT, a, i, r.next()); }
                if r.chance(1, 16) { op(env, me, PRIV_FREE, a, r.below(1000), r.next()); }
            }
            for _ in 0..r.below(8) { op(env, me, PRIV_FREE, a, r.below(1000), r.next()); op(env, me, PRIV_CREATE, a, 0, r.next()); }
            op(env, me, CHECK, a, 0, 0);
        }
        _ => {}
    }
}
fn base_arc(s: &Shared) -> Arc<Base> { unsafe { Arc::increment_strong_count(s.base); Arc::from_raw(s.base) } }
/// input that has to be refused, and handles nobody ever got
fn bad(me: &mut Me, seed: u64) {
    let mut r = Rng::new(seed);
    let before = quiet(|| (g().live_b.len(), g().live_m.len()));
    let _ = before;
    let out = sim_heap(|| Box::into_raw(Box::new(blank())));
    let outm = sim_heap(|| Box::into_raw(Box::new(blankm())));
    let c = Arr::floats(&[1.0, 2.0, 3.0, 0.0], 0);
    let fake = RTBvh { id: r.pick(&[u32::MAX, 1 << 30, 5000]), node_count: 1, nodes: c.v(), index_count: 1, indices: c.v() as *const u32 };
    let fakem = RTMbvh { id: fake.id, node_count: 1, nodes: c.v(), index_count: 1, indices: c.v() as *const u32 };
    let k = r.below(9);
    let (code, want) = unsafe {
        match k {
            0 => (create_bvh(std::ptr::null(), 0, c.f(), 12, 1, 1, out), NO_PRIMS),
            1 => (create_bvh(std::ptr::null(), 1, std::ptr::null(), 16, 1, 0, out), ERROR),
            2 => (create_bvh(std::ptr::null(), 1, c.f(), 16, 1, 0, std::ptr::null_mut()), ERROR),
            3 => (create_mbvh(fake, outm), ERROR),
            4 => (create_mbvh(fake, std::ptr::null_mut()), ERROR),
            5 => { let b = Arr::floats(&[0.0; 8], 0); (refit(b.v(), fake), ERROR) }
            6 => { free_bvh(fake); (OK, OK) }
            7 => { free_mbvh(fakem); (OK, OK) }
            _ => (create_bvh(std::ptr::null(), 0, c.f(), 16, 0, 0, out), NO_PRIMS),
        }
    };
    quiet(|| {
        count(19, 1);
        if code != want { viol("ffi", &format!("refused call {} gives result code {} instead of {}", k, code, want)); }
        if !same_b(unsafe { &*out }, &blank()) || unsafe { (*outm).id } != blankm().id { viol("ffi", &format!("refused call {} wrote a handle", k)); }
    });
    sim_heap(|| unsafe { drop(Box::from_raw(out)); drop(Box::from_raw(outm)); });
    let _ = me;
}
fn thread(env: &'static Env, ti: usize) {
    let mut me = quiet(|| Me { ti, b: Vec::new(), m: Vec::new() });
    for o in &env.sc.threads[ti] {
        match o {
            Op::Ffi { what, a, b, seed } => op(env, &mut me, *what, *a, *b, *seed),
            Op::Sleep { us } => std::thread::sleep(std::time::Duration::from_micros(*us)),
            _ => {}
        }
    }
    for h in &me.b { check_b(h); }
    for w in &me.m { check_m(w); }
    quiet(|| unsafe { ENDS.push(Box::into_raw(Box::new(me)) as usize) });
}
/// a few handles made, used and freed again, the way a program does that loads and discards scenes
pub fn cycle(env: &'static Env, scene: usize, seed: u64) {
    let mut r = Rng::new(seed);
    let mut me = quiet(|| Me { ti: 98, b: Vec::new(), m: Vec::new() });
    for _ in 0..1 + r.below(3) {
        op(env, &mut me, PRIV_CREATE, scene, 0, r.next());
        for _ in 0..r.below(4) { let k = r.pick(&[PRIV_CONVERT, PRIV_CONVERT, PRIV_REFIT, PRIV_TRACE, BAD]); op(env, &mut me, k, scene, r.below(8), r.next()); }
        if r.chance(1, 3) { op(env, &mut me, PRIV_FREE, scene, r.below(8), r.next()); }
    }
    let last = r.chance(1, 2);
    if last { for w in me.m.iter_mut() { if !w.freed { unsafe { free_mbvh(w.rt) }; } quiet(|| dies(&mut g().live_m, w.rt.id)); w.freed = true; } }
    for h in me.b.iter_mut() { if !h.freed { unsafe { free_bvh(h.rt) }; } quiet(|| dies(&mut g().live_b, h.rt.id)); h.freed = true; }
    for w in me.m.iter_mut() { if !w.freed { unsafe { free_mbvh(w.rt) }; quiet(|| dies(&mut g().live_m, w.rt.id)); } w.freed = true; }
    if r.chance(1, 4) { for h in &me.b { unsafe { free_bvh(h.rt) } } }
    quiet(|| drop(me));
}
static mut ENDS: Vec<usize> = Vec::new();
/// handles several threads use, and one of them frees while the others may be in the middle of something
struct Common { rt: RTBvh, scene: usize, freed: bool }
static mut COMMON: Vec<Common> = Vec::new();
pub fn share(env: &'static Env, scene: usize, k: usize, seed: u64) {
    for i in 0..k {
        let h = create(env, scene, mix(seed ^ i as u64), None);
        quiet(|| unsafe { COMMON.push(Common { rt: h.rt, scene, freed: false }); drop(h) });
    }
}
pub fn shared(env: &'static Env, seed: u64) {
    let mut r = Rng::new(seed);
    for _ in 0..1 + r.below(3) {
        if unsafe { COMMON.is_empty() } { return; }
        let k = r.below(unsafe { COMMON.len() });
        let (rt, scene) = unsafe { (COMMON[k].rt, COMMON[k].scene) };
        match r.below(6) {
            0..=2 => { let (code, m) = convert(rt); if code == OK { if r.chance(1, 2) { let _ = sum_m(&m); } unsafe { free_mbvh(m) }; quiet(|| dies(&mut g().live_m, m.id)); } }
            3 => {
                let boxes = quiet(|| deform(env.scene(scene), seed).aabbs());
                let arr = boxes_array(&boxes, 0, &mut r);
                quiet(|| drop(boxes));
                let _ = unsafe { refit(arr.v(), rt) };
                drop(arr);
            }
            _ => { if quiet(|| unsafe { let f = &mut COMMON[k].freed; if !*f { dies(&mut g().live_b, rt.id); } std::mem::replace(f, true) }) { continue; } unsafe { free_bvh(rt) } }
        }
    }
}
pub fn unshare() {
    while let Some(c) = quiet(|| unsafe { COMMON.pop() }) { if !c.freed { quiet(|| dies(&mut g().live_b, c.rt.id)); unsafe { free_bvh(c.rt) } } }
}

// ------------------------------------------------------------------ linearizability of one shared tree
fn linear(h: &[&Rec]) -> bool {
    // state: Some(version) or None once freed
    fn step(ev: Ev, s: Option<u32>) -> Option<Option<u32>> {
        match (ev, s) {
            (Ev::Refit(v), Some(_)) => Some(Some(v)),
            (Ev::Refit(_), None) => Some(None),
            (Ev::Convert(Some(v)), Some(w)) => if v == w { Some(s) } else { None },
            (Ev::Convert(Some(_)), None) => None,
            (Ev::Convert(None), None) => Some(None),
            (Ev::Convert(None), Some(_)) => None,
            (Ev::Free, _) => Some(None),
            (Ev::See(v), Some(w)) => if v == w { Some(s) } else { None },
            (Ev::See(_), None) => None,
        }
    }
    let n = h.len();
    let mut seen = std::collections::HashSet::new();
    let mut stack = vec![(0u32, Some(0u32))];
    while let Some((done, s)) = stack.pop() {
        if done == (1u32 << n) - 1 { return true; }
        if !seen.insert((done, s)) { continue; }
        let first_ret = (0..n).filter(|i| done >> i & 1 == 0).map(|i| h[i].ret).min().unwrap();
        for i in 0..n { if done >> i & 1 == 0 && h[i].inv < first_ret { if let Some(s2) = step(h[i].ev, s) { stack.push((done | 1 << i, s2)); } } }
    }
    false
}
pub fn run(sc: &'static Scenario) {
    let env: &'static Env = setup(sc);
    let mut me = quiet(|| Me { ti: 99, b: Vec::new(), m: Vec::new() });
    for s in &sc.trees { op(env, &mut me, SH_CREATE, s.scene, s.ctx as usize, mix(sc.seed ^ s.ctx as u64)); }
    let est: u64 = sc.threads.iter().flatten().map(|o| match o { Op::Ffi { what, a, .. } => { let n = sc.scenes[*a].n() as u64; match *what { 0 | 1 => 4000 + 3000 * n, HERD => 900_000, 6 | 7 => 10000, _ => 500 + 200 * n } } _ => 100 }).sum::<u64>() + 2000;
    run_threads(env, est, est * 100 + 250_000_000, thread);
    // everything not freed is as it was left; then all of it is freed
    for slot in 0..NSH {
        let s = match *SLOTS[slot].lock().unwrap() { Some(s) => s, None => continue };
        let freed = quiet(|| g().hist.iter().any(|h| h.slot == slot && h.ev == Ev::Free));
        if slot % 2 == 1 { check_shared(&s); }
        else if !freed {
            let _ = sum_b(&s.rt);
            quiet(|| {
                let base = unsafe { &*s.base };
                let (nd, ix) = slice_b(&s.rt);
                if ix != &base.idx[..] || nd.iter().zip(&base.nodes).any(|(a, b)| a.get_count_unchecked() != b.get_count_unchecked() || a.get_left_first_unchecked() != b.get_left_first_unchecked()) { viol("handle", &format!("shared tree {} changed its shape", s.rt.id)); }
                let p = paths_b(base, nd);
                let v = which_version(slot, base, &p, &format!("shared tree {} after all calls have returned", s.rt.id));
                let t = tick();
                g().hist.push(Rec { slot, ev: Ev::See(v), inv: t, ret: t + 1, thread: 99 });
                tick();
            });
        }
        quiet(|| {
            let h: Vec<&Rec> = g().hist.iter().filter(|h| h.slot == slot).collect();
            // concurrent conversions may exceed the cap by the number of threads
            if h.len() > 20 { return; }
            count(27, 1);
            if !linear(&h) { viol("ffi", &format!("calls on shared tree {} cannot be put into any order that explains their results: {}", s.rt.id, h.iter().map(|r| format!("thread {} {:?} from {} to {}", r.thread, r.ev, r.inv, r.ret)).collect::<Vec<_>>().join("; "))); }
        });
    }
    let ends: Vec<usize> = quiet(|| unsafe { ENDS.clone() });
    for e in quiet(|| ends.clone()) {
        let me = unsafe { &mut *(e as *mut Me) };
        // a few more handles while the old ones are watched
        for h in &me.b { check_b(h); }
        for w in &me.m { check_m(w); }
        for h in me.b.iter_mut() { if !h.freed { unsafe { free_bvh(h.rt) }; h.freed = true; } }
        for w in &me.m { check_m(w); }
        for w in me.m.iter_mut() { if !w.freed { unsafe { free_mbvh(w.rt) }; w.freed = true; } }
    }
    let _ = (&g().busy, &g().versions);
}
