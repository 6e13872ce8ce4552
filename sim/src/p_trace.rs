//! T01, T02, M01, R01: traversals, conversions and refits of shared trees by many threads.
use crate::env::*;
use crate::geom::*;
use crate::oracle::*;
use crate::p_build::*;
use crate::rng::*;
use crate::rt::*;
use crate::scen::*;
use crate::tree::*;
use glam::*;
use rayon::prelude::*;
use rtbvh::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, RwLock};

// ------------------------------------------------------------------ generation
pub fn generate(prof: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let mut sc = Scenario { seed, ..Default::default() };
    // now and then a tree well beyond any size the library could treat specially
    let huge = r.chance(1, 60);
    // and trees as deep as they get
    let deep = !huge && r.chance(1, 16);
    // or with numbers beyond sixteen bits: of primitives (crowds of identical ones), or of nodes as well
    let crowd = !huge && !deep && r.chance(1, 700);
    let vast = huge && r.chance(1, 25);
    // or a long history of a small tree
    let long = !huge && !deep && !crowd && r.chance(1, 60);
    // or more readers than anything per thread could be numbered for
    let many = !huge && !deep && !crowd && !long && r.chance(1, 60);
    let ns = if huge || deep || crowd || long { 1 } else { r.pick(&[1usize, 1, 2, 2, 3]) };
    let big = r.chance(1, 12);
    for _ in 0..ns {
        let n = if vast { r.range(34_000, 36_000) } else if huge { { let k = if r.chance(1, 4) { 9000 } else { 4000 }; r.range(1030, k) } } else if long { r.range(1, 14) } else if many { r.range(1, 60) } else { match r.below(20) { 0 => 1, 1 => 2, 2 => 3, 3..=5 => r.range(4, 9), 6..=12 => r.range(10, 60), 13..=17 => r.range(60, 200), _ => if big { r.range(500, 1000) } else { r.range(200, 400) } } };
        let s = if deep { let n = r.range(50, 140); gen_deep(&mut r, n) } else if crowd { gen_crowd(&mut r, true) } else { gen_scene(&mut r, n, true) };
        sc.scenes.push(s);
    }
    let nt = if huge || crowd || long { 1 } else { r.pick(&[1usize, 1, 2, 2, 3]) };
    for k in 0..nt {
        let i = if k < ns { k } else { r.below(ns) };
        let s = sc.scenes[i].clone();
        let mut q = gen_spec(&mut r, i, &s, 0);
        q.ctx = -1;
        // what is fast enough to be made large
        if huge && (q.algo == 1 && s.n() > 1600 || q.algo == 2 && s.n() > 3500) { q.algo = 0; }
        if crowd { q.algo = 0; }
        if vast { q.leaf = 1; }
        if deep { if q.algo == 2 { q.algo = 0; } q.leaf = 1; }
        sc.trees.push(q);
    }
    if r.chance(1, 3) { sc.pools.push(r.pick(&[1usize, 2, 3, 4])); }
    let np = sc.pools.len();
    let nthreads = if vast || crowd { 1 } else if many { r.range(9, 70) } else { r.pick(&[1usize, 2, 2, 3, 3, 4]) }.max(if prof == "C05" { 2 } else { 1 });
    for _ in 0..nthreads {
        let nops = if vast || crowd { 2 } else if many { r.range(1, 2) } else if long { r.range(20, 150) } else { match prof { "R01" | "M01" => r.range(2, 7), _ => r.range(1, 4) } };
        let mut v = Vec::new();
        if deep { v.push(Op::Refit { tree: 0, seed: loop { let s = r.next(); if Rng::new(s).below(10) >= 8 { break s; } }, cut: 0 }); }
        for _ in 0..nops {
            let tree = r.below(nt);
            let ctx = if np > 0 && r.chance(1, 4) { 0 } else { -1 };
            let tr = |r: &mut Rng, rays: usize| Op::Trace { tree, how: r.below(16) as u8, policy: r.below(7) as u8, seed: r.next(), rays, ctx };
            let pk = |r: &mut Rng, rays: usize| Op::Packet { tree, how: r.below(16) as u8, policy: r.below(7) as u8, seed: r.next(), rays, ctx };
            let cv = |r: &mut Rng| { let tree = if prof != "M01" && r.chance(1, 8) { usize::MAX } else { tree }; Op::Convert { tree, raw: r.pick(&[0u8, 0, 1, 1, 2, 3]), ctx } };
            let rf = |r: &mut Rng, sc: &Scenario| { let n = sc.scenes[sc.trees[tree].scene].n(); Op::Refit { tree, seed: r.next(), cut: if r.chance(1, 3) { 1 + r.below(n) } else { 0 } } };
            let bd = |r: &mut Rng, sc: &Scenario| { let i = r.below(sc.scenes.len()); Op::Build(gen_spec(r, i, &sc.scenes[i], np)) };
            let x = r.below(20);
            v.push(match prof {
                "T01" => match x { 0..=13 => { let k = r.range(4, 24); tr(&mut r, k) } 14..=15 => cv(&mut r), 16..=17 => rf(&mut r, &sc), 18 => pk(&mut r, 2), _ => if sc.scenes.iter().all(|s| s.n() < 120) { bd(&mut r, &sc) } else { cv(&mut r) } },
                "T02" => match x { 0..=13 => { let k = r.range(2, 16); pk(&mut r, k) } 14..=15 => cv(&mut r), 16..=17 => rf(&mut r, &sc), 18 => tr(&mut r, 2), _ => if sc.scenes.iter().all(|s| s.n() < 120) { bd(&mut r, &sc) } else { cv(&mut r) } },
                "C05" => match x { 0..=6 => { let k = r.range(2, 12); tr(&mut r, k) } 7..=10 => { let k = r.range(1, 6); pk(&mut r, k) } 11..=16 => cv(&mut r), 17 => rf(&mut r, &sc), _ => if sc.scenes.iter().all(|s| s.n() < 120) { bd(&mut r, &sc) } else { cv(&mut r) } },
                "M01" => match x { 0..=9 => cv(&mut r), 10..=14 => rf(&mut r, &sc), 15 => Op::Convert { tree: usize::MAX, raw: 0, ctx: -1 }, 16..=17 => tr(&mut r, 2), 18 => pk(&mut r, 1), _ => Op::Sleep { us: r.below(2000) as u64 } },
                _ => match x { 0..=9 => rf(&mut r, &sc), 10..=11 => cv(&mut r), 12..=16 => tr(&mut r, 4), 17 => pk(&mut r, 2), 18 => Op::Sleep { us: r.below(2000) as u64 }, _ => cv(&mut r) },
            });
        }
        sc.threads.push(v);
    }
    // four-wide trees made by someone else and handed to other threads
    sc.threshold = gen_threshold(&mut r, 64);
    sc.cfg = gen_cfg(&mut r, false);
    sc
}

// ------------------------------------------------------------------ shared state
/// the primitives and boxes a tree currently stands for
pub struct Shape { pub tris: &'static [Tri], pub balls: &'static [Ball], pub boxes: &'static [Aabb], pub scene: &'static Scene }
pub struct Wide { pub m: Arc<Mbvh>, pub shape: Option<Arc<Shape>>, pub spatial: bool, pub sum: u64 }
pub struct State {
    pub bvh: Bvh,
    /// None after an interrupted refit: the boxes are then a mixture
    pub shape: Option<Arc<Shape>>,
    /// still the clipped boxes of the spatial builder
    pub spatial: bool,
    pub wide: Option<Arc<Wide>>,
}
pub struct Obj { pub spec: Spec, pub lock: RwLock<State>, pub orig: Bvh, pub leaves: Vec<Leaf>, pub by: Vec<Vec<usize>>, pub refs: usize, pub set: usize }
struct Glob { objs: Vec<Obj>, wides: std::sync::Mutex<Vec<Arc<Wide>>>, wsnap: std::sync::Mutex<Vec<(usize, u64)>> }
static mut G: *const Glob = std::ptr::null();
fn glob() -> &'static Glob { unsafe { &*G } }

/// where the primitives of a scene are after a refit
pub fn deform(s: &Scene, seed: u64) -> Scene {
    let mut r = Rng::new(seed);
    let mut o = s.clone();
    let sc = s.scale() as f32;
    let kind = r.below(10);
    let kind = if s.n() > 600 { kind % 8 } else { kind };
    let shift = vec3(r.s(), r.s(), r.s()) * sc;
    let f = r.pick(&[0.5f32, 2.0, 1.0, 10.0]);
    // 8, 9: everything on one spot, so that a ray meets all boxes and as many nodes as can be wait to be visited
    let gs = r.pick(&[1.0f32, 1.0, 20.0]);
    let gather = vec3(r.s(), r.s(), r.s()) * gs * r.pick(&[1.0f32, 10.0]);
    let n = o.p.len();
    let pts = if s.ball { 1 } else { 3 };
    for i in 0..n {
        let per = vec3(r.s(), r.s(), r.s()) * if kind >= 8 { 1.0 } else { sc * 0.2 };
        let mid = s.center(i);
        for k in 0..pts {
            let p = vec3(s.p[i][k * 3], s.p[i][k * 3 + 1], s.p[i][k * 3 + 2]);
            let q = match kind { 8 | 9 if s.ball => gather + per * 0.1 * gs, 8 | 9 => gather + per * 0.1 * gs + (p - mid).normalize_or_zero() * gs, 0 => p, 1 => p + shift, 2 => p * f, 3 => p + per, 4 => p + per * 5.0, 5 => vec3(-p.x, p.z, p.y), 6 => vec3(p.x, p.y, shift.z), _ => p };
            o.p[i][k * 3] = q.x;
            o.p[i][k * 3 + 1] = q.y;
            o.p[i][k * 3 + 2] = q.z;
        }
        if s.ball && kind == 2 { o.p[i][3] = s.p[i][3] * f; } else if s.ball && kind >= 8 { o.p[i][3] = gs; } else if s.ball { o.p[i][3] = s.p[i][3]; }
    }
    if kind == 7 { for i in (1..n).rev() { let j = r.below(i + 1); o.p.swap(i, j); } }
    o
}
fn leak<T>(v: Vec<T>) -> &'static [T] { Box::leak(v.into_boxed_slice()) }
pub fn shape_of(s: &Scene, set: u32) -> Arc<Shape> {
    let (t, b, x) = quiet(|| (if s.ball { vec![] } else { s.tris(set) }, if s.ball { s.balls(set) } else { vec![] }, s.aabbs()));
    let (t, b, x) = sim_heap(|| (leak(t.to_vec()), leak(b.to_vec()), leak(x.to_vec())));
    quiet(|| Arc::new(Shape { tris: t, balls: b, boxes: x, scene: Box::leak(Box::new(s.clone())) }))
}
pub fn hash_nodes(n: &[BvhNode], i: &[u32]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    let mut put = |v: u32| { h = (h ^ v as u64).wrapping_mul(0x100000001b3); h ^= h >> 29; };
    for x in n { for k in 0..3 { put(x.bounds.min[k].to_bits()); put(x.bounds.max[k].to_bits()); } put(x.get_left_first_unchecked() as u32); put(x.get_count_unchecked() as u32); }
    for x in i { put(*x); }
    h
}
pub fn hash_wide(m: &Mbvh) -> u64 {
    let mut h = hash_nodes(m.nodes(), m.indices());
    for x in m.quad_nodes() {
        let (a, b, c) = x.min_points();
        let (d, e, f) = x.max_points();
        for v in [a, b, c, d, e, f] { for k in 0..4 { h = (h ^ v[k].to_bits() as u64).wrapping_mul(0x100000001b3); } }
        for k in 0..4 { h = (h ^ x.children[k] as u32 as u64).wrapping_mul(0x100000001b3); h = (h ^ x.counts[k] as u32 as u64).wrapping_mul(0x100000001b3); h ^= h >> 29; }
    }
    h
}

// ------------------------------------------------------------------ one ray
pub enum Bound<'a> { Strict, Paths(&'a [Vec<usize>], &'a [Leaf]) }
/// all hits a traversal has to offer when no bound smaller than `bound` was ever left in the ray
pub fn must_see<P: Prim>(prims: &[P], o: Vec3, d: Vec3, bound: f64, b: &Bound, nodes: &[BvhNode]) -> (Vec<(usize, f64)>, Vec<(usize, f64)>) {
    let (o, d) = (o.as_dvec3(), d.as_dvec3());
    let mut sure = Vec::new();
    let mut maybe = Vec::new();
    for (i, p) in prims.iter().enumerate() {
        let t = match p.hit(o, d) { Some(t) if t > 1e-3 && t < bound * (1.0 - 1e-4) && t < 1e30 => t, _ => continue };
        match b {
            Bound::Strict => if robust_box(&p.bb(), o, d, t) { sure.push((i, t)); },
            Bound::Paths(by, leaves) => {
                let ok = by[i].iter().any(|li| leaves[*li].path.iter().all(|nd| robust_box(&nodes[*nd as usize].bounds, o, d, t)));
                if ok { sure.push((i, t)); } else if robust_box(&p.bb(), o, d, t) { maybe.push((i, t)); }
            }
        }
    }
    (sure, maybe)
}
pub fn gen_ray<P: Prim>(r: &mut Rng, prims: &[P], scale: f64) -> (Vec3, Vec3) {
    let axis = |r: &mut Rng| { let mut v = [0.0f64; 3]; v[r.below(3)] = if r.chance(1, 2) { 1.0 } else { -1.0 }; DVec3::from(v) };
    let any = |r: &mut Rng| loop { let v = DVec3::new(r.d() * 2.0 - 1.0, r.d() * 2.0 - 1.0, r.d() * 2.0 - 1.0); if v.length() > 0.1 { break v.normalize(); } };
    let mut d = match r.below(10) {
        0..=4 => any(r),
        5 => axis(r),
        6 => { let mut v = any(r); v[r.below(3)] = 0.0; v }
        7 => { let mut v = any(r); v[r.below(3)] *= 1e-5; v }
        8 => { let mut v = any(r); let k = r.below(3); v[k] *= 1e-7; v[(k + 1) % 3] *= 1e-3; v }
        _ => axis(r) + any(r) * 1e-2,
    };
    let target = if prims.is_empty() || r.chance(1, 12) { any(r) * scale * r.d() } else { let p = &prims[r.below(prims.len())]; p.sample(r.d(), r.d()) };
    // towards the surface rather than along it, every other time
    let dist = match r.below(6) { 0 => scale * 1e-2, 1 => scale * 10.0, 2 => scale * 0.3, _ => scale * (0.5 + 2.0 * r.d()) };
    let o = target - d * dist;
    if r.chance(1, 3) { d *= 10f64.powf(r.d() * 6.0 - 3.0); }
    let mut df = d.as_vec3();
    for k in 0..3 { if df[k] == 0.0 && r.chance(1, 2) { df[k] = -0.0; } }
    (o.as_vec3(), df)
}

#[derive(Clone, Copy)]
pub struct Policy { pub kind: u8, pub init: f32, pub stop: usize, pub seed: u64 }
/// 0 bound never touched, 1 closest hit, 2 random shrinking, 3 set to nothing at some point, 4 abandon, 5 small initial bound, 6 initial bound and closest
pub fn gen_policy(r: &mut Rng, kind: u8, scale: f64) -> Policy {
    let mut p = Policy { kind, init: 1e34, stop: usize::MAX, seed: r.next() };
    match kind {
        3 => p.stop = r.small(0, 40),
        4 => p.stop = r.small(1, 30),
        5 | 6 => p.init = match r.below(8) { 0 => 0.0, 1 => -1.0, 2 => f32::INFINITY, 3 => f32::MIN_POSITIVE, _ => (scale * (r.d() * 3.0)) as f32 },
        _ => {}
    }
    p
}
/// new distance bound after candidate number `k`, with `t` the exact distance of the candidate if it is hit
pub fn next_bound(p: &Policy, k: usize, cur: f32, t: Option<f64>) -> f32 {
    match p.kind {
        1 | 6 => match t { Some(t) if t > 1e-3 && (t as f32) < cur => t as f32, _ => cur },
        2 => { let h = mix(p.seed ^ k as u64); if h % 3 == 0 { let f = ((h >> 20) % 1000) as f32 / 1000.0; if cur > 1e30 { match t { Some(t) => (t as f32) * (1.0 + f), None => cur } } else { cur * (0.5 + 0.5 * f) } } else { cur } }
        3 => if k == p.stop { if p.seed & 1 == 0 { 0.0 } else { -1.0 } } else { cur },
        _ => cur,
    }
}
struct Res { ids: Vec<usize>, bound: f32, abandoned: bool }
fn drive<'r>(mut it: impl Iterator<Item = (Option<usize>, &'r mut Ray)>, p: &Policy, limit: usize, o: Vec3, d: Vec3, hit: &dyn Fn(usize) -> Option<f64>, start: f32, within: &dyn Fn(usize)) -> Result<Res, String> {
    let mut res = quiet(|| Res { ids: Vec::new(), bound: start, abandoned: false });
    let mut k = 0usize;
    if p.kind == 4 && p.stop == 0 { res.abandoned = true; return Ok(res); }
    loop {
        let (id, ray) = match it.next() { Some(x) => x, None => break };
        let e = quiet(|| {
            let id = match id { Some(i) => i, None => return Err("something that is not a primitive of the tree was handed out".to_string()) };
            res.ids.push(id);
            k += 1;
            if res.ids.len() > limit { return Err(format!("{} candidates were handed out by a tree of {} references", res.ids.len(), limit)); }
            if ray.origin.to_array().map(f32::to_bits) != o.to_array().map(f32::to_bits) || ray.direction.to_array().map(f32::to_bits) != d.to_array().map(f32::to_bits) { return Err("the ray handed to the caller is not the caller's ray".into()); }
            let nb = next_bound(p, k, ray.t, hit(id));
            if nb < res.bound { res.bound = nb; }
            Ok(nb)
        })?;
        ray.t = e;
        within(k);
        if p.kind == 4 && k >= p.stop { res.abandoned = true; break; }
    }
    Ok(res)
}
macro_rules! candidates {
    ($how:expr, $ray:expr, $bvh:expr, $wide:expr, $prims:expr, $P:ty, $B:ident, $BI:ident, $M:ident, $MI:ident, $T:ident, $TI:ident, $Tr:ident, $TrI:ident, $f:expr) => {{
        let base = $prims.as_ptr() as usize;
        let n = $prims.len();
        let idx = move |p: &$P| { let a = p as *const $P as usize; let o = a.wrapping_sub(base); if o % std::mem::size_of::<$P>() == 0 && o / std::mem::size_of::<$P>() < n { Some(o / std::mem::size_of::<$P>()) } else { None } };
        let iid = move |i: u32| if (i as usize) < n { Some(i as usize) } else { None };
        // bit 0: indices instead of primitives, bit 1: four-wide, bits 2 and 3: which way the iterator is obtained
        match $how {
            0 => $f($B::new($ray, $bvh, $prims).map(|(p, r)| (idx(p), r))),
            1 => $f($BI::new($ray, $bvh).map(|(i, r)| (iid(i), r))),
            2 => $f($M::new($ray, $wide.unwrap(), $prims).map(|(p, r)| (idx(p), r))),
            3 => $f($MI::new($ray, $wide.unwrap()).map(|(i, r)| (iid(i), r))),
            4 => $f($B::from_slices($ray, $bvh.nodes(), $bvh.indices(), $prims).map(|(p, r)| (idx(p), r))),
            5 => $f($BI::from_slices($ray, $bvh.nodes(), $bvh.indices()).map(|(i, r)| (iid(i), r))),
            6 => $f($M::from_slices($ray, $wide.unwrap().quad_nodes(), $wide.unwrap().indices(), $prims).map(|(p, r)| (idx(p), r))),
            7 => $f($MI::from_slices($ray, $wide.unwrap().quad_nodes(), $wide.unwrap().indices()).map(|(i, r)| (iid(i), r))),
            8 => $f($bvh.$T($ray, $prims).map(|(p, r)| (idx(p), r))),
            9 => $f($bvh.$TI($ray).map(|(i, r)| (iid(i), r))),
            10 => $f($wide.unwrap().$T($ray, $prims).map(|(p, r)| (idx(p), r))),
            11 => $f($wide.unwrap().$TI($ray).map(|(i, r)| (iid(i), r))),
            12 => $f($Tr::iter($bvh, $ray, $prims).map(|(p, r)| (idx(p), r))),
            13 => $f($TrI::iter($bvh, $ray).map(|(i, r)| (iid(i), r))),
            14 => $f($Tr::iter($wide.unwrap(), $ray, $prims).map(|(p, r)| (idx(p), r))),
            _ => $f($TrI::iter($wide.unwrap(), $ray).map(|(i, r)| (iid(i), r))),
        }
    }};
}
pub struct Target<'a> { pub bvh: &'a Bvh, pub wide: Option<&'a Mbvh>, pub both: bool, pub nodes: &'a [BvhNode], pub bound: Bound<'a>, pub ok: bool, pub refs: usize, pub scale: f64, pub tag: &'static str, pub what: String }
/// A caller may trace a secondary ray from within the loop over the candidates of the first one, on the same thread,
/// through the same tree, to the end or not.
fn nested<P: Prim>(tg: &Target, prims: &'static [P], how: u8, seed: u64, depth: u32, k: usize) {
    let h = mix(seed ^ 0x6e65_7374);
    if depth >= 2 || h % 5 != 0 || k != 1 + (h >> 8) as usize % 6 { return; }
    count(30, 1);
    let s = mix(h);
    let wide = if tg.both { (s >> 44) as u8 & 2 } else { how & 2 };
    let how = wide | (s >> 40) as u8 & 13;
    let policy = ((s >> 50) % 7) as u8;
    if (s >> 60) & 1 == 0 { one_ray(tg, prims, how, policy, s, depth + 1) } else { one_packet(tg, prims, how, policy, s, depth + 1) }
}
/// the caller's slice may lack primitives of the tree (those at its end): the others are still handed out
fn part<P>(prims: &'static [P], how: u8, seed: u64) -> &'static [P] {
    let h = mix(seed ^ 0x7061_7274);
    if how & 1 != 0 || h % 12 != 0 { return prims; }
    count(32, 1);
    &prims[..(h >> 8) as usize % (prims.len() + 1)]
}
pub fn one_ray<P: Prim>(tg: &Target, all: &'static [P], how: u8, policy: u8, seed: u64, depth: u32) {
    let prims = part(all, how, seed);
    let (o, d, pol) = quiet(|| { let mut r = Rng::new(seed); let (o, d) = gen_ray(&mut r, all, tg.scale); let p = gen_policy(&mut r, policy, tg.scale); (o, d, p) });
    let go = |o: Vec3, d: Vec3, pol: &Policy, within: &dyn Fn(usize)| -> Result<Res, String> {
        let mut ray = Ray::new(o, d);
        ray.t = pol.init;
        let hit = |i: usize| quiet(|| prims[i].hit(o.as_dvec3(), d.as_dvec3()));
        let res = candidates!(how, &mut ray, tg.bvh, tg.wide, prims, P, BvhIterator, BvhIndexIterator, MbvhIterator, MbvhIndexIterator, traverse_iter, traverse_iter_indices, IntoRayIterator, IntoRayIndexIterator, |it| drive(it, pol, tg.refs, o, d, &hit, pol.init, within));
        quiet(|| res)
    };
    let res = go(o, d, &pol, &|k| nested(tg, all, how, seed, depth, k));
    quiet(|| {
        count(9, 1);
        let what = || format!("ray {:?} {:?} policy {:?}/{} through {} (iterator {})", o, d, pol.kind, pol.init, tg.what, how);
        let res = match res { Ok(r) => r, Err(e) => viol(tg.tag, &format!("{}: {}", what(), e)) };
        count(10, res.ids.len() as u64);
        if res.abandoned { count(12, 1); return; }
        if !tg.ok || !finite(o, d) { return; }
        let seen: std::collections::HashSet<usize> = res.ids.iter().copied().collect();
        let (sure, maybe) = must_see(prims, o, d, res.bound as f64, &tg.bound, tg.nodes);
        count(11, sure.len() as u64);
        for (i, t) in &sure { if !seen.contains(i) { viol(tg.tag, &format!("{}: primitive {} is hit at {} (smallest bound {}), but was not handed out ({} candidates)", what(), i, t, res.bound, res.ids.len())); } }
        for (i, t) in &maybe {
            if seen.contains(i) { continue; }
            count(13, 1);
            // in a gap between clipped boxes? a gap of rounding size is none: look around
            let mut missed = 0;
            let mut tried = 0;
            let p = &prims[*i];
            let q = o.as_dvec3() + d.as_dvec3() * *t;
            for k in 0..8 {
                let mut r = Rng::new(seed ^ (k + 1) * 7919);
                let w = p.sample(r.d(), r.d());
                let q2 = q + (w - q) * 0.02;
                let o2 = (q2 - d.as_dvec3() * *t).as_vec3();
                let h = match p.hit(o2.as_dvec3(), d.as_dvec3()) { Some(h) if h > 1e-3 && h < 1e30 => h, _ => continue };
                if !robust_box(&p.bb(), o2.as_dvec3(), d.as_dvec3(), h) { continue; }
                tried += 1;
                let pol2 = Policy { kind: 0, init: 1e34, stop: usize::MAX, seed: 0 };
                if let Ok(r2) = loud(|| go(o2, d, &pol2, &|_| ())) { if !r2.ids.contains(i) { missed += 1; } }
            }
            if tried >= 4 && missed * 2 >= tried { viol(tg.tag, &format!("{}: primitive {} is hit at {}, but was not handed out, nor by {} of {} rays around", what(), i, t, missed, tried)); }
        }
    })
}

// ------------------------------------------------------------------ four rays
fn drive4<'r>(mut it: impl Iterator<Item = (Option<usize>, &'r mut RayPacket4)>, p: &[Policy; 4], limit: usize, o: &[Vec3; 4], d: &[Vec3; 4], hit: &dyn Fn(usize, usize) -> Option<f64>, start: [f32; 4], within: &dyn Fn(usize)) -> Result<(Vec<usize>, [f32; 4], bool), String> {
    let mut ids = quiet(Vec::new);
    let mut bound = start;
    let mut k = 0usize;
    if p[0].kind == 4 && p[0].stop == 0 { return Ok((ids, bound, true)); }
    loop {
        let (id, ray) = match it.next() { Some(x) => x, None => break };
        let nt = quiet(|| {
            let id = match id { Some(i) => i, None => return Err("something that is not a primitive of the tree was handed out".to_string()) };
            ids.push(id);
            k += 1;
            if ids.len() > limit { return Err(format!("{} candidates were handed out by a tree of {} references", ids.len(), limit)); }
            let mut nt = [0.0f32; 4];
            for l in 0..4 {
                let same = [ray.origin_x[l], ray.origin_y[l], ray.origin_z[l], ray.direction_x[l], ray.direction_y[l], ray.direction_z[l]].map(f32::to_bits) == [o[l].x, o[l].y, o[l].z, d[l].x, d[l].y, d[l].z].map(f32::to_bits);
                if !same { return Err("the packet handed to the caller is not the caller's packet".into()); }
                nt[l] = next_bound(&p[l], k, ray.t[l], hit(l, id));
                if nt[l] < bound[l] { bound[l] = nt[l]; }
            }
            Ok(nt)
        })?;
        ray.t = Vec4::from(nt);
        within(k);
        if p[0].kind == 4 && k >= p[0].stop { return Ok((ids, bound, true)); }
    }
    Ok((ids, bound, false))
}
pub fn one_packet<P: Prim>(tg: &Target, all: &'static [P], how: u8, policy: u8, seed: u64, depth: u32) {
    let prims = part(all, how, seed);
    let (o, d, pol) = quiet(|| {
        let mut r = Rng::new(seed);
        let mut o = [Vec3::ZERO; 4];
        let mut d = [Vec3::ZERO; 4];
        // coherent or unrelated lanes
        let coherent = r.chance(1, 2);
        for l in 0..4 {
            let (a, b) = if l > 0 && coherent { let mut a = o[0]; let mut b = d[0]; a += vec3(r.s(), r.s(), r.s()) * (tg.scale as f32) * 0.05; if r.chance(1, 2) { b += vec3(r.s(), r.s(), r.s()) * 0.02 * b.length(); } (a, b) } else { gen_ray(&mut r, all, tg.scale) };
            o[l] = a;
            d[l] = b;
        }
        // a lane without direction hits nothing, and must not keep the others from hitting
        if r.chance(1, 12) { d[r.below(4)] = Vec3::ZERO; }
        let mut p = [Policy { kind: 0, init: 1e34, stop: usize::MAX, seed: 0 }; 4];
        for l in 0..4 { let k = if policy == 4 || l == 0 || r.chance(1, 2) { policy } else { r.pick(&[0u8, 1, 2, 3, 5, 6]) }; p[l] = gen_policy(&mut r, k, tg.scale); }
        if policy != 4 { for l in 0..4 { if r.chance(1, 12) { p[l].init = r.pick(&[0.0f32, -1.0, -1e30]); } } }
        (o, d, p)
    });
    let go = |o: &[Vec3; 4], d: &[Vec3; 4], pol: &[Policy; 4], within: &dyn Fn(usize)| {
        let x4 = |v: &Vec3| vec4(v.x, v.y, v.z, 0.0);
        let mut ray = RayPacket4::new([x4(&o[0]), x4(&o[1]), x4(&o[2]), x4(&o[3])], [x4(&d[0]), x4(&d[1]), x4(&d[2]), x4(&d[3])]);
        let start = [pol[0].init, pol[1].init, pol[2].init, pol[3].init];
        ray.t = Vec4::from(start);
        let hit = |l: usize, i: usize| prims[i].hit(o[l].as_dvec3(), d[l].as_dvec3());
        candidates!(how, &mut ray, tg.bvh, tg.wide, prims, P, BvhPacketIterator, BvhPacketIndexIterator, MbvhPacketIterator, MbvhPacketIndexIterator, traverse_iter_packet, traverse_iter_indices_packet, IntoPacketIterator, IntoPacketIndexIterator, |it| drive4(it, pol, tg.refs, o, d, &hit, start, within))
    };
    let res = go(&o, &d, &pol, &|k| nested(tg, all, how, seed, depth, k));
    quiet(|| {
        count(14, 1);
        let what = |l: usize| format!("lane {} of packet {:?} {:?} policies {:?} bounds {:?} through {} (iterator {})", l, o, d, pol.map(|p| p.kind), pol.map(|p| p.init), tg.what, how);
        let (ids, bound, abandoned) = match res { Ok(r) => r, Err(e) => viol(tg.tag, &format!("{}: {}", what(0), e)) };
        count(10, ids.len() as u64);
        if abandoned { count(12, 1); return; }
        if !tg.ok { return; }
        let seen: std::collections::HashSet<usize> = ids.iter().copied().collect();
        for l in 0..4 {
            if !(0..4).all(|l| finite(o[l], d[l])) { continue; }
            let (sure, maybe) = must_see(prims, o[l], d[l], bound[l] as f64, &tg.bound, tg.nodes);
            count(11, sure.len() as u64);
            for (i, t) in &sure { if !seen.contains(i) { viol(tg.tag, &format!("{}: primitive {} is hit at {} (smallest bound {}), but was not handed out ({} candidates)", what(l), i, t, bound[l], ids.len())); } }
            for (i, t) in &maybe {
                if seen.contains(i) { continue; }
                count(13, 1);
                let (mut missed, mut tried) = (0, 0);
                let p = &prims[*i];
                let q = o[l].as_dvec3() + d[l].as_dvec3() * *t;
                for k in 0..8 {
                    let mut r = Rng::new(seed ^ (k + 1) * 7919);
                    let w = p.sample(r.d(), r.d());
                    let q2 = q + (w - q) * 0.02;
                    let mut o2 = o;
                    o2[l] = (q2 - d[l].as_dvec3() * *t).as_vec3();
                    let h = match p.hit(o2[l].as_dvec3(), d[l].as_dvec3()) { Some(h) if h > 1e-3 && h < 1e30 => h, _ => continue };
                    if !robust_box(&p.bb(), o2[l].as_dvec3(), d[l].as_dvec3(), h) { continue; }
                    tried += 1;
                    let mut pol2 = pol;
                    for x in 0..4 { pol2[x] = Policy { kind: 0, init: if x == l { 1e34 } else { 0.0 }, stop: usize::MAX, seed: 0 }; }
                    if let Ok(r2) = loud(|| go(&o2, &d, &pol2, &|_| ())) { if !r2.0.contains(i) { missed += 1; } }
                }
                if tried >= 4 && missed * 2 >= tried { viol(tg.tag, &format!("{}: primitive {} is hit at {}, but was not handed out, nor by {} of {} packets around", what(l), i, t, missed, tried)); }
            }
        }
    })
}

// ------------------------------------------------------------------ operations
fn check_wide(env: &Env, w: &Mbvh, nodes: &[BvhNode], idx: &[u32], what: &str) {
    let _ = env;
    quiet(|| {
        count(15, 1);
        let (a, b) = (w.bounds(), if nodes.is_empty() { Bvh::default().bounds() } else { nodes[0].bounds });
        for k in 0..3 { if a.min[k].to_bits() != b.min[k].to_bits() || a.max[k].to_bits() != b.max[k].to_bits() { viol("convert", &format!("{}: bounds {} reported, the root has {}", what, show(&a), show(&b))); } }
        if w.prim_count() != idx.len() { viol("convert", &format!("{}: {} primitives reported, {} in the binary tree", what, w.prim_count(), idx.len())); }
        if nodes.is_empty() {
            if !w.quad_nodes().is_empty() && mbvh_leaves(w.quad_nodes(), 0).map(|l| !l.is_empty()).unwrap_or(true) { viol("convert", &format!("{}: a tree made from an empty one has leaves", what)); }
            return;
        }
        if hash_nodes(w.nodes(), w.indices()) != hash_nodes(nodes, idx) { viol("convert", &format!("{}: the binary nodes kept with the four-wide tree are not those of its binary tree", what)); }
        if let Err(e) = mbvh_matches_opt(w.quad_nodes(), w.indices(), nodes, idx) { viol("convert", &format!("{}: {}", what, e)); }
    })
}
fn trace_op(env: &'static Env, tree: usize, how: u8, policy: u8, seed: u64, rays: usize, ctx: i32, packet: bool) {
    let ob = &glob().objs[tree];
    let st = ob.lock.read().unwrap();
    let need_wide = how & 2 != 0;
    let mut own = None;
    let mut wide: Option<Arc<Wide>> = None;
    if need_wide {
        wide = quiet(|| st.wide.clone());
        if wide.is_none() || seed & 1 == 0 { own = Some(Mbvh::construct(&st.bvh)); wide = None; }
    }
    let (shape, spatial, m): (Option<Arc<Shape>>, bool, Option<&Mbvh>) = match (&wide, &own) {
        (Some(w), _) => (w.shape.clone(), w.spatial, Some(&*w.m)),
        (None, Some(m)) => (st.shape.clone(), st.spatial, Some(m)),
        _ => (st.shape.clone(), st.spatial, None),
    };
    // without a consistent set of boxes only safety is judged
    let ok = shape.is_some();
    let sh = match &shape { Some(s) => s.clone(), None => quiet(|| shape_of(&env.sc.scenes[ob.spec.scene], ob.set as u32)) };
    // a four-wide tree made earlier may be of other boxes than the binary tree has now
    let both = own.is_some();
    let tg = quiet(|| Target {
        bvh: &st.bvh, wide: m, both, nodes: ob.orig.nodes(), ok, bound: if spatial { Bound::Paths(&ob.by, &ob.leaves) } else { Bound::Strict }, refs: ob.refs,
        scale: sh.scene.scale(), tag: "trace", what: format!("tree {:?} of {} primitives", ob.spec, ob.by.len()),
    });
    let one = |k: usize| {
        let s = mix(seed ^ (k as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15));
        let h = if k == 0 { how } else { (how & 2) | (s as u8 & 13) };
        if sh.scene.ball { if packet { one_packet(&tg, sh.balls, h, policy, s, 0) } else { one_ray(&tg, sh.balls, h, policy, s, 0) } }
        else if packet { one_packet(&tg, sh.tris, h, policy, s, 0) } else { one_ray(&tg, sh.tris, h, policy, s, 0) }
    };
    if ctx < 0 { for k in 0..rays { one(k); } }
    else {
        // the usual parallel renderer: one task per ray
        struct Sy<T>(T);
        unsafe impl<T> Sync for Sy<T> {}
        unsafe impl<T> Send for Sy<T> {}
        let one = Sy(&one as &dyn Fn(usize));
        let one = &one;
        env.pools[ctx as usize].install(|| (0..rays).into_par_iter().for_each(move |k| (one.0)(k)));
    }
    quiet(|| { drop(tg); drop(shape); drop(sh); });
    quiet(|| drop(wide));
    drop(own);
}
fn convert_op(env: &'static Env, tree: usize, raw: u8, ctx: i32) {
    if tree == usize::MAX {
        let b = Bvh::default();
        let m = Mbvh::construct(&b);
        check_wide(env, &m, &[], &[], "conversion of an empty tree");
        let e = Mbvh::from(b.clone());
        check_wide(env, &e, &[], &[], "conversion of an empty tree");
        // every way of tracing an empty tree
        let ob = &glob().objs[0];
        let sh = quiet(|| shape_of(&env.sc.scenes[ob.spec.scene], ob.set as u32));
        let tg = quiet(|| Target { bvh: &b, wide: Some(&m), both: true, nodes: &[], ok: false, bound: Bound::Strict, refs: 0, scale: sh.scene.scale(), tag: if env.sc.profile == "M01" { "convert" } else { "trace" }, what: "an empty tree".into() });
        for k in 0..3u64 {
            let s = mix(env.sc.seed ^ (k << 8) ^ raw as u64);
            let h = (s >> 20) as u8 & 15;
            if sh.scene.ball { one_packet(&tg, sh.balls, h, 0, s, 1); one_ray(&tg, sh.balls, h, 0, s, 1) } else { one_packet(&tg, sh.tris, h, 0, s, 1); one_ray(&tg, sh.tris, h, 0, s, 1) }
        }
        quiet(|| { drop(tg); drop(sh); });
        let mut r = Ray::new(vec3(0., 0., -1.), vec3(0., 0., 1.));
        if MbvhIndexIterator::new(&mut r, &m).next().is_some() || MbvhIndexIterator::new(&mut r, &Mbvh::default()).next().is_some() || BvhIndexIterator::new(&mut r, &Bvh::default()).next().is_some() { viol("convert", "an empty tree hands out candidates"); }
        let v = vec4(0., 0., 1., 0.);
        let mut p = RayPacket4::new([v; 4], [v; 4]);
        if MbvhPacketIndexIterator::new(&mut p, &m).next().is_some() || BvhPacketIndexIterator::new(&mut p, &Bvh::default()).next().is_some() { viol("convert", "an empty tree hands out candidates"); }
        return;
    }
    let ob = &glob().objs[tree];
    let st = ob.lock.read().unwrap();
    // inside a pool only the conversion itself: a pool's thread that waits for a lock could keep its holder waiting
    let b = &st.bvh;
    let m = env.within(ctx, move || match raw { 1 => Mbvh::construct_from_raw(b.nodes(), b.indices()), 2 => Mbvh::from(b.clone()), 3 => { let (n, i) = b.clone().into_raw(); Mbvh::construct_from_raw(&n, &i) } _ => Mbvh::construct(b) });
    check_wide(env, &m, st.bvh.nodes(), st.bvh.indices(), &format!("tree {:?} raw {}", ob.spec, raw));
    let w = quiet(|| { let sum = hash_wide(&m); Arc::new(Wide { m: Arc::new(m), shape: st.shape.clone(), spatial: st.spatial, sum }) });
    drop(st);
    let k = quiet(|| { glob().wides.lock().unwrap().push(w.clone()); w });
    // published for other threads, unless the tree changed meanwhile (then it is still checked at the end)
    let mut st = ob.lock.write().unwrap();
    quiet(|| st.wide = Some(k));
}
fn refit_op(env: &'static Env, tree: usize, seed: u64, cut: usize) {
    let ob = &glob().objs[tree];
    let sh = quiet(|| { let s = deform(&env.sc.scenes[ob.spec.scene], seed); shape_of(&s, ob.set as u32) });
    let mut st = match ob.lock.write() { Ok(g) => g, Err(e) => e.into_inner() };
    if cut > 0 {
        let b = &sh.boxes[..cut.min(sh.boxes.len() - 1)];
        let r = catch_unwind(AssertUnwindSafe(|| st.bvh.refit(b)));
        quiet(|| match r { Ok(_) => viol("refit", "a refit with too few boxes did not fail"), Err(e) => { std::mem::forget(e); count(17, 1); unsafe { (*SH).panic[0] = 0; } } });
        st.shape = None;
        st.spatial = false;
        return;
    }
    st.bvh.refit(sh.boxes);
    quiet(|| {
        count(16, 1);
        let what = || format!("tree {:?} of {} primitives refitted", ob.spec, ob.by.len());
        if st.bvh.nodes().len() != ob.orig.nodes().len() || st.bvh.indices() != ob.orig.indices() { viol("refit", &format!("{}: node count or indices changed", what())); }
        // same shape as when it was built
        for (i, (a, b)) in st.bvh.nodes().iter().zip(ob.orig.nodes()).enumerate() {
            if a.get_left_first_unchecked() != b.get_left_first_unchecked() || a.get_count_unchecked() != b.get_count_unchecked() {
                viol("refit", &format!("{}: node {} has child/first {} and count {}, built with {} and {}", what(), i, a.get_left_first_unchecked(), a.get_count_unchecked(), b.get_left_first_unchecked(), b.get_count_unchecked()));
            }
        }
        if let Err(e) = enclosure_exact(st.bvh.nodes(), st.bvh.indices(), &ob.leaves, sh.boxes) { viol("refit", &format!("{}: {}", what(), e)); }
        // the outcome must not depend on what was done to the tree before
        let mut f = loud(|| ob.orig.clone());
        loud(|| f.refit(sh.boxes));
        // only nodes that belong to the tree count
        for l in &ob.leaves { for nd in &l.path {
            let (a, b) = (&st.bvh.nodes()[*nd as usize].bounds, &f.nodes()[*nd as usize].bounds);
            for k in 0..3 { if a.min[k].to_bits() != b.min[k].to_bits() || a.max[k].to_bits() != b.max[k].to_bits() { viol("refit", &format!("{}: node {} has box {} instead of {} that refitting the fresh tree gives", what(), nd, show(a), show(b))); } }
        } }
        loud(|| drop(f));
    });
    st.spatial = false;
    quiet(|| st.shape = Some(sh));
}
fn thread(env: &'static Env, ti: usize) {
    for op in &env.sc.threads[ti] {
        match op {
            Op::Trace { tree, how, policy, seed, rays, ctx } => trace_op(env, *tree, *how, *policy, *seed, *rays, *ctx, false),
            Op::Packet { tree, how, policy, seed, rays, ctx } => trace_op(env, *tree, *how, *policy, *seed, *rays, *ctx, true),
            Op::Convert { tree, raw, ctx } => convert_op(env, *tree, *raw, *ctx),
            Op::Refit { tree, seed, cut } => refit_op(env, *tree, *seed, *cut),
            Op::Build(s) => { let t = env.build_op(s, 7); match t { Ok(t) => drop(t), Err(p) => viol("other-panic", &p) } }
            Op::Sleep { us } => std::thread::sleep(std::time::Duration::from_micros(*us)),
            _ => {}
        }
    }
}
pub fn run(sc: &'static Scenario) {
    let env: &'static Env = setup(sc);
    let mut objs = Vec::new();
    for s in &sc.trees {
        let t = match env.build_op(s, 1) { Ok(t) => t, Err(p) => viol("setup", &p) };
        let orig = t.clone();
        let (leaves, by, refs) = quiet(|| {
            let l = match env.check_structure(s, &t) { Ok(l) => l, Err(e) => viol("structure", &e) };
            let mut by = vec![Vec::new(); sc.scenes[s.scene].n()];
            let mut refs = 0;
            for (i, x) in l.iter().enumerate() { for k in x.first..x.first + x.count { by[t.indices()[k as usize] as usize].push(i); refs += 1; } }
            unsafe { let d = depth(&l) as u64; let u = &mut (*SH).user; if d > u[5] { u[5] = d; } }
            (l, by, refs)
        });
        let sh = shape_of(&sc.scenes[s.scene], s.scene as u32);
        quiet(|| objs.push(Obj { spec: *s, lock: RwLock::new(State { bvh: t, shape: Some(sh), spatial: s.algo == 2, wide: None }), orig, leaves, by, refs, set: s.scene }));
    }
    quiet(|| unsafe { G = Box::leak(Box::new(Glob { objs, wides: std::sync::Mutex::new(vec![]), wsnap: std::sync::Mutex::new(vec![]) })); });
    let _ = &glob().wsnap;
    let est: u64 = sc.threads.iter().flatten().map(|o| match o { Op::Trace { rays, .. } => 2500 * *rays as u64, Op::Packet { rays, .. } => 5000 * *rays as u64, Op::Build(s) => 3000 * sc.scenes[s.scene].n() as u64, Op::Convert { tree, .. } | Op::Refit { tree, .. } if *tree < sc.trees.len() => 300 * sc.scenes[sc.trees[*tree].scene].n() as u64, _ => 100 }).sum::<u64>() + 2000;
    // every ray may be handed everything, and so may the two traced from within its loop
    let all: u64 = sc.threads.iter().flatten().map(|o| match o { Op::Trace { tree, rays, .. } | Op::Packet { tree, rays, .. } if *tree < sc.trees.len() => (*rays * sc.scenes[sc.trees[*tree].scene].n()) as u64 * 600, _ => 0 }).sum();
    run_threads(env, est, est * 100 + 400_000_000 + all, thread);
    // nothing that happened later may have changed a converted tree; readers may not have changed any tree
    quiet(|| {
        for w in glob().wides.lock().unwrap().iter() { count(18, 1); if hash_wide(&w.m) != w.sum { viol("convert", "a four-wide tree changed after it had been made"); } }
    });
    // one complete refit after whatever happened, and every hit is found again
    for (i, ob) in glob().objs.iter().enumerate() {
        if sc.profile == "R01" {
            refit_op(env, i, mix(sc.seed ^ i as u64), 0);
            trace_op(env, i, 0, 0, sc.seed, 6, -1, false);
            trace_op(env, i, 2, 1, sc.seed | 1, 4, -1, false);
        } else {
            let st = ob.lock.read().unwrap();
            quiet(|| if st.spatial && hash_nodes(st.bvh.nodes(), st.bvh.indices()) != hash_nodes(ob.orig.nodes(), ob.orig.indices()) { viol("trace", "a tree that was only read has changed"); });
        }
    }
}
