//! Scenes, the user's primitive types (with fault points in their callbacks) and ray generation.
use crate::rng::Rng;
use crate::rt::*;
use glam::*;
use rtbvh::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Scene {
    pub ball: bool,
    /// triangles: 9 numbers; balls: centre, radius
    pub p: Vec<[f32; 9]>,
    /// the whole list this many times over (0 means once): crowds too large for small integers
    #[serde(default)]
    pub times: usize,
}

/// Fault points inside the user's callbacks, one block per primitive set.
#[derive(Clone, Copy)]
pub struct Ctl { pub calls: u64, pub panic_at: u64, pub panic_again: u64, pub slow_every: u64, pub slow_ns: u64, pub fired: u64, pub sleeps: u64 }
pub const CTL0: Ctl = Ctl { calls: 0, panic_at: 0, panic_again: 0, slow_every: 0, slow_ns: 0, fired: 0, sleeps: 0 };
pub static mut CTL: [Ctl; 16] = [CTL0; 16];
pub struct Injected;

#[inline(never)]
fn callback(set: u32) {
    let (p, s) = quiet(|| unsafe {
        let c = &mut *std::ptr::addr_of_mut!(CTL[set as usize]);
        if c.panic_at == 0 && c.slow_every == 0 { return (false, 0); }
        c.calls += 1;
        if c.panic_at != 0 && (c.calls == c.panic_at || (c.panic_again != 0 && c.calls > c.panic_at && (c.calls - c.panic_at) % c.panic_again == 0)) {
            // never panic while a panic is being handled: user code that did would abort by the language's rules
            if !std::thread::panicking() { c.fired += 1; return (true, 0); }
        }
        // (crowds call back millions of times: sleeping through all of it would only take long)
        if c.slow_every != 0 && c.calls % c.slow_every == 0 && c.sleeps < 20_000 { c.sleeps += 1; return (false, c.slow_ns); }
        (false, 0)
    });
    if p { std::panic::panic_any(Injected); }
    if s > 0 { std::thread::sleep(std::time::Duration::from_nanos(s)); }
}

#[derive(Debug, Clone, Copy)]
pub struct Tri { pub v: [Vec3; 3], pub set: u32, pub id: u32 }
#[derive(Debug, Clone, Copy)]
pub struct Ball { pub c: Vec3, pub r: f32, pub set: u32, pub id: u32 }

pub fn tri_aabb(v: &[Vec3; 3]) -> Aabb {
    let mut b = Aabb::empty();
    for p in v { b.grow(*p); }
    b
}
pub fn ball_aabb(c: Vec3, r: f32) -> Aabb {
    let mut b = Aabb::empty();
    b.grow(c - Vec3::splat(r));
    b.grow(c + Vec3::splat(r));
    b
}
impl Primitive<i32> for Tri {
    fn center(&self) -> Vec3 { callback(self.set); (self.v[0] + self.v[1] + self.v[2]) * (1.0 / 3.0) }
    fn aabb(&self) -> Aabb { callback(self.set); tri_aabb(&self.v) }
}
impl SpatialTriangle for Tri {
    fn vertex0(&self) -> Vec3 { callback(self.set); self.v[0] }
    fn vertex1(&self) -> Vec3 { callback(self.set); self.v[1] }
    fn vertex2(&self) -> Vec3 { callback(self.set); self.v[2] }
}
impl Primitive<i32> for Ball {
    fn center(&self) -> Vec3 { callback(self.set); self.c }
    fn aabb(&self) -> Aabb { callback(self.set); ball_aabb(self.c, self.r) }
}

impl Scene {
    pub fn n(&self) -> usize { self.p.len() * self.times.max(1) }
    pub fn at(&self, i: usize) -> &[f32; 9] { &self.p[i % self.p.len()] }
    pub fn tri(&self, i: usize) -> [Vec3; 3] {
        let p = self.at(i);
        [vec3(p[0], p[1], p[2]), vec3(p[3], p[4], p[5]), vec3(p[6], p[7], p[8])]
    }
    pub fn tris(&self, set: u32) -> Vec<Tri> { (0..self.n()).map(|i| Tri { v: self.tri(i), set, id: i as u32 }).collect() }
    pub fn balls(&self, set: u32) -> Vec<Ball> { (0..self.n()).map(|i| { let p = self.at(i); Ball { c: vec3(p[0], p[1], p[2]), r: p[3], set, id: i as u32 } }).collect() }
    pub fn aabb(&self, i: usize) -> Aabb {
        if self.ball { let p = self.at(i); ball_aabb(vec3(p[0], p[1], p[2]), p[3]) } else { tri_aabb(&self.tri(i)) }
    }
    pub fn aabbs(&self) -> Vec<Aabb> { (0..self.n()).map(|i| self.aabb(i)).collect() }
    pub fn center(&self, i: usize) -> Vec3 { if self.ball { let p = self.at(i); vec3(p[0], p[1], p[2]) } else { let v = self.tri(i); (v[0] + v[1] + v[2]) * (1.0 / 3.0) } }
    /// largest absolute coordinate of any box
    pub fn scale(&self) -> f64 {
        let mut m = 1e-6f64;
        for i in 0..self.p.len() { let b = self.aabb(i); for k in 0..3 { m = m.max(b.min[k].abs() as f64).max(b.max[k].abs() as f64); } }
        m
    }
}

fn put(out: &mut Vec<[f32; 9]>, a: Vec3, b: Vec3, c: Vec3) { out.push([a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z]) }
fn rv(r: &mut Rng) -> Vec3 { vec3(r.s(), r.s(), r.s()) }
fn unit(r: &mut Rng) -> Vec3 { loop { let v = rv(r); let l = v.length(); if l > 0.1 && l < 1.0 { return v / l; } } }
fn blob(r: &mut Rng, out: &mut Vec<[f32; 9]>, c: Vec3, s: f32) { let (a, b, d) = (rv(r) * s, rv(r) * s, rv(r) * s); put(out, c + a, c + b, c + d); }
/// a triangle that is far from degenerate
fn fat(r: &mut Rng, out: &mut Vec<[f32; 9]>, c: Vec3, s: f32) {
    let n = unit(r);
    let u = n.any_orthonormal_vector();
    let w = n.cross(u);
    let a0 = r.f() * 6.283;
    let mut v = [Vec3::ZERO; 3];
    for k in 0..3 { let a = a0 + k as f32 * 2.094 + r.s() * 0.4; v[k] = c + (u * a.cos() + w * a.sin()) * s; }
    put(out, v[0], v[1], v[2]);
}

pub const KINDS: usize = 17;
/// `fat_only`: only shapes a ray can hit well away from their edges
pub fn gen_scene(r: &mut Rng, n: usize, ball_ok: bool) -> Scene {
    let kind = r.below(KINDS);
    // many equal boxes make clustering quadratic
    let n = match kind { 7 => n.min(120), 12 => n.min(600), _ => n };
    let mut p: Vec<[f32; 9]> = Vec::with_capacity(n);
    if ball_ok && r.chance(1, 4) {
        let ext = r.pick(&[1.0f32, 10.0, 300.0]);
        for i in 0..n {
            let (c, rad) = match kind % 5 {
                0 => (rv(r) * ext, ext * (0.01 + 0.1 * r.f())),
                1 => (vec3((i % 8) as f32, ((i / 8) % 8) as f32, (i / 64) as f32), 0.4),
                2 => (rv(r) * ext, ext * 0.5f32.powi(r.below(10) as i32)),
                3 => (Vec3::ZERO, 1.0 + (i % 7) as f32),
                _ => (vec3(1.6f32.powi((i % 40) as i32) * 1e-4, 0.0, 0.0), 1.6f32.powi((i % 40) as i32) * 2e-5),
            };
            p.push([c.x, c.y, c.z, rad, 0.0, 0.0, 0.0, 0.0, 0.0]);
        }
        return Scene { ball: true, p, times: 0 };
    }
    let ext = r.pick(&[0.1f32, 1.0, 1.0, 10.0, 10.0, 1000.0]);
    let off = match r.below(20) { 0..=2 => rv(r) * ext * 10.0, 3 => rv(r) * ext * 300.0, 4 => Vec3::splat(ext * 1000.0), _ => Vec3::ZERO };
    match kind {
        0 => for _ in 0..n { let c = off + rv(r) * ext; fat(r, &mut p, c, ext * 0.05); },
        1 => for _ in 0..n { let c = off + rv(r) * ext; blob(r, &mut p, c, ext * 0.2); },
        2 => { // clusters
            let k = 1 + r.below(6);
            let cs: Vec<Vec3> = (0..k).map(|_| off + rv(r) * ext).collect();
            for _ in 0..n { let c = cs[r.below(k)] + rv(r) * ext * 0.05; fat(r, &mut p, c, ext * 0.02); }
        }
        3 => { // terrain grid, two triangles per cell, shared vertices
            let w = ((n as f32 / 2.0).sqrt().ceil() as usize).max(1);
            let h: Vec<f32> = (0..(w + 1) * (w + 1)).map(|_| r.f() * 0.3).collect();
            let at = |x: usize, y: usize| off + vec3(x as f32, h[y * (w + 1) + x], y as f32) * (ext / w as f32);
            'o: for y in 0..w { for x in 0..w {
                put(&mut p, at(x, y), at(x + 1, y), at(x + 1, y + 1));
                if p.len() >= n { break 'o; }
                put(&mut p, at(x, y), at(x + 1, y + 1), at(x, y + 1));
                if p.len() >= n { break 'o; }
            } }
        }
        4 => { // coplanar, axis aligned plane
            let ax = r.below(3);
            let h = off[ax] + r.s() * ext;
            for _ in 0..n {
                let c = off + rv(r) * ext;
                let mut t = Vec::new();
                fat(r, &mut t, c, ext * 0.1);
                let mut q = t[0];
                for k in 0..3 { q[k * 3 + ax] = h; }
                p.push(q);
            }
        }
        5 => for i in 0..n { // centres on a line
            let d = i as f32 / n as f32;
            let c = off + vec3(d, d * 0.5, 0.0) * ext;
            let (a, b) = (unit(r) * ext * 0.02, unit(r) * ext * 0.02);
            put(&mut p, c + a, c + b, c - a - b);
        },
        6 => { // many duplicates of few triangles
            let mut base = Vec::new();
            for _ in 0..1 + r.below(4) { let c = off + rv(r) * ext; fat(r, &mut base, c, ext * 0.2); }
            for _ in 0..n { p.push(base[r.below(base.len())]); }
        }
        7 => { let mut base = Vec::new(); fat(r, &mut base, off, ext); for _ in 0..n { p.push(base[0]); } }
        8 => for _ in 0..n { // long thin slivers, all directions
            let c = rv(r) * ext;
            let d = unit(r) * ext;
            let s = unit(r) * ext * 0.01;
            put(&mut p, c - d, c + d, c + s);
        },
        9 => for _ in 0..n { // sizes over many orders of magnitude
            let s = ext * 0.5f32.powi(r.below(14) as i32);
            let c = off + rv(r) * ext;
            fat(r, &mut p, c, s);
        },
        10 => { // geometric spacing: the deepest trees
            let f = r.pick(&[1.3f32, 1.6, 2.0]);
            let lim = (18.0 / f.ln()) as usize;
            for i in 0..n { let s = f.powi((i % lim) as i32) * 1e-4; let c = vec3(s, if i >= lim { (i / lim) as f32 * 0.3 * s } else { 0.0 }, 0.0); fat(r, &mut p, c, s * 0.2); }
        }
        11 => for i in 0..n { // a few huge triangles over many small ones
            if i % 7 == 0 { fat(r, &mut p, Vec3::ZERO, ext * 2.0) } else { let c = rv(r) * ext; fat(r, &mut p, c, ext * 0.03) }
        },
        12 => for i in 0..n { // boxes on an integer lattice: many equal keys
            let c = vec3((r.below(4)) as f32, (r.below(4)) as f32, (i % 3) as f32) * ext;
            let e = ext * 0.5;
            match r.below(3) { 0 => put(&mut p, c, c + vec3(e, 0., 0.), c + vec3(0., e, 0.)), 1 => put(&mut p, c, c + vec3(0., e, 0.), c + vec3(0., 0., e)), _ => put(&mut p, c, c + vec3(e, 0., 0.), c + vec3(0., 0., e)) }
        },
        13 => for i in 0..n { // diagonal stripes: spatial splits pay off
            let t = i as f32 / n as f32 * ext;
            let w = ext * 0.02;
            let z = r.s() * ext * 0.05;
            put(&mut p, vec3(-ext, t - ext, z), vec3(ext, t + ext, z + w), vec3(-ext, t - ext + w, z + w));
        },
        14 => { // fan around one vertex
            let c = off;
            for i in 0..n { let a = i as f32 / n as f32 * 6.2; let b = (i + 1) as f32 / n as f32 * 6.2 + 0.01; let h = r.f() * 0.2 * ext; put(&mut p, c + vec3(0., h, 0.), c + vec3(a.cos(), 0., a.sin()) * ext, c + vec3(b.cos(), 0., b.sin()) * ext); }
        }
        15 => for i in 0..n { // two far apart groups and a bridge
            let c = if i == 0 { Vec3::ZERO } else if i % 2 == 0 { vec3(ext * 50.0, 0., 0.) + rv(r) * ext } else { vec3(-ext * 50.0, 0., 0.) + rv(r) * ext };
            if i == 0 { put(&mut p, vec3(-ext * 50.0, 0., 0.), vec3(ext * 50.0, ext, 0.), vec3(ext * 50.0, 0., ext)); } else { fat(r, &mut p, c, ext * 0.1); }
        },
        _ => for _ in 0..n { // points and segments mixed with triangles
            let c = off + rv(r) * ext;
            match r.below(6) { 0 => put(&mut p, c, c, c), 1 => { let d = rv(r) * ext * 0.1; put(&mut p, c, c + d, c + d) } 2 => { let mut d = Vec3::ZERO; d[r.below(3)] = ext * 0.3 * r.f(); put(&mut p, c, c + d, c) } _ => fat(r, &mut p, c, ext * 0.1) }
        },
    }
    // deterministic shuffle half of the time so that input order carries no meaning
    if r.chance(1, 2) { for i in (1..p.len()).rev() { let j = r.below(i + 1); p.swap(i, j); } }
    Scene { ball: false, p, times: 0 }
}

/// the deepest trees there are: spacing and sizes double from one to the next
pub fn gen_deep(r: &mut Rng, n: usize) -> Scene {
    let f = r.pick(&[1.6f32, 2.0, 2.0]);
    let lim = (60.0 / f.ln()) as usize;
    let mut p = Vec::with_capacity(n);
    for i in 0..n { let s = f.powi((i % lim) as i32) * 1e-12; fat(r, &mut p, vec3(s, 0.0, 0.0), s * 0.2); }
    Scene { ball: false, p, times: 0 }
}

/// more primitives than fit into sixteen bits, in a few crowds of identical ones: leaves hold a crowd each
pub fn gen_crowd(r: &mut Rng, ball_ok: bool) -> Scene {
    let k = r.range(1, 4);
    let mut p = Vec::new();
    let ball = ball_ok && r.chance(1, 2);
    for i in 0..k {
        let c = vec3(i as f32 * 3.0 + r.f(), r.s(), r.s());
        if ball { p.push([c.x, c.y, c.z, 0.3 + r.f(), 0., 0., 0., 0., 0.]) } else { let s = 0.3 + r.f(); fat(r, &mut p, c, s) }
    }
    let total = r.pick(&[33_000usize, 66_000, 70_000]) + r.below(2000);
    Scene { ball, times: total / k + 1, p }
}

/// Scenes at the limits of single precision: only their construction is judged, rays could not hit them robustly.
pub fn gen_scene_build(r: &mut Rng, n: usize) -> Scene {
    if !r.chance(1, 5) { return gen_scene(r, n, true); }
    let mut p = Vec::with_capacity(n);
    match r.below(5) {
        0 | 1 => { // far from the origin, sizes of a few representable steps
            let e = r.pick(&[10i32, 14, 16]);
            let base = 2f32.powi(e);
            let ulp = 2f32.powi(e - 23);
            let w = r.pick(&[6usize, 12, 20, 40, 100]);
            let flat = r.below(6);
            for _ in 0..n {
                let o = [r.below(w), r.below(w), r.below(w)];
                let m = 1 + r.below(w);
                let mut v = [Vec3::ZERO; 3];
                for q in 0..3 { for k in 0..3 { v[q][k] = base + ulp * if k == flat { o[0] % 3 } else { o[k] + r.below(m) } as f32; } }
                put(&mut p, v[0], v[1], v[2]);
            }
        }
        2 => { // centres closer to each other than any fixed tolerance
            let step = r.pick(&[1e-5f32, 4e-5, 7e-5, 3e-4]);
            let k = 1 + r.below(40);
            for i in 0..n { let c = vec3(((i * 7919) % (n.max(2))) as f32 * step, r.below(k) as f32 * step, (r.f() * k as f32) * step); let s = step * r.pick(&[1.0f32, 10.0, 60.0]); fat(r, &mut p, c, s); }
        }
        3 => { // a handful of triangles over and under each other, no wider than the steps between numbers: no plane divides them
            let e = r.pick(&[0i32, 3, 10, 14]);
            let (base, ulp) = (2f32.powi(e), 2f32.powi(e - 23));
            let w = r.pick(&[2usize, 3, 4, 6]);
            let wide = r.below(4);
            for _ in 0..n.min(r.range(2, 40)) {
                let mut v = [Vec3::ZERO; 3];
                for q in 0..3 { for k in 0..3 { v[q][k] = if k == wide { r.s() * 100.0 * ulp } else { base + ulp * r.below(w) as f32 }; } }
                put(&mut p, v[0], v[1], v[2]);
            }
        }
        _ => { // long overlapping strips whose ends share the same planes
            let k = 2 + r.below(9);
            for _ in 0..n {
                let (a, b) = (r.below(k), r.below(k));
                let (y, z) = (r.below(k) as f32, r.below(3) as f32);
                let h = 1.0 + r.below(k) as f32;
                put(&mut p, vec3(a as f32, y, z), vec3(b as f32, y + h, z), vec3(b as f32, y, z + r.below(2) as f32));
            }
        }
    }
    Scene { ball: false, p, times: 0 }
}

/// Boxes handed to the builder: exact (1) or padded (2).
pub fn given_boxes(s: &Scene, mode: u8) -> Vec<Aabb> {
    let mut v = s.aabbs();
    if mode == 2 { let pad = (s.scale() * 1e-3) as f32; for b in v.iter_mut() { b.min -= Vec3::splat(pad); b.max += Vec3::splat(pad); } }
    v
}
