//! Double precision reference intersections, with the safety margins that make a verdict independent of rounding.
use crate::geom::*;
use glam::*;
use rtbvh::*;

pub trait Prim: Primitive<i32> + 'static + Sync + Send {
    /// distance of a hit that no rounding can turn into a miss
    fn hit(&self, o: DVec3, d: DVec3) -> Option<f64>;
    fn bb(&self) -> Aabb;
    fn id(&self) -> u32;
    /// a point on the primitive
    fn sample(&self, a: f64, b: f64) -> DVec3;
    fn size(&self) -> f64;
}
/// Moeller-Trumbore; u, v, w margins and angle margin as given
pub fn tri_hit(v: &[Vec3; 3], o: DVec3, d: DVec3, m: f64, cosm: f64) -> Option<(f64, f64)> {
    let (a, b, c) = (v[0].as_dvec3(), v[1].as_dvec3(), v[2].as_dvec3());
    let (e1, e2) = (b - a, c - a);
    let n = e1.cross(e2);
    let l = n.length() * d.length();
    if !(l > 0.0) { return None; }
    let h = d.cross(e2);
    let det = e1.dot(h);
    if (det / l).abs() <= cosm { return None; }
    let s = o - a;
    let u = s.dot(h) / det;
    let q = s.cross(e1);
    let w = d.dot(q) / det;
    if u < m || w < m || u + w > 1.0 - m { return None; }
    Some((e2.dot(q) / det, det))
}
impl Prim for Tri {
    fn hit(&self, o: DVec3, d: DVec3) -> Option<f64> {
        // slivers below single precision have no meaningful hits
        let (e1, e2) = (self.v[1] - self.v[0], self.v[2] - self.v[0]);
        let n = e1.as_dvec3().cross(e2.as_dvec3()).length();
        let l = e1.as_dvec3().length().max(e2.as_dvec3().length());
        if n < 1e-6 * l * l { return None; }
        tri_hit(&self.v, o, d, 0.02, 1e-2).map(|x| x.0)
    }
    fn bb(&self) -> Aabb { tri_aabb(&self.v) }
    fn id(&self) -> u32 { self.id }
    fn sample(&self, a: f64, b: f64) -> DVec3 {
        let (mut a, mut b) = (a, b);
        if a + b > 1.0 { a = 1.0 - a; b = 1.0 - b; }
        let (a, b) = (0.04 + 0.88 * a, 0.04 + 0.88 * b);
        let v = &self.v;
        v[0].as_dvec3() + (v[1] - v[0]).as_dvec3() * a + (v[2] - v[0]).as_dvec3() * b
    }
    fn size(&self) -> f64 { (self.v[1] - self.v[0]).length().max((self.v[2] - self.v[0]).length()) as f64 }
}
impl Prim for Ball {
    fn hit(&self, o: DVec3, d: DVec3) -> Option<f64> {
        let f = o - self.c.as_dvec3();
        let a = d.dot(d);
        if !(a > 0.0) { return None; }
        let r = self.r as f64;
        // squared distance of the line to the centre
        let tc = -f.dot(d) / a;
        let near = (f + d * tc).length();
        if near > r * 0.98 { return None; }
        let h = ((r * r - near * near) / a).sqrt();
        Some(if tc - h > 0.0 { tc - h } else { tc + h })
    }
    fn bb(&self) -> Aabb { ball_aabb(self.c, self.r) }
    fn id(&self) -> u32 { self.id }
    fn sample(&self, a: f64, b: f64) -> DVec3 { self.c.as_dvec3() + DVec3::new(a - 0.5, b - 0.5, (a * 7.0).fract() - 0.5) * self.r as f64 }
    fn size(&self) -> f64 { self.r as f64 }
}

/// Does a single precision slab test of any box around `b` have to see the ray at distance `t`?
/// Intervals of different axes must overlap by more than rounding can take away.
pub fn robust_box(b: &Aabb, o: DVec3, d: DVec3, t: f64) -> bool {
    let mut lo = [f64::NEG_INFINITY; 3];
    let mut hi = [f64::INFINITY; 3];
    for k in 0..3 {
        let (mn, mx) = (b.min[k] as f64, b.max[k] as f64);
        if !(mn <= mx) { return false; }
        if d[k] == 0.0 {
            if !(mn < o[k] && o[k] < mx) { return false; }
        } else {
            let (a, c) = ((mn - o[k]) / d[k], (mx - o[k]) / d[k]);
            lo[k] = a.min(c);
            hi[k] = a.max(c);
            if lo[k].abs() > 1e30 || hi[k].abs() > 1e30 { return false; }
        }
    }
    for a in 0..3 {
        let m = |x: f64| 2e-6 * x.abs().max(1e-12);
        if lo[a].is_finite() && lo[a] > t + m(t) { return false; }
        if hi[a].is_finite() && hi[a] < t - m(t) { return false; }
        for c in 0..3 { if a != c && lo[a].is_finite() && hi[c].is_finite() && !(lo[a] + m(lo[a]).max(m(hi[c])) < hi[c]) { return false; } }
    }
    true
}
/// What the closest hit of a ray must be: brute force with the same single precision test the user runs.
pub fn finite(o: Vec3, d: Vec3) -> bool { o.is_finite() && d.is_finite() }
