//! Seeded generator used for every choice the harness makes (SplitMix64).
#[derive(Clone)]
pub struct Rng(pub u64);
pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
    x ^= x >> 33;
    x
}
impl Rng {
    pub fn new(s: u64) -> Self { Rng(mix(s ^ 0x1234_5678_9abc_def1)) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: u32, den: u32) -> bool { self.below(den as usize) < num as usize }
    pub fn f(&mut self) -> f32 { (self.next() >> 40) as f32 / 16777216.0 }
    pub fn d(&mut self) -> f64 { (self.next() >> 11) as f64 / 9007199254740992.0 }
    /// -1..1
    pub fn s(&mut self) -> f32 { self.f() * 2.0 - 1.0 }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len())] }
    /// skewed towards small values
    pub fn small(&mut self, lo: usize, hi: usize) -> usize {
        let x = self.d();
        let v = lo as f64 + (hi - lo) as f64 * x * x * x;
        (v.round() as usize).clamp(lo, hi)
    }
    pub fn log(&mut self, lo: usize, hi: usize) -> usize {
        let l = (lo.max(1) as f64).ln();
        let h = (hi as f64).ln();
        ((l + (h - l) * self.d()).exp().round() as usize).clamp(lo, hi)
    }
}
