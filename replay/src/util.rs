//! Deterministic input generation: a splitmix stream per case, biased towards the constants mined from the code under check.
use std::collections::BTreeSet;
#[derive(Default, Clone)]
pub struct Consts { pub ints: Vec<i128>, pub floats: Vec<f64>, pub strs: Vec<String> }
pub struct Rng { s: u64, pub consts: Consts }
impl Rng {
    pub fn new(prop: &str, seed: u64, idx: u64, consts: &Consts) -> Self {
        let mut h = 0xcbf29ce484222325u64;
        for b in prop.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        let mut r = Rng { s: h ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03), consts: consts.clone() };
        r.u64(); r
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as usize) as i64 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn unit(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    /// an integer constant of the code or a neighbour, if there is one within [lo, hi]
    pub fn near(&mut self, lo: i128, hi: i128) -> Option<i128> {
        let c: BTreeSet<i128> = self.consts.ints.iter().flat_map(|c| [c - 1, *c, c + 1]).filter(|c| *c >= lo && *c <= hi).collect();
        if c.is_empty() { None } else { let v: Vec<_> = c.into_iter().collect(); Some(*self.pick(&v)) }
    }
    /// a size: usually small, sometimes at a constant of the code
    pub fn size(&mut self, lo: usize, small: usize, cap: usize) -> usize {
        if self.chance(1, 8) { if let Some(c) = self.near(small as i128 + 1, cap as i128) { return c as usize; } }
        lo + self.below(small - lo + 1)
    }
    pub fn int(&mut self, lo: i128, hi: i128, small: i128) -> i128 {
        match self.below(12) {
            0 => lo, 1 => hi,
            2 | 3 => self.near(lo, hi).unwrap_or(lo),
            4 => { let w = (hi - lo + 1) as u128; lo + ((self.u64() as u128) % w) as i128 }
            _ => { let a = lo.max(-small); let b = hi.min(small); a + ((self.u64() as u128) % ((b - a + 1) as u128)) as i128 }
        }
    }
    pub fn fconst(&mut self) -> Option<f64> {
        if self.consts.floats.is_empty() { return None; }
        let c = { let v = self.consts.floats.clone(); *self.pick(&v) };
        let c = match self.below(4) { 0 => c * (1.0 + 1e-9), 1 => c * (1.0 - 1e-9), _ => c };
        if c.is_finite() { Some(c) } else { None }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
    /// an identifier; `m` bounds the number of different ones
    pub fn id(&mut self, prefix: &str, m: usize) -> String {
        if self.chance(1, 40) && !self.consts.strs.is_empty() { let v = self.consts.strs.clone(); let s = self.pick(&v).clone(); if !s.is_empty() && !s.contains(char::is_whitespace) { return s; } }
        if self.chance(1, 60) { return ["", "é", "Z", "a", "aa", "10", "9", "\u{10ffff}", "d", "q"][self.below(10)].to_string(); }
        format!("{prefix}{}", self.below(m.max(1)))
    }
}
pub fn close(a: f64, b: f64) -> bool { (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) }
pub fn relclose(a: f64, b: f64, tol: f64) -> bool { a == b || (a - b).abs() <= tol * a.abs().max(b.abs()) }
