//! The one source of randomness of the simulator (splitmix64).

#[derive(Clone, Debug)]
pub struct Rng {
    s: u64,
    big: bool,
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng { s: mix(seed.wrapping_add(0x1234_5678_9ABC_DEF1)), big: false }
    }
    /// Derive an independent stream.
    pub fn derive(seed: u64, tag: &str, idx: u64) -> Self {
        let mut h = mix(seed ^ 0xA5A5_A5A5_5A5A_5A5A);
        for b in tag.bytes() {
            h = mix(h ^ b as u64).wrapping_add(0x9E37_79B9_7F4A_7C15);
        }
        Rng { big: idx % 61 == 60, ..Rng::new(mix(h ^ idx.wrapping_mul(0x9E37_79B9_7F4A_7C15))) }
    }
    /// Every 61st case is a large one.
    pub fn big(&self) -> bool {
        self.big
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.s)
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.u64() % n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % (hi - lo + 1) as u64) as i64
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uniform(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f64()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f64() < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

/// Order-sensitive hash of an event log.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Digest(pub u64);
impl Default for Digest {
    fn default() -> Self {
        Digest(0x243F_6A88_85A3_08D3)
    }
}
impl Digest {
    pub fn add(&mut self, v: u64) {
        self.0 = mix(self.0 ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_add(v);
    }
    pub fn add_f64(&mut self, v: f64) {
        self.add(v.to_bits())
    }
    pub fn add_slice(&mut self, vs: &[f64]) {
        self.add(vs.len() as u64);
        for v in vs {
            self.add_f64(*v);
        }
    }
    pub fn add_str(&mut self, s: &str) {
        self.add(s.len() as u64);
        for b in s.bytes() {
            self.add(b as u64);
        }
    }
}
