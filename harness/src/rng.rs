//! Deterministic splitmix64 generator; every random choice of a case comes from one of these.
#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed.wrapping_add(0x9e3779b97f4a7c15)))
    }
    pub fn for_case(seed: u64, id: &str, i: u64) -> Self {
        Rng::new(mix(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ hash_bytes(id.as_bytes())).wrapping_add(mix(i)))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        (self.u64() % n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + (self.u64() as u128 % span) as i128) as i64
    }
    pub fn upto(&mut self, n: usize) -> usize {
        self.below(n + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn coin(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
    /// An integer that favours small values and the limits of its range.
    pub fn edgy(&mut self, lo: i64, hi: i64) -> i64 {
        match self.below(8) {
            0 => lo,
            1 => hi,
            2 => (lo as i128 + 1).min(hi as i128) as i64,
            3 => (hi as i128 - 1).max(lo as i128) as i64,
            4 | 5 => self.range(-20, 20).clamp(lo, hi),
            6 => {
                let bits = self.below(63);
                let v = (self.u64() >> (63 - bits)) as i64;
                (if self.coin() { v } else { -v }).clamp(lo, hi)
            }
            _ => self.range(lo, hi),
        }
    }
}
