//! The only source of randomness of a simulated run.

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed.wrapping_add(0x9e37_79b9_7f4a_7c15)))
    }
    /// An independent stream derived from a seed and a label.
    pub fn sub(seed: u64, label: u64) -> Self {
        Rng::new(mix(seed) ^ mix(label.wrapping_mul(0xd134_2543_de82_ef95).wrapping_add(1)))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.next() >> 11) as u128 * n as u128 >> 53) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn weighted(&mut self, w: &[f64]) -> usize {
        let total: f64 = w.iter().sum();
        let mut x = self.f() * total;
        for (i, v) in w.iter().enumerate() {
            x -= v;
            if x < 0.0 {
                return i;
            }
        }
        w.len() - 1
    }
    /// 1, 2, ... with the given mean, geometric.
    pub fn geometric(&mut self, mean: f64) -> u64 {
        let u = 1.0 - self.f();
        1 + (-u.ln() * mean) as u64
    }
    /// Log-uniform integer in [1, hi].
    pub fn log_uniform(&mut self, hi: f64) -> u64 {
        (hi.ln() * self.f()).exp() as u64
    }
}

#[derive(Clone, Copy)]
pub struct Fnv(pub u64);

impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}

impl Fnv {
    pub fn u(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x0000_0100_0000_01b3);
        self.0 ^= self.0 >> 29;
    }
    pub fn f(&mut self, v: f64) {
        self.u(v.to_bits())
    }
    pub fn s(&mut self, v: &str) {
        for b in v.bytes() {
            self.u(b as u64)
        }
    }
}
