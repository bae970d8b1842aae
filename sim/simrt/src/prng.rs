/// xoshiro-free, tiny: splitmix64.  Good enough and trivially reproducible.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Order dependent combination of two words.
#[inline]
pub fn comb(a: u64, b: u64) -> u64 {
    mix(a.rotate_left(23).wrapping_mul(0x9e3779b97f4a7c15) ^ b.wrapping_add(0x632be59bd9b4e019))
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed.wrapping_add(0x1234_5678_9abc_def1)))
    }
    pub fn derive(seed: u64, a: u64, b: u64) -> Self {
        Rng(comb(comb(comb(0x51_7c_c1_b7, seed), a), b))
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        (((self.next() as u128) * (n as u128)) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.us(s.len())]
    }
    pub fn f01(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// index drawn with the given weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
    /// 1..=max, log-uniform
    pub fn log_uniform(&mut self, max: u64) -> u64 {
        let m = (max as f64).ln();
        let v = (self.f01() * m).exp();
        (v as u64).clamp(1, max)
    }
}
