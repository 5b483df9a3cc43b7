//! The one pseudo-random generator of the simulator (xoshiro256++ seeded by
//! SplitMix64).  Every choice of a run is a pure function of its seed.

#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Derive a seed from a base seed and labels.
pub fn derive(seed: u64, labels: &[u64]) -> u64 {
    let mut h = mix(seed ^ 0x5151_7EED);
    for &l in labels {
        h = mix(h.rotate_left(23) ^ mix(l));
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = [0; 4];
        let mut z = seed;
        for v in s.iter_mut() {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *v = mix(z);
        }
        Rng(s)
    }
    #[inline(always)]
    pub fn word(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform on `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.word() as u128 * n as u128) >> 64) as u64
    }
    pub fn index(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform on `lo..=hi`.
    pub fn between(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// Uniform on the open interval (0, 1).
    pub fn unit(&mut self) -> f64 {
        ((self.word() >> 11) as f64 + 0.5) * (1.0 / 9007199254740992.0)
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn logrange(&mut self, lo: f64, hi: f64) -> f64 {
        (self.range(lo.ln(), hi.ln())).exp()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.index(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.index(i + 1);
            v.swap(i, j);
        }
    }
}
