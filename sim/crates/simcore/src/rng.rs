//! Small deterministic generators. Nothing here reads the environment.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut z = seed;
        for x in &mut s {
            z = z.wrapping_add(0x9e3779b97f4a7c15);
            *x = mix(z);
        }
        Rng { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// true with probability p/1000
    pub fn permille(&mut self, p: u32) -> bool {
        self.below(1000) < p as u64
    }
    /// geometric-ish gap with the given mean, at least 1
    pub fn gap(&mut self, mean: u32) -> u32 {
        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        let g = -(1.0 - u).ln() * mean as f64;
        1 + g.min(1e6) as u32
    }
}
