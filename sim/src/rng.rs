//! The only source of randomness: a splitmix64 stream per purpose, all derived from VERIF_SEED.

#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn derive(seed: u64, tag: &str, i: u64) -> u64 {
    let mut h = mix(seed ^ 0x9e3779b97f4a7c15);
    for b in tag.bytes() {
        h = mix(h ^ (b as u64).wrapping_mul(0x100000001b3));
    }
    mix(h.wrapping_add(i.wrapping_mul(0x9e3779b97f4a7c15)))
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed.wrapping_add(0x1234567)))
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        (((self.next() >> 32) * n as u64) >> 32) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn geometric(&mut self, mean: u64) -> u64 {
        // 1 + floor(Exp(mean)), with a cheap inverse: -ln(u)
        let u = ((self.next() >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
        1 + (-(u.ln()) * mean as f64) as u64
    }
}
