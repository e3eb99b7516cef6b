//! Deterministic random numbers: every choice of every workload comes from (seed, property, case).
#[derive(Clone, Debug)]
pub struct Rng(u64, u64);

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0x9e3779b97f4a7c15u64;
    for p in parts {
        h = mix(h.wrapping_add(0x9e3779b97f4a7c15) ^ mix(*p ^ 0x5851f42d4c957f2d));
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(parts: &[u64]) -> Self {
        let a = hash64(parts);
        Rng(a, mix(a ^ 0xdeadbeefcafef00d) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        // pcg-ish: weyl sequence + mix
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0 ^ self.1)
    }
    /// Uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn irange(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn f01(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        self.shuffle(&mut v);
        v
    }
    /// k distinct elements of 0..n, ascending
    pub fn subset(&mut self, n: usize, k: usize) -> Vec<usize> {
        let mut v = self.perm(n);
        v.truncate(k);
        v.sort_unstable();
        v
    }
    pub fn fork(&mut self) -> Rng {
        let x = self.u64();
        Rng::new(&[x])
    }
}
