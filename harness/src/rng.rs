//! xoshiro256** with splitmix seeding; every random choice of the harness comes from here.
#[derive(Clone)]
pub struct Rng {
    s: std::cell::Cell<[u64; 4]>,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut x)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: std::cell::Cell::new([splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)]) }
    }
    pub fn u64(&self) -> u64 {
        let mut s = self.s.get();
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        self.s.set(s);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&self, n: usize) -> usize {
        debug_assert!(n > 0);
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }
    pub fn below64(&self, n: u64) -> u64 {
        ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64
    }
    /// uniform in a..=b
    pub fn range(&self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn range64(&self, a: u64, b: u64) -> u64 {
        if a == 0 && b == u64::MAX {
            return self.u64();
        }
        a + self.below64(b - a + 1)
    }
    pub fn bool(&self) -> bool {
        self.u64() >> 63 == 1
    }
    /// true with probability 1/n
    pub fn one_in(&self, n: usize) -> bool {
        self.below(n) == 0
    }
    /// true with probability p
    pub fn chance(&self, p: f64) -> bool {
        ((self.u64() >> 11) as f64) < p * (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// a number whose bit length is uniform: small and huge values are equally likely
    pub fn log_u64(&self, max_bits: u32) -> u64 {
        let b = self.below(max_bits as usize + 1) as u32;
        if b == 0 {
            0
        } else {
            (self.u64() >> (64 - b)) | (1u64 << (b - 1))
        }
    }
}
