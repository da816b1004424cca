//! Vectors beyond 2^32 bits, described by a short list of runs so that the oracle is closed-form.
use vers_vecs::BitVec;

/// runs of equal bits covering 0..len
pub struct Runs {
    /// (start, bit), sorted, first start 0
    pub runs: Vec<(usize, bool)>,
    pub len: usize,
}

impl Runs {
    pub fn end(&self, k: usize) -> usize {
        self.runs.get(k + 1).map_or(self.len, |r| r.0)
    }
    pub fn get(&self, p: usize) -> bool {
        let k = self.runs.partition_point(|r| r.0 <= p) - 1;
        self.runs[k].1
    }
    /// bits equal to `bit` before p
    pub fn rank(&self, bit: bool, p: usize) -> usize {
        let mut s = 0;
        for (k, r) in self.runs.iter().enumerate() {
            if r.0 >= p {
                break;
            }
            if r.1 == bit {
                s += self.end(k).min(p) - r.0;
            }
        }
        s
    }
    /// position of the k-th such bit, len if there is none
    pub fn select(&self, bit: bool, k: usize) -> usize {
        let mut left = k;
        for (i, r) in self.runs.iter().enumerate() {
            if r.1 == bit {
                let l = self.end(i) - r.0;
                if left < l {
                    return r.0 + left;
                }
                left -= l;
            }
        }
        self.len
    }
    /// nearest later position whose excess differs from that at `i` by `r`
    pub fn fwd(&self, i: usize, r: i64) -> Option<usize> {
        let mut cur = 0i64;
        for (k, run) in self.runs.iter().enumerate() {
            let (a, b) = (run.0.max(i + 1), self.end(k));
            if a >= b {
                continue;
            }
            let s = if run.1 { 1 } else { -1 };
            let need = (r - cur) * s;
            if need > 0 && need as usize <= b - a {
                return Some(a + need as usize - 1);
            }
            cur += s * (b - a) as i64;
        }
        None
    }
    /// nearest earlier position from which the bits up to (excluding) `i` sum to `-r`
    pub fn bwd(&self, i: usize, r: i64) -> Option<usize> {
        let mut cur = 0i64;
        for (k, run) in self.runs.iter().enumerate().rev() {
            let (a, b) = (run.0, self.end(k).min(i));
            if a >= b {
                continue;
            }
            let s = if run.1 { 1 } else { -1 };
            let need = (-r - cur) * s;
            if need > 0 && need as usize <= b - a {
                return Some(b - need as usize);
            }
            cur += s * (b - a) as i64;
        }
        None
    }
    pub fn build(&self) -> BitVec {
        let mut limbs = vec![0u64; self.len.div_ceil(64)];
        for (k, r) in self.runs.iter().enumerate() {
            if !r.1 {
                continue;
            }
            let (a, b) = (r.0, self.end(k));
            let (wa, wb) = (a / 64, b / 64);
            if wa == wb {
                limbs[wa] |= ((1u64 << (b - a)) - 1) << (a % 64);
                continue;
            }
            limbs[wa] |= u64::MAX << (a % 64);
            limbs[wa + 1..wb].fill(u64::MAX);
            if b % 64 != 0 {
                limbs[wb] |= (1u64 << (b % 64)) - 1;
            }
        }
        let n = limbs.len() * 64;
        let mut bv = BitVec::from_vec(limbs);
        bv.drop_last(n - self.len);
        bv
    }
    /// positions worth asking about
    pub fn borders(&self) -> Vec<usize> {
        let mut v = vec![0, 1, self.len - 1, self.len, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 31];
        for (k, r) in self.runs.iter().enumerate() {
            for p in [r.0, r.0 + 1, r.0.saturating_sub(1), (r.0 + self.end(k)) / 2] {
                v.push(p);
            }
        }
        v.retain(|&p| p <= self.len);
        v
    }
}

/// more than 2^32 ones and more than 2^32 zeros, in a few long runs and a few short ones
fn both(r: &crate::rng::Rng) -> Runs {
    let mut left = [(1usize << 32) + 70_000 + r.below(300_000), (1usize << 32) + 70_000 + r.below(300_000)];
    let mut runs = Vec::new();
    let mut p = 0usize;
    let mut bit = r.bool();
    while left[0] + left[1] > 0 {
        let k = usize::from(bit);
        let l = match r.below(4) {
            _ if runs.len() > 60 => left[k],
            0 => 1 + r.below(3000),
            1 => 1 + r.below(1 << 20),
            _ => 1 + r.below(1 << 31),
        }
        .min(left[k]);
        if l > 0 {
            runs.push((p, bit));
            p += l;
            left[k] -= l;
        }
        bit = !bit;
    }
    // adjacent runs of the same bit are possible at the end: harmless for the oracle
    Runs { runs, len: p }
}

/// from run lengths, starting with a run of `first`
pub fn from_lengths(first: bool, lens: &[usize]) -> Runs {
    let mut runs = Vec::new();
    let mut p = 0;
    let mut bit = first;
    for &l in lens {
        if l > 0 {
            runs.push((p, bit));
        }
        p += l;
        bit = !bit;
    }
    Runs { runs, len: p }
}

/// four shapes: more than 2^32 of either bit, mostly ones, mostly zeros, mixed
pub fn runs(r: &crate::rng::Rng, shape: u64) -> Runs {
    if shape % 4 == 0 {
        return both(r);
    }
    let shape = shape % 4 - 1;
    let len = (1usize << 32) + 70_000 + r.below(200_000);
    let mut runs = Vec::new();
    let mut p = 0usize;
    let mut bit = r.bool();
    while p < len {
        runs.push((p, bit));
        let l = match (shape % 3, bit) {
            (0, true) | (1, false) => 1 + r.below(if runs.len() < 3 { 1 << 31 } else { 1 << 29 }),
            (0, false) | (1, true) => 1 + r.below(3000),
            _ => 1 + r.below(1 << 28),
        };
        p += l;
        bit = !bit;
        if runs.len() > 60 {
            // last run covers the rest
            break;
        }
    }
    Runs { runs, len }
}
