//! Reference models and common comparison routines.
use crate::{ck, eq, Ctx, R};
use vers_vecs::BitVec;

pub fn mask64(n: usize) -> u64 {
    if n >= 64 {
        u64::MAX
    } else {
        (1u64 << n) - 1
    }
}

/// n (<= 64) bits of the model starting at pos, first bit least significant
pub fn window(m: &[bool], pos: usize, n: usize) -> u64 {
    let mut w = 0u64;
    for k in 0..n {
        w |= u64::from(m[pos + k]) << k;
    }
    w
}

/// Complete observation of a bit vector against its model: length, every bit by every single-bit accessor, counts,
/// limbs, the multi-bit reads at `reads` random places.
pub fn observe_bitvec(c: &mut Ctx, bv: &BitVec, m: &[bool], reads: usize) -> R {
    eq!(c, bv.len(), m.len(), "len");
    eq!(c, bv.is_empty(), m.is_empty(), "is_empty");
    for (i, &b) in m.iter().enumerate() {
        let g = bv.get_unchecked(i);
        if g != u64::from(b) {
            return Err(format!("get_unchecked({i}) of {} bits: got {g}, expected {}", m.len(), u8::from(b)));
        }
        if bv.is_bit_set_unchecked(i) != b || bv.get(i) != Some(u64::from(b)) || bv.is_bit_set(i) != Some(b) {
            return Err(format!("bit accessors disagree at {i} of {} bits (expected {b})", m.len()));
        }
    }
    c.n(4 * m.len() as u64);
    let ones = m.iter().filter(|&&b| b).count() as u64;
    eq!(c, bv.count_ones(), ones, "count_ones, len {}", m.len());
    eq!(c, bv.count_zeros(), m.len() as u64 - ones, "count_zeros, len {}", m.len());
    observe_limbs(c, bv, m)?;
    observe_reads(c, bv, m, reads)
}

pub fn observe_limbs(c: &mut Ctx, bv: &BitVec, m: &[bool]) -> R {
    let mut k = 0usize;
    for limb in bv.iter_limbs() {
        let lo = k * 64;
        ck!(c, lo < m.len(), "iter_limbs yields more than ceil(len/64) limbs for len {}", m.len());
        let n = (m.len() - lo).min(64);
        eq!(c, limb & mask64(n), window(m, lo, n), "limb {k} of a vector of {} bits", m.len());
        k += 1;
    }
    eq!(c, k, m.len().div_ceil(64), "number of limbs for len {}", m.len());
    Ok(())
}

pub fn observe_reads(c: &mut Ctx, bv: &BitVec, m: &[bool], reads: usize) -> R {
    for _ in 0..reads {
        if m.is_empty() {
            break;
        }
        let n = read_width(c).min(m.len());
        let pos = read_pos(c, m.len(), n);
        if n == 0 {
            // the answer of a zero-width read is not specified beyond being absent or empty
            let g = bv.get_bits(pos, 0);
            ck!(c, matches!(g, None | Some(0)), "get_bits({pos},0) = {g:?}");
            continue;
        }
        let w = window(m, pos, n);
        eq!(c, bv.get_bits(pos, n), Some(w), "get_bits({pos},{n}), len {}", m.len());
        eq!(c, bv.get_bits_unchecked(pos, n), w, "get_bits_unchecked({pos},{n}), len {}", m.len());
        {
            let idx = c.rng.below(m.len() / n);
            let w = window(m, idx * n, n);
            eq!(c, bv.unpack_element(idx, n), Some(w), "unpack_element({idx},{n}), len {}", m.len());
            eq!(c, bv.unpack_element_unchecked(idx, n), w, "unpack_element_unchecked({idx},{n}), len {}", m.len());
        }
    }
    Ok(())
}

pub fn read_width(c: &mut Ctx) -> usize {
    match c.rng.below(6) {
        0 => 64,
        1 => 63,
        2 => 1 + c.rng.below(3),
        _ => c.rng.below(65),
    }
}

/// start of a read of n bits inside 0..len, biased to word borders and to the end
pub fn read_pos(c: &mut Ctx, len: usize, n: usize) -> usize {
    let max = len - n;
    match c.rng.below(5) {
        0 => max,
        1 => {
            let w = c.rng.below(len / 64 + 1) * 64;
            (w + c.rng.below(3)).saturating_sub(1).min(max)
        }
        2 => (c.rng.below(len / 64 + 1) * 64 + 64).saturating_sub(n).min(max),
        _ => c.rng.below(max + 1),
    }
}

/// the positions of the chosen bit
pub fn positions_of(m: &[bool], bit: bool) -> Vec<usize> {
    m.iter().enumerate().filter(|(_, &b)| b == bit).map(|(i, _)| i).collect()
}

/// ranks[i] = number of ones before i, for i in 0..=len
pub fn prefix(m: &[bool]) -> Vec<u32> {
    let mut v = Vec::with_capacity(m.len() + 1);
    let mut s = 0u32;
    v.push(0);
    for &b in m {
        s += u32::from(b);
        v.push(s);
    }
    v
}

/// the k low bits of x, least significant first
pub fn bits_of(x: u64, k: usize) -> Vec<bool> {
    (0..k).map(|i| i < 64 && (x >> i) & 1 == 1).collect()
}

/// the model as words, for reading many windows quickly
pub struct Words(Vec<u64>);

impl Words {
    pub fn new(m: &[bool]) -> Self {
        let mut w = vec![0u64; m.len() / 64 + 2];
        for (i, &b) in m.iter().enumerate() {
            w[i / 64] |= u64::from(b) << (i % 64);
        }
        Words(w)
    }

    /// n (1..=64) bits starting at pos
    pub fn read(&self, pos: usize, n: usize) -> u64 {
        let both = u128::from(self.0[pos / 64]) | u128::from(self.0[pos / 64 + 1]) << 64;
        (both >> (pos % 64)) as u64 & mask64(n)
    }
}
