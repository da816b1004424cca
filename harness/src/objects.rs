//! One generated object of any of the library's structures, behind a common probe.
use crate::probe::{self, Dig};
use crate::rng::Rng;
use crate::{gen, wmodel};
use vers_vecs::{BinaryRmq, BitVec, BpTree, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};

#[derive(Clone, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub enum Obj {
    Bits(BitVec),
    Rs(RsVec),
    Sparse(SparseRSVec),
    Ef(EliasFanoVec),
    Binary(BinaryRmq),
    Fast(FastRmq),
    /// length, balanced, single root
    Tree8(BpTree<8>, usize, bool, bool),
    Tree12(BpTree<12>, usize, bool, bool),
    Tree64(BpTree<64>, usize, bool, bool),
    Tree512(BpTree<512>, usize, bool, bool),
    Tree1024(BpTree<1024>, usize, bool, bool),
    Wavelet(WaveletMatrix, usize),
}

pub const KINDS: [&str; 8] =
    ["BitVec", "RsVec", "SparseRSVec", "EliasFanoVec", "BinaryRmq", "FastRmq", "BpTree", "WaveletMatrix"];

impl Obj {
    /// an object of kind `k` with up to about `max` bits or elements, and a description
    pub fn generate(r: &mut Rng, k: usize, max: usize) -> (Obj, String) {
        let size = |r: &mut Rng| match r.below(8) {
            0 => r.below(3),
            1 => r.below(70),
            2 | 3 => gen::sweep(r.below64(gen::SWEEP)).min(max),
            _ => gen::len(r, max),
        };
        match k {
            2 | 3 if r.one_in(4) => {
                let n = gen::sweep(r.below64(gen::SWEEP)).min(max / 4 + 4);
                Self::of_length(r, k, n)
            }
            2 if r.bool() => {
                let (v, st) = gen::sorted(r, max / 8 + 4);
                Self::sparse(r, v, st)
            }
            2 => {
                let n = size(r);
                Self::sparse_bits(r, n)
            }
            3 => {
                let (v, st) = gen::sorted(r, max / 8 + 4);
                Self::ef(&v, st)
            }
            4 | 5 => {
                let n = size(r).min(max / 8);
                Self::of_length(r, k, n)
            }
            7 => {
                let kw = wmodel::width(r);
                let n = size(r).min(max / 16 + 1);
                Self::wavelet(r, n, kw)
            }
            _ => {
                let n = size(r);
                Self::of_length(r, k, n)
            }
        }
    }

    fn sparse(r: &mut Rng, mut v: Vec<u64>, st: &str) -> (Obj, String) {
        v.dedup();
        if v.last() == Some(&u64::MAX) {
            v.pop();
        }
        let len = v.last().map_or(0, |x| x + 1).saturating_add(r.below64(100));
        (Obj::Sparse(SparseRSVec::new(&v, len)), format!("SparseRSVec {} ones in {len} {st}", v.len()))
    }

    fn sparse_bits(r: &mut Rng, n: usize) -> (Obj, String) {
        let (b, st) = gen::bits(r, n);
        let v = gen::bitvec(r, &b);
        let inv = r.bool();
        let s = if inv { SparseRSVec::from_bitvec_inverted(&v) } else { SparseRSVec::from_bitvec(&v) };
        (Obj::Sparse(s), format!("SparseRSVec {n} bits {st} inverted={inv}"))
    }

    fn ef(v: &[u64], st: &str) -> (Obj, String) {
        (Obj::Ef(EliasFanoVec::from_slice(v)), format!("EliasFanoVec {} elements {st}", v.len()))
    }

    fn wavelet(r: &mut Rng, n: usize, kw: usize) -> (Obj, String) {
        let (v, st) = wmodel::symbols(r, n, kw);
        let (w, how) = wmodel::build(r, &v, kw);
        (Obj::Wavelet(w, kw), format!("WaveletMatrix {n} symbols of {kw} bits {st} {how}"))
    }

    /// an object of kind `k` with exactly `n` bits or elements (trees: `n` parentheses, rounded to whole nodes)
    pub fn of_length(r: &mut Rng, k: usize, n: usize) -> (Obj, String) {
        match k {
            0 | 1 => {
                let (b, st) = gen::bits(r, n);
                let v = gen::bitvec(r, &b);
                if k == 0 {
                    (Obj::Bits(v), format!("BitVec {n} bits {st}"))
                } else {
                    (Obj::Rs(RsVec::from_bit_vec(v)), format!("RsVec {n} bits {st}"))
                }
            }
            2 => {
                if r.bool() {
                    Self::sparse_bits(r, n)
                } else {
                    let (v, st) = gen::sorted_exact(r, n);
                    Self::sparse(r, v, st)
                }
            }
            3 => {
                let (v, st) = gen::sorted_exact(r, n);
                Self::ef(&v, st)
            }
            4 | 5 => {
                let al = r.range(1, 64) as u32;
                let v: Vec<u64> = (0..n).map(|i| if r.one_in(20) { i as u64 } else { r.log_u64(al) }).collect();
                if k == 4 {
                    (Obj::Binary(BinaryRmq::from_vec(v)), format!("BinaryRmq {n} elements of up to {al} bits"))
                } else {
                    (Obj::Fast(FastRmq::from_vec(v)), format!("FastRmq {n} elements of up to {al} bits"))
                }
            }
            6 => {
                let (bits, st, bal) = match r.below(4) {
                    0 => {
                        let (b, s) = gen::bits(r, n);
                        (b, s, false)
                    }
                    _ => {
                        let (b, s) = gen::tree(r, n / 2 + 1);
                        (b, s, true)
                    }
                };
                let len = bits.len();
                let v = gen::bitvec(r, &bits);
                let o = match r.below(5) {
                    0 => Obj::Tree8(BpTree::from_bit_vector(v), len, bal, bal),
                    1 => Obj::Tree12(BpTree::from_bit_vector(v), len, bal, bal),
                    2 => Obj::Tree64(BpTree::from_bit_vector(v), len, bal, bal),
                    3 => Obj::Tree512(BpTree::from_bit_vector(v), len, bal, bal),
                    _ => Obj::Tree1024(BpTree::from_bit_vector(v), len, bal, bal),
                };
                (o, format!("BpTree {len} parentheses {st} balanced={bal}"))
            }
            _ => {
                let kw = if n > 1100 || r.one_in(3) { r.range(1, 9) } else { wmodel::width(r) };
                Self::wavelet(r, n, kw)
            }
        }
    }

    pub fn probe(&self, d: &mut Dig, r: &Rng, nq: usize) {
        match self {
            Obj::Bits(v) => probe::bitvec(d, r, v, nq),
            Obj::Rs(v) => probe::rsvec(d, r, v, nq),
            Obj::Sparse(v) => probe::sparse(d, r, v, nq),
            Obj::Ef(v) => probe::ef(d, r, v, nq),
            Obj::Binary(v) => probe::brmq(d, r, v, nq),
            Obj::Fast(v) => probe::frmq(d, r, v, nq),
            Obj::Tree8(t, n, b, s) => probe::tree(d, r, t, *n, *b, *s, nq),
            Obj::Tree12(t, n, b, s) => probe::tree(d, r, t, *n, *b, *s, nq),
            Obj::Tree64(t, n, b, s) => probe::tree(d, r, t, *n, *b, *s, nq),
            Obj::Tree512(t, n, b, s) => probe::tree(d, r, t, *n, *b, *s, nq),
            Obj::Tree1024(t, n, b, s) => probe::tree(d, r, t, *n, *b, *s, nq),
            Obj::Wavelet(w, k) => probe::wavelet(d, r, w, *k, nq),
        }
    }

    pub fn heap_size(&self) -> usize {
        match self {
            Obj::Bits(v) => v.heap_size(),
            Obj::Rs(v) => v.heap_size(),
            Obj::Sparse(v) => v.heap_size(),
            Obj::Ef(v) => v.heap_size(),
            Obj::Binary(v) => v.heap_size(),
            Obj::Fast(v) => v.heap_size(),
            Obj::Tree8(t, ..) => t.heap_size(),
            Obj::Tree12(t, ..) => t.heap_size(),
            Obj::Tree64(t, ..) => t.heap_size(),
            Obj::Tree512(t, ..) => t.heap_size(),
            Obj::Tree1024(t, ..) => t.heap_size(),
            Obj::Wavelet(w, _) => w.heap_size(),
        }
    }
}
