//! Drives a wide set of queries on a structure and folds every answer into a digest. Two structures with the same
//! contents must give the same digest when probed with equally seeded generators.
use crate::rng::{mix, Rng};
use crate::wmodel::Sym;
use vers_vecs::trees::{IsAncestor, LevelTree, SubtreeSize, Tree};
use vers_vecs::{BinaryRmq, BitVec, BpTree, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};

/// digest of a sequence of answers
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Dig {
    pub h: u64,
    pub n: u64,
}

impl Default for Dig {
    fn default() -> Self {
        Dig { h: 0x5eed, n: 0 }
    }
}

impl Dig {
    #[inline]
    pub fn u(&mut self, x: u64) {
        self.h = mix(self.h, x);
        self.n += 1;
    }
    #[inline]
    pub fn z(&mut self, x: usize) {
        self.u(x as u64);
    }
    #[inline]
    pub fn o(&mut self, x: Option<u64>) {
        match x {
            None => self.u(0x00fa_11ed),
            Some(v) => {
                self.u(v);
                self.h ^= 1;
            }
        }
    }
    #[inline]
    pub fn oz(&mut self, x: Option<usize>) {
        self.o(x.map(|v| v as u64));
    }
    pub fn bv(&mut self, b: &BitVec) {
        self.z(b.len());
        let mut i = 0;
        while i < b.len() {
            let w = (b.len() - i).min(64);
            self.o(b.get_bits(i, w));
            i += w;
        }
    }
    pub fn obv(&mut self, b: Option<BitVec>) {
        match b {
            None => self.u(0x00fa_11ed),
            Some(b) => self.bv(&b),
        }
    }
}

fn pos(r: &Rng, n: usize) -> usize {
    match r.below(8) {
        0 => n,
        1 => n.wrapping_add(r.below(70)),
        2 => n.saturating_sub(1 + r.below(70)),
        3 => (r.below(n / 64 + 1) * 64 + r.below(3)).wrapping_sub(1),
        4 => (r.below(n / 512 + 1) * 512 + r.below(3)).wrapping_sub(1),
        _ => r.below(n + 1),
    }
}

pub fn bitvec(d: &mut Dig, r: &Rng, b: &BitVec, nq: usize) {
    let n = b.len();
    d.z(n);
    d.u(b.count_ones());
    d.u(b.count_zeros());
    d.bv(b);
    for _ in 0..nq {
        let p = pos(r, n);
        d.o(b.get(p));
        let w = 1 + r.below(64);
        d.o(b.get_bits(p, w));
        d.o(b.unpack_element(p / w, w));
    }
    let mut it = b.iter();
    for _ in 0..nq / 4 {
        let k = r.below(n / 8 + 2);
        d.o(if r.bool() { it.nth(k) } else { it.nth_back(k) });
    }
    for x in b.iter().take(nq) {
        d.u(x);
    }
    for l in b.iter_limbs().take(n / 64) {
        d.u(l);
    }
    let m = b.mask_xor(b).expect("same length");
    d.u(m.count_ones());
    let m = b.mask_or(b).expect("same length");
    for _ in 0..nq / 4 {
        d.o(m.get_bits(pos(r, n), 1 + r.below(64)));
    }
    let mut e = b.clone();
    for _ in 0..nq / 8 {
        e.append_bits(r.u64(), r.below(65));
        e.drop_last(r.below(70));
        let p = pos(r, e.len());
        if p < e.len() {
            e.flip_bit(p);
        }
    }
    d.bv(&e);
    if let Ok((x, y)) = b.clone().split_at(r.below(n + 1)) {
        d.bv(&x);
        d.bv(&y);
    }
}

pub fn rsvec(d: &mut Dig, r: &Rng, v: &RsVec, nq: usize) {
    let n = v.len();
    d.z(n);
    let ones = v.rank1(n);
    let zeros = v.rank0(n);
    d.z(ones);
    d.z(zeros);
    for _ in 0..nq {
        let p = pos(r, n);
        d.z(v.rank0(p));
        d.z(v.rank1(p));
        d.z(v.select0(pos(r, zeros)));
        d.z(v.select1(pos(r, ones)));
        d.o(v.get(p));
        d.o(v.get_bits(p, 1 + r.below(64)));
    }
    for x in v.iter0().take(nq) {
        d.z(x);
    }
    for x in v.iter1().rev().take(nq) {
        d.z(x);
    }
    let (mut a, mut b) = (v.iter0(), v.iter1());
    for _ in 0..nq / 4 {
        let k = r.below(zeros / 16 + 2);
        d.oz(if r.bool() { a.nth(k) } else { a.nth_back(k) });
        let k = r.below(ones / 16 + 2);
        d.oz(if r.bool() { b.nth(k) } else { b.nth_back(k) });
    }
    d.z(v.iter0().count());
    d.z(v.iter1().count());
    d.u(v.iter().take(nq).fold(0, |h, x| mix(h, x)));
    d.u(v.iter().rev().take(nq).fold(0, |h, x| mix(h, x)));
    bitset(d, v);
}

pub fn sparse(d: &mut Dig, r: &Rng, v: &SparseRSVec, nq: usize) {
    let n = v.len();
    d.u(n);
    let ones = v.rank1(n) as usize;
    d.z(ones);
    for _ in 0..nq {
        let p = match r.below(4) {
            0 if ones > 0 => v.select1(r.below(ones)).wrapping_add(r.below64(3)).wrapping_sub(1),
            1 => n.saturating_add(r.below64(3)).saturating_sub(1),
            2 => r.log_u64(64),
            _ => r.below64(n.saturating_add(2)),
        };
        d.u(v.rank0(p));
        d.u(v.rank1(p));
        d.o(v.get(p));
        d.u(v.select1(pos(r, ones)));
    }
    for x in v.iter1().take(nq) {
        d.u(x);
    }
}

pub fn ef(d: &mut Dig, r: &Rng, v: &EliasFanoVec, nq: usize) {
    let n = v.len();
    d.z(n);
    let (lo, hi) = (v.get(0).unwrap_or(0), if n > 0 { v.get(n - 1).unwrap_or(0) } else { 0 });
    for _ in 0..nq {
        let i = pos(r, n);
        d.o(v.get(i));
        d.o(v.select(i));
        d.o(v.delta(i));
        let x = match r.below(4) {
            0 if n > 0 => v.get(r.below(n)).unwrap_or(0).wrapping_add(r.below64(3)).wrapping_sub(1),
            1 => r.log_u64(64),
            _ => {
                if lo <= hi {
                    r.range64(lo, hi)
                } else {
                    lo
                }
            }
        };
        d.u(v.rank(x));
        d.o(v.predecessor(x));
        d.o(v.successor(x));
    }
    let mut it = v.iter();
    for _ in 0..nq / 4 {
        let k = r.below(n / 16 + 2);
        d.o(if r.bool() { it.nth(k) } else { it.nth_back(k) });
    }
    for x in v.iter().take(nq) {
        d.u(x);
    }
    for x in v.iter().rev().take(nq) {
        d.u(x);
    }
}

pub fn brmq(d: &mut Dig, r: &Rng, v: &BinaryRmq, nq: usize) {
    let n = v.len();
    d.z(n);
    d.u(v.iter().fold(0, |h, &x| mix(h, x)));
    if n == 0 {
        return;
    }
    for _ in 0..nq {
        let (a, b) = crate::wmodel::range_ref(r, n);
        d.z(v.range_min(a, b - 1));
        d.z(v.range_min_with_range(a..b));
    }
    d.z(v.range_min_with_range(..));
}

pub fn frmq(d: &mut Dig, r: &Rng, v: &FastRmq, nq: usize) {
    let n = v.len();
    d.z(n);
    d.u(v.iter().fold(0, |h, &x| mix(h, x)));
    if n == 0 {
        return;
    }
    for _ in 0..nq {
        let (a, b) = crate::wmodel::range_ref(r, n);
        d.z(v.range_min(a, b - 1));
        d.z(v.range_min_with_range(a..b));
    }
    d.z(v.range_min_with_range(..));
}

/// any bit sequence; the level queries only when `single_root`
pub fn tree<const B: usize>(d: &mut Dig, r: &Rng, t: &BpTree<B>, len: usize, balanced: bool, single_root: bool, nq: usize) {
    let n = t.size();
    d.z(n);
    d.oz(t.root());
    for _ in 0..nq {
        let p = pos(r, len);
        if p < len {
            let rel = match r.below(4) {
                0 => -1,
                1 => 1,
                2 => r.below(40) as i64 - 20,
                _ => r.below(len + 1) as i64 - (len / 2) as i64,
            };
            d.oz(t.fwd_search(p, rel));
            d.oz(t.bwd_search(p, rel));
            d.u(t.excess(p) as u64);
        }
        if n == 0 || !balanced {
            continue;
        }
        let i = r.below(n);
        let h = t.node_handle(i);
        d.z(h);
        d.z(t.node_index(h));
        let cl = t.close(h);
        d.oz(cl);
        if let Some(cl) = cl {
            d.oz(t.open(cl));
        }
        d.oz(t.enclose(h));
        d.oz(t.parent(h));
        d.oz(t.first_child(h));
        d.oz(t.last_child(h));
        d.oz(t.next_sibling(h));
        d.oz(t.previous_sibling(h));
        d.u(u64::from(t.is_leaf(h)));
        d.u(t.depth(h));
        d.oz(t.subtree_size(h));
        let g = t.node_handle(r.below(n));
        d.o(t.is_ancestor(h, g).map(u64::from));
        for c in t.children(h).take(5) {
            d.z(c);
        }
        for c in t.rev_children(h).take(5) {
            d.z(c);
        }
        for c in t.subtree_iter(h).take(5) {
            d.z(c);
        }
        for c in t.subtree_post_iter(h).take(5) {
            d.z(c);
        }
        if single_root {
            d.oz(t.level_next(h));
            d.oz(t.level_prev(h));
            let l = t.depth(h);
            d.oz(t.level_ancestor(h, r.below64(l + 2)));
            d.oz(t.level_leftmost(r.below64(l + 2)));
            d.oz(t.level_rightmost(r.below64(l + 2)));
        }
    }
    if balanced {
        for x in t.dfs_iter().take(nq) {
            d.z(x);
        }
        for x in t.dfs_post_iter().take(nq) {
            d.z(x);
        }
    }
}

pub fn wavelet(d: &mut Dig, r: &Rng, w: &WaveletMatrix, k: usize, nq: usize) {
    let n = w.len();
    d.z(n);
    d.z(w.bits_per_element());
    let sym = |r: &Rng| -> BitVec {
        if n > 0 && r.below(4) > 0 {
            let mut b = w.get_value(r.below(n)).expect("in range");
            if r.one_in(4) {
                b.flip_bit(r.below(k));
            }
            b
        } else {
            Sym::random(r, k).bv(k)
        }
    };
    for _ in 0..nq {
        let i = pos(r, n);
        d.obv(w.get_value(i));
        d.o(w.get_u64(i));
        d.obv(w.get_sorted(i));
        let s = sym(r);
        let x = s.get_bits(0, k.min(64)).unwrap_or(0);
        d.oz(w.rank(i, &s));
        d.oz(w.rank_u64(i, x));
        d.oz(w.select(r.below(n / 2 + 2), &s));
        d.oz(w.select_u64(r.below(n / 2 + 2), x));
        if n > 0 {
            let (a, b) = crate::wmodel::range_ref(r, n);
            d.oz(w.rank_range(a..b, &s));
            d.oz(w.rank_range_u64(a..b, x));
            d.oz(w.rank_offset(a, b, &s));
            d.oz(w.select_offset(a, r.below(b - a + 1), &s));
            d.oz(w.select_offset_u64(a, r.below(b - a + 1), x));
            d.obv(w.quantile(a..b, r.below(b - a)));
            d.o(w.quantile_u64(a..b, r.below(b - a)));
            d.obv(w.range_min(a..b));
            d.o(w.range_max_u64(a..b));
            d.obv(w.range_median(a..b));
            d.obv(w.predecessor(a..b, &s));
            d.obv(w.successor(a..b, &s));
            d.o(w.predecessor_u64(a..b, x));
            d.o(w.successor_u64(a..b, x));
        }
    }
    for b in w.iter().take(nq.min(60)) {
        d.bv(&b);
    }
    for b in w.iter_sorted().take(nq.min(60)) {
        d.bv(&b);
    }
    if let Some(it) = w.iter_u64() {
        for x in it.rev().take(nq.min(60)) {
            d.u(x);
        }
    }
}

/// full walk of the bit set iterators; builds without them walk the bits, which has to give the same positions
#[cfg(all(not(miri), feature = "simd", target_arch = "x86_64", target_feature = "avx", target_feature = "avx2", target_feature = "avx512f", target_feature = "avx512bw"))]
pub fn bitset(d: &mut Dig, v: &RsVec) {
    for x in v.bit_set_iter0() {
        d.z(x);
    }
    for x in v.bit_set_iter1() {
        d.z(x);
    }
}
#[cfg(not(all(not(miri), feature = "simd", target_arch = "x86_64", target_feature = "avx", target_feature = "avx2", target_feature = "avx512f", target_feature = "avx512bw")))]
pub fn bitset(d: &mut Dig, v: &RsVec) {
    for b in [0, 1] {
        for i in 0..v.len() {
            if v.get(i) == Some(b) {
                d.z(i);
            }
        }
    }
}
