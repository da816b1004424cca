//! C28: refused calls leave no trace, and the documented refusals are raised.
use std::hash::{Hash as _, Hasher as _};
use vers_vecs::trees::{Tree as _, TreeBuilder as _};
use vers_vecs::{BinaryRmq, BitVec, BpBuilder, EliasFanoVec, FastRmq, RsVec, WaveletMatrix};
use vh::objects::{Obj, KINDS};
use vh::probe::Dig;
use vh::wmodel::{symbols, Sym};
use vh::*;

/// a call whose documentation promises a panic
fn must_panic<T>(c: &mut Ctx, what: &str, f: impl FnOnce() -> T) -> R {
    c.n(1);
    match run::guard(f) {
        Ok(_) => Err(format!("{what}: returned instead of panicking as documented")),
        Err(_) => {
            c.hit("documented panics raised");
            Ok(())
        }
    }
}

fn hash(v: &BitVec) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn same(c: &mut Ctx, v: &BitVec, m: &[bool], what: &str) -> R {
    eq!(c, v.len(), m.len(), "length after {what}");
    let mut ones = 0u64;
    for (i, &b) in m.iter().enumerate() {
        if v.get(i) != Some(u64::from(b)) {
            return Err(format!("bit {i} of {} is {:?} instead of {} after {what}", m.len(), v.get(i), u64::from(b)));
        }
        ones += u64::from(b);
    }
    c.n(m.len() as u64);
    eq!(c, v.get(m.len()), None, "bit behind the end after {what}");
    eq!(c, v.count_ones(), ones, "count_ones after {what}");
    eq!(c, v.count_zeros(), m.len() as u64 - ones, "count_zeros after {what}");
    let fresh = BitVec::from_bits(&m.iter().map(|&b| u8::from(b)).collect::<Vec<_>>());
    ck!(c, *v == fresh, "vector is unequal to a fresh one with the same bits after {what}");
    ck!(c, hash(v) == hash(&fresh), "hash differs from a fresh vector with the same bits after {what}");
    Ok(())
}

fn beyond(c: &mut Ctx, n: usize) -> usize {
    match c.rng.below(8) {
        0 => n,
        1 => n + 1,
        2 => n + c.rng.below(64),
        3 => n.next_multiple_of(64),
        4 => n + 64 * (1 + c.rng.below(4)) + c.rng.below(64),
        5 => usize::MAX - c.rng.below(3),
        6 => (1usize << 32) + c.rng.below(n + 1),
        _ => (1usize << 63) + c.rng.below(n + 1),
    }
}

/// edits mixed with refused edits on one bit vector
fn edits(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 600);
    let (mut m, st) = gen::bits(&mut c.rng, n);
    let mut v = gen::bitvec(&mut c.rng, &m);
    c.sig_bits(&m);
    c.describe(format!("history of valid and refused edits on {n} bits ({st})"));
    c.nontrivial();
    for _ in 0..12 {
        let n = m.len();
        let op = c.rng.below(12);
        c.sig(op as u64);
        let before = v.clone();
        let what: String;
        match op {
            0 | 1 => {
                let k = match c.rng.below(4) {
                    0 => 65,
                    1 => 128,
                    2 => usize::MAX,
                    _ => 65 + c.rng.below(1000),
                };
                let w = c.rng.u64();
                what = format!("append_bits({w:#x}, {k}) on {n} bits");
                must_panic(c, &what, || v.append_bits(w, k))?;
            }
            2 => {
                let p = beyond(c, n);
                what = format!("flip_bit({p}) on {n} bits");
                must_panic(c, &what, || v.flip_bit(p))?;
            }
            3 => {
                let p = beyond(c, n);
                what = format!("flip_bit_unchecked({p}) on {n} bits");
                if run::guard(|| v.flip_bit_unchecked(p)).is_ok() {
                    c.hit("flips of unused memory");
                }
            }
            4 => {
                let p = beyond(c, n);
                let b = c.rng.below(2) as u64;
                what = format!("set({p}, {b}) on {n} bits");
                ck!(c, v.set(p, b).is_err(), "{what} was accepted");
            }
            5 => {
                let p = beyond(c, n);
                let b = c.rng.below(2) as u64;
                what = format!("set_unchecked({p}, {b}) on {n} bits");
                let _ = run::guard(|| v.set_unchecked(p, b));
            }
            6 => {
                let p = beyond(c, n).max(n + 1);
                what = format!("split_at({p}) on {n} bits");
                let owned = std::mem::take(&mut v);
                match owned.split_at(p) {
                    Ok(_) => return Err(format!("{what} was accepted")),
                    Err(back) => v = back,
                }
            }
            7 | 8 => {
                // masks of another length: everything is refused, both operands stay
                let k = match c.rng.below(4) {
                    0 => n + 1,
                    1 => n.saturating_sub(1),
                    2 => n.next_multiple_of(64),
                    _ => c.rng.below(2 * n + 2),
                };
                if k == n {
                    continue;
                }
                let mb = gen::bits(&mut c.rng, k).0;
                let mask = gen::bitvec(&mut c.rng, &mb);
                what = format!("refused mask of {k} bits on {n} bits");
                ck!(c, v.mask_and(&mask).is_err(), "mask_and accepted a {what}");
                ck!(c, v.mask_or(&mask).is_err(), "mask_or accepted a {what}");
                ck!(c, v.mask_xor(&mask).is_err(), "mask_xor accepted a {what}");
                ck!(c, v.mask_custom(&mask, |a, b| a & !b).is_err(), "mask_custom accepted a {what}");
                ck!(c, v.apply_mask_and(&mask).is_err(), "apply_mask_and accepted a {what}");
                ck!(c, v.apply_mask_or(&mask).is_err(), "apply_mask_or accepted a {what}");
                ck!(c, v.apply_mask_xor(&mask).is_err(), "apply_mask_xor accepted a {what}");
                ck!(c, v.apply_mask_custom(&mask, |a, b| a & !b).is_err(), "apply_mask_custom accepted a {what}");
                same(c, &mask, &mb, &format!("{what} (the mask)"))?;
            }
            9 => {
                // reads beyond the end may panic or return anything; they must not change anything
                let p = beyond(c, n);
                let k = 1 + c.rng.below(64);
                what = format!("unchecked reads at {p} ({k} wide) on {n} bits");
                let _ = run::guard(|| v.get_unchecked(p));
                let _ = run::guard(|| v.is_bit_set_unchecked(p));
                let _ = run::guard(|| v.get_bits_unchecked(p, k));
                let _ = run::guard(|| v.unpack_element_unchecked(p, k));
                let _ = run::guard(|| v.get_bits(p, k));
                let _ = run::guard(|| v.unpack_element(p, k));
            }
            10 => {
                let k = 1 + c.rng.below(64);
                let w = c.rng.u64();
                what = format!("append_bits({w:#x}, {k}) on {n} bits");
                v.append_bits(w, k);
                for i in 0..k {
                    m.push(w >> i & 1 == 1);
                }
                c.hit("valid edits between refused ones");
            }
            _ => {
                let k = c.rng.below(n / 2 + 2);
                what = format!("drop_last({k}) on {n} bits");
                v.drop_last(k);
                m.truncate(n.saturating_sub(k));
                c.hit("valid edits between refused ones");
            }
        }
        same(c, &v, &m, &what)?;
        if !matches!(op, 3 | 5 | 10 | 11) {
            // the unchecked append builds on the unused bits of the last word: where it was correct before the refused
            // call, it still is
            let (w, k) = (c.rng.u64(), 1 + c.rng.below(64));
            let w = if k < 64 { w & ((1 << k) - 1) } else { w };
            let mut longer = m.clone();
            longer.extend((0..k).map(|i| w >> i & 1 == 1));
            let mut b = before;
            b.append_bits_unchecked(w, k);
            if (0..longer.len()).all(|i| b.get(i) == Some(u64::from(longer[i]))) {
                let mut a = v.clone();
                a.append_bits_unchecked(w, k);
                same(c, &a, &longer, &format!("{what} and append_bits_unchecked({w:#x}, {k})"))?;
                c.hit("unchecked appends after a refused call");
            }
        }
    }
    // the survivor is a fully usable vector
    let rs = RsVec::from_bit_vec(v);
    eq!(c, rs.len(), m.len(), "length of the rank/select vector");
    let pre = model::prefix(&m);
    for i in [0, m.len() / 2, m.len()] {
        eq!(c, rs.rank1(i), pre[i] as usize, "rank1({i}) after a history with refusals");
    }
    Ok(())
}

fn documented(c: &mut Ctx) -> R {
    c.nontrivial();
    match c.rng.below(5) {
        0 => {
            // Elias-Fano: access behind the end panics
            let v = gen::sorted(&mut c.rng, 200).0;
            let ef = EliasFanoVec::from_slice(&v);
            let i = beyond(c, v.len());
            c.sig(v.len() as u64);
            c.sig(i as u64);
            c.describe(format!("Elias-Fano of {} elements, access at {i}", v.len()));
            must_panic(c, &format!("EliasFanoVec::get_unchecked({i}) of {}", v.len()), || ef.get_unchecked(i))?;
            eq!(c, ef.get(i), None, "get({i})");
            for (i, &x) in v.iter().enumerate() {
                eq!(c, ef.get(i), Some(x), "get({i}) after a refused access");
            }
        }
        1 => {
            // empty RMQ
            let b = BinaryRmq::from_vec(Vec::new());
            let f = FastRmq::from_vec(Vec::new());
            let (x, y) = (c.rng.below(5), c.rng.below(5));
            c.sig((x * 5 + y) as u64);
            c.describe(format!("empty RMQ, ranges from {x} and {y}"));
            must_panic(c, "BinaryRmq::range_min_with_range(..) on empty", || b.range_min_with_range(..))?;
            must_panic(c, "FastRmq::range_min_with_range(..) on empty", || f.range_min_with_range(..))?;
            must_panic(c, "BinaryRmq::range_min_with_range(x..=y) on empty", || b.range_min_with_range(x..=y))?;
            must_panic(c, "FastRmq::range_min_with_range(x..=y) on empty", || f.range_min_with_range(x..=y))?;
            must_panic(c, "BinaryRmq::range_min_with_range(x..) on empty", || b.range_min_with_range(x..))?;
            must_panic(c, "FastRmq::range_min_with_range(x..) on empty", || f.range_min_with_range(x..))?;
            ck!(c, b.is_empty() && f.is_empty() && b.len() == 0 && f.len() == 0, "empty RMQ reports a length");
        }
        2 => {
            // bit vector that is no whole number of elements
            let k = 2 + c.rng.below(if c.rng.below(2) == 0 { 63 } else { 130 });
            let n = c.rng.below(40) * k + 1 + c.rng.below(k - 1);
            let bits = gen::bits(&mut c.rng, n).0;
            let bv = gen::bitvec(&mut c.rng, &bits);
            c.sig_bits(&bits);
            c.sig(k as u64);
            c.describe(format!("wavelet matrix from {n} bits with {k} bits per element"));
            must_panic(c, &format!("WaveletMatrix::from_bit_vec({n} bits, {k})"), || WaveletMatrix::from_bit_vec(&bv, k as u16))?;
            must_panic(c, &format!("WaveletMatrix::from_bit_vec_pc({n} bits, {k})"), || {
                WaveletMatrix::from_bit_vec_pc(&bv, k as u16)
            })?;
            same(c, &bv, &bits, "a refused wavelet construction")?;
        }
        3 => {
            // too wide elements
            let k = match c.rng.below(3) {
                0 => 65,
                1 => 65 + c.rng.below(64),
                _ => 65 + c.rng.below(5000),
            };
            let n = c.rng.below(20);
            let v: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
            c.sig(k as u64);
            c.sig(n as u64);
            c.describe(format!("wavelet matrix from a slice of {n} with {k} bits per element"));
            must_panic(c, &format!("WaveletMatrix::from_slice({n} elements, {k})"), || WaveletMatrix::from_slice(&v, k as u16))?;
            must_panic(c, &format!("WaveletMatrix::from_slice_pc({n} elements, {k})"), || {
                WaveletMatrix::from_slice_pc(&v, k as u16)
            })?;
            let mut bv = BitVec::new();
            for _ in 0..n * k {
                bv.append(c.rng.below(2) == 1);
            }
            must_panic(c, &format!("WaveletMatrix::from_bit_vec_pc({n} elements, {k})"), || {
                WaveletMatrix::from_bit_vec_pc(&bv, k as u16)
            })?;
            // the general constructor takes them
            let w = WaveletMatrix::from_bit_vec(&bv, k as u16);
            eq!(c, w.len(), n, "length of the matrix with wide elements");
            for i in 0..n {
                let want: Vec<Option<u64>> = (0..k).map(|j| bv.get(i * k + j)).collect();
                let got = w.get_value(i);
                ck!(
                    c,
                    got.as_ref().is_some_and(|g| g.len() == k && (0..k).all(|j| g.get(j) == want[j])),
                    "element {i} of {n} with {k} bits"
                );
            }
        }
        _ => {
            // tree builder: an unbalanced build is refused with the surplus, a repaired one is accepted
            let n = c.rng.below(300);
            let (bits, _) = gen::tree(&mut c.rng, n + 1);
            let cut = c.rng.below(bits.len() + 1);
            let mut b = BpBuilder::<64>::with_capacity(n as u64);
            let mut excess = 0i64;
            for &x in &bits[..cut] {
                if x {
                    b.enter_node();
                    excess += 1;
                } else {
                    b.leave_node();
                    excess -= 1;
                }
            }
            c.sig_bits(&bits[..cut]);
            c.describe(format!("tree builder stopped after {cut} of {} parentheses", bits.len()));
            match b.build() {
                Ok(t) => {
                    ck!(c, excess == 0, "builder accepted an excess of {excess}");
                    eq!(c, t.size(), cut / 2, "size of the accepted tree");
                }
                Err(e) => {
                    c.hit("refused trees");
                    eq!(c, e, excess, "reported surplus");
                    ck!(c, e != 0, "balanced tree refused");
                }
            }
        }
    }
    Ok(())
}

/// queries with invalid arguments on every structure: whatever they do, all valid answers stay the same
fn queries(c: &mut Ctx) -> R {
    let kind = c.rng.below(KINDS.len());
    let (obj, what) = Obj::generate(&mut c.rng, kind, 3000);
    c.describe(format!("invalid unchecked queries on {what}"));
    c.nontrivial();
    let seed = c.rng.u64();
    let digest = |o: &Obj| {
        let mut d = Dig::default();
        o.probe(&mut d, &rng::Rng::new(seed), 40);
        d
    };
    let before = digest(&obj);
    c.sig(before.h);
    let heap = obj.heap_size();
    for _ in 0..20 {
        let n = 3000;
        let (p, q) = (gen::hostile(&mut c.rng, n), gen::hostile(&mut c.rng, n));
        let x = c.rng.u64();
        let r = match &obj {
            Obj::Bits(b) => run::guard(|| {
                let _ = b.get_unchecked(p);
                let _ = b.get_bits_unchecked(p, 1 + q % 64);
            }),
            Obj::Rs(v) => run::guard(|| {
                let _ = v.get_unchecked(p);
            })
            .and(run::guard(|| {
                let _ = v.get_bits_unchecked(p, 1 + q % 64);
            })),
            Obj::Sparse(v) => run::guard(|| {
                let _ = v.get_unchecked(p as u64);
            })
            .and(run::guard(|| {
                let _ = v.is_set_unchecked(q as u64);
            })),
            Obj::Ef(v) => run::guard(|| {
                let _ = v.get_unchecked(p);
            })
            .and(run::guard(|| {
                let _ = v.predecessor_unchecked(x >> (p % 64));
            }))
            .and(run::guard(|| {
                let _ = v.successor_unchecked(x >> (q % 64));
            })),
            Obj::Binary(v) => run::guard(|| {
                let _ = v.range_min(p, q);
            }),
            Obj::Fast(v) => run::guard(|| {
                let _ = v.range_min(p, q);
            }),
            Obj::Tree8(t, ..) => run::guard(|| {
                let _ = t.parent(p);
                let _ = t.next_sibling(q);
            }),
            Obj::Tree12(t, ..) => run::guard(|| {
                let _ = t.parent(p);
                let _ = t.first_child(q);
            }),
            Obj::Tree64(t, ..) => run::guard(|| {
                let _ = t.last_child(p);
                let _ = t.next_sibling(q);
            }),
            Obj::Tree512(t, ..) => run::guard(|| {
                let _ = t.parent(p);
                let _ = t.previous_sibling(q);
            }),
            Obj::Tree1024(t, ..) => run::guard(|| {
                let _ = t.parent(p);
                let _ = t.is_leaf(q);
            }),
            Obj::Wavelet(w, k) => {
                let s = Sym::random(&c.rng, *k).bv(*k);
                run::guard(|| {
                    let _ = w.get_value_unchecked(p);
                })
                .and(run::guard(|| {
                    let _ = w.rank_range_unchecked(p..q, &s);
                }))
                .and(run::guard(|| {
                    let _ = w.select_unchecked(p, &s);
                }))
                .and(run::guard(|| {
                    let _ = w.quantile_unchecked(p..q, p / 2);
                }))
            }
        };
        c.hit(if r.is_err() { "invalid queries that panicked" } else { "invalid queries that answered" });
        c.n(1);
    }
    let after = digest(&obj);
    ck!(c, before.h == after.h, "answers of {what} changed after invalid queries");
    eq!(c, obj.heap_size(), heap, "heap_size of {what} after invalid queries");
    let copy = digest(&obj.clone());
    ck!(c, before.h == copy.h, "a clone of {what} answers differently after invalid queries");
    Ok(())
}

/// checked wavelet queries that are refused change nothing, and symbols are not modified
fn wavelet(c: &mut Ctx) -> R {
    let k = vh::wmodel::width(&mut c.rng);
    let n = 1 + c.rng.below(120);
    let (v, st) = symbols(&mut c.rng, n, k);
    let (w, ctor) = vh::wmodel::build(&mut c.rng, &v, k);
    c.describe(format!("wavelet matrix of {n} elements, {k} bits, {st}, {ctor}: refused calls"));
    c.nontrivial();
    c.sig(n as u64);
    c.sig(k as u64);
    for s in &v {
        c.sig(s.low());
    }
    for _ in 0..10 {
        // symbols of the wrong width are refused
        let wrong = match c.rng.below(3) {
            0 => k + 1,
            1 => k.saturating_sub(1),
            _ => c.rng.below(2 * k + 2),
        };
        if wrong == k {
            continue;
        }
        let bits = gen::bits(&mut c.rng, wrong).0;
        let s = gen::bitvec(&mut c.rng, &bits);
        let (a, b) = vh::wmodel::range(&mut c.rng, n);
        eq!(c, w.rank_range(a..b, &s), None, "rank_range({a}..{b}) with a symbol of {wrong} bits instead of {k}");
        eq!(c, w.rank(b, &s), None, "rank({b}) with a symbol of {wrong} bits instead of {k}");
        eq!(c, w.select(0, &s), None, "select(0) with a symbol of {wrong} bits instead of {k}");
        eq!(c, w.select_offset(a, 0, &s), None, "select_offset({a}, 0) with a symbol of {wrong} bits instead of {k}");
        same(c, &s, &bits, "refused wavelet queries (the symbol)")?;
        c.hit("symbols of the wrong width refused");
    }
    for (i, s) in v.iter().enumerate() {
        let g = w.get_value(i);
        ck!(
            c,
            g.as_ref().and_then(|g| vh::wmodel::value(g, k)) == Some(*s),
            "element {i} of {n} ({k} bits) after refused calls"
        );
    }
    Ok(())
}

/// Where inputs too large to exist claim to be stored: never mapped, so whoever looks at them crashes at once.
const NOWHERE: usize = 0x1000_0000_0000;

struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if p as usize != NOWHERE {
            std::alloc::System.dealloc(p, l);
        }
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

/// Inputs beyond the documented capacity of the range minimum structures are refused by a panic, not accepted
/// and answered wrongly. The vectors claim a length whose memory does not exist: refusing needs only the length.
fn oversize(c: &mut Ctx) -> R {
    let fake = |n: usize| unsafe { Vec::from_raw_parts(NOWHERE as *mut u64, n, n) };
    let extra = 1 + match c.rng.below(4) {
        0 => c.rng.below(4),
        1 => c.rng.below(1 << 20),
        2 => 1usize << c.rng.below(42),
        _ => c.rng.log_u64(44) as usize,
    };
    let (bin, fast) = ((1usize << 32) + extra, (1usize << 40) + extra);
    c.sig(extra as u64);
    c.describe(format!("inputs of {bin} and {fast} elements"));
    must_panic(c, "BinaryRmq::from_vec of more than 2^32 elements", || BinaryRmq::from_vec(fake(bin)))?;
    must_panic(c, "BinaryRmq::from of more than 2^32 elements", || BinaryRmq::from(fake(bin)))?;
    must_panic(c, "FastRmq::from_vec of more than 2^40 elements", || FastRmq::from_vec(fake(fast)))?;
    must_panic(c, "FastRmq::from of more than 2^40 elements", || FastRmq::from(fake(fast)))?;
    c.nontrivial();
    Ok(())
}

fn main() {
    run::main(
        "C28",
        &[
            Scenario::new("edits", 30_000, 600_000, edits),
            Scenario::new("documented", 20_000, 200_000, documented),
            Scenario::new("queries", 6000, 100_000, queries),
            Scenario::new("wavelet", 6000, 100_000, wavelet),
            Scenario::new("oversize", 400, 4000, oversize),
        ],
    )
}
