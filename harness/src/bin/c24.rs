//! C24: hostile but safe API workloads for the memory sanitizers (AddressSanitizer, Miri, valgrind, checked builds).
//! Answers are not judged here, and a panic is a defined outcome; the instrumentation watches the memory accesses.
use vers_vecs::{BitVec, BpTree, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};
use vh::objects::{Obj, KINDS};
use vh::probe::{self, Dig};
use vh::*;

const TINY: bool = cfg!(miri);
/// Miri has no compress-store
const BITSET: bool = !cfg!(miri);

fn run_quiet(c: &mut Ctx, f: impl FnOnce(&mut Ctx)) {
    if run::guard(|| f(c)).is_err() {
        c.hit("cases that ended in a panic");
    }
}

fn objects(c: &mut Ctx, k: usize) -> R {
    let max = if TINY {
        [40, 200, 700][c.rng.below(3)]
    } else {
        match c.idx % 16 {
            0 if c.idx % 64 == 32 => 700_000,
            0 => 80_000,
            1..=5 => 18_000,
            _ => 2000,
        }
    };
    let nq = if TINY { 6 } else { 60 };
    run_quiet(c, |c| {
        let (o, what) = Obj::generate(&mut c.rng, k, max);
        c.describe(what);
        // a copy has no spare capacity, so that one element too far is outside the allocation
        let o = o.clone();
        let mut d = Dig::default();
        o.probe(&mut d, &c.rng, nq);
        if let Obj::Rs(v) = &o {
            if BITSET {
                probe::bitset(&mut d, v);
            }
        }
        c.sig(d.h);
        c.n(d.n);
        c.nontrivial();
        c.hit(KINDS[k]);
    });
    Ok(())
}

/// vectors that end at every position relative to words, blocks and super-blocks, with all zeros or ones selected
fn ends(c: &mut Ctx) -> R {
    let unit = *c.rng.pick(&[64usize, 512, 8192]);
    let mult = if TINY { 1 + c.rng.below(if unit == 8192 { 1 } else { 3 }) } else { c.rng.below(40) };
    let base = unit * mult;
    let n = (base + c.rng.below(1030)).saturating_sub(515);
    run_quiet(c, |c| {
        let (m, st) = gen::bits(&mut c.rng, n);
        c.sig_bits(&m);
        c.nontrivial();
        c.describe(format!("{n} bits {st}"));
        let bv = BitVec::from_bools(&m).clone();
        let rs = RsVec::from_bit_vec(bv).clone();
        let (z, o) = (rs.rank0(n), rs.rank1(n));
        let step = if TINY { 211 } else { 1 + n / 4000 };
        let mut d = Dig::default();
        for k in (0..z + 2).step_by(step).chain(z.saturating_sub(if TINY { 4 } else { 600 })..z + 2) {
            d.z(rs.select0(k));
        }
        for k in (0..o + 2).step_by(step).chain(o.saturating_sub(if TINY { 4 } else { 600 })..o + 2) {
            d.z(rs.select1(k));
        }
        for p in (n.saturating_sub(if TINY { 4 } else { 70 })..n + 2).chain((0..n).step_by(step)) {
            d.z(rs.rank0(p));
            for w in [1, 2, 63, 64] {
                d.o(rs.get_bits(p, w));
            }
        }
        if BITSET {
            probe::bitset(&mut d, &rs);
        }
        c.n(d.n);
        c.hit("vector ends");
    });
    Ok(())
}

/// positions, ranks, values and ranges far outside the structures
fn hostile(c: &mut Ctx) -> R {
    let n = if TINY { c.rng.below(200) } else { c.rng.below(5000) };
    let q = if TINY { 8 } else { 60 };
    let (m, _) = gen::bits(&mut c.rng, n);
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("hostile arguments on structures over {n} bits"));
    let bv = BitVec::from_bools(&m);
    let rs = RsVec::from_bit_vec(bv.clone());
    let sp = SparseRSVec::from_bitvec(&bv);
    let nums: Vec<u64> = (0..n / 8).map(|i| i as u64 * 3).collect();
    let ef = EliasFanoVec::from_slice(&nums);
    let rmq = FastRmq::from_vec(nums.clone());
    let tree = BpTree::<16>::from_bit_vector(bv.clone());
    let sy: Vec<u64> = (0..n / 8).map(|i| i as u64 & 7).collect();
    let wm = WaveletMatrix::from_slice(&sy, 3);
    for _ in 0..q {
        let (p, w) = (gen::hostile(&mut c.rng, n), gen::hostile(&mut c.rng, 64));
        let x = c.rng.log_u64(64);
        // one guard per call: a documented panic of one must not keep the others from running
        macro_rules! t {
            ($e:expr) => {{
                c.n(1);
                if run::guard(|| {
                    let _ = std::hint::black_box($e);
                })
                .is_err()
                {
                    c.hit("calls that panicked");
                }
            }};
        }
        t!(bv.get(p));
        t!(bv.get_bits(p, w));
        t!(bv.unpack_element(p, w));
        t!(rs.get_bits(p, w));
        t!(rs.rank0(p));
        t!(rs.select0(p));
        t!(rs.select1(p));
        t!(sp.rank1(x));
        t!(sp.get(x));
        t!(sp.select1(p));
        t!(ef.get(p));
        t!(ef.predecessor(x));
        t!(ef.successor(x));
        t!(ef.rank(x));
        t!(ef.delta(p));
        t!(tree.fwd_search(p, w as i64));
        t!(tree.bwd_search(p, -(w as i64 & 0xffff)));
        t!(tree.close(p));
        t!(tree.enclose(p));
        t!(wm.get_value(p));
        t!(wm.rank_u64(p, x));
        t!(wm.select_u64(p, x));
        t!(wm.quantile_u64(p.min(w)..p.max(w), p));
        // documented to panic or to return arbitrary values, never to leave their memory
        t!(bv.get_unchecked(p));
        t!(bv.get_bits_unchecked(p, w));
        t!(rs.get_unchecked(p));
        t!(rs.get_bits_unchecked(p, w));
        t!(ef.get_unchecked(p));
        t!(ef.predecessor_unchecked(x));
        t!(ef.successor_unchecked(x));
        t!(sp.get_unchecked(x));
        t!(rmq.range_min(p, p));
        t!(rmq.range_min(p.min(w), p.max(w)));
        t!(wm.get_u64_unchecked(p));
        t!(wm.rank_u64_unchecked(p, x));
        t!(wm.select_u64_unchecked(p, x));
        t!(wm.get_sorted_u64_unchecked(p));
        t!({
            let mut b = bv.clone();
            b.flip_bit_unchecked(p);
            b.len()
        });
        t!({
            let mut b = bv.clone();
            b.set_unchecked(p, x);
            b.len()
        });
        t!({
            let mut b = bv.clone();
            b.append_bits(x, w);
            b.drop_last(p);
            b.len()
        });
        t!({
            let mut it = rs.iter0();
            (it.nth(p), it.nth_back(w), it.next(), it.next_back())
        });
        t!({
            let mut it = ef.iter();
            (it.nth(p), it.nth_back(w), it.next(), it.next_back())
        });
        t!({
            let mut it = bv.iter();
            (it.nth(w), it.nth_back(p), it.next(), it.next_back())
        });
        c.hit("hostile rounds");
    }
    Ok(())
}

macro_rules! kinds {
    ($($i:ident $k:expr),*) => { $(fn $i(c: &mut Ctx) -> R { objects(c, $k) })* };
}
kinds!(k0 0, k1 1, k2 2, k3 3, k4 4, k5 5, k6 6, k7 7);

fn main() {
    run::main(
        "C24",
        &[
            Scenario::new("ends", 1600, 16_000, ends),
            Scenario::new("hostile", 700, 8000, hostile),
            Scenario::new("BitVec", 500, 5000, k0),
            Scenario::new("RsVec", 700, 7000, k1),
            Scenario::new("SparseRSVec", 300, 3000, k2),
            Scenario::new("EliasFanoVec", 300, 3000, k3),
            Scenario::new("BinaryRmq", 200, 2000, k4),
            Scenario::new("FastRmq", 300, 3000, k5),
            Scenario::new("BpTree", 400, 4000, k6),
            Scenario::new("WaveletMatrix", 300, 3000, k7),
        ],
    );
}
