//! C08: equality of rank/select vectors by every algorithm; conversions keep the bits.
use vers_vecs::{BitVec, BpTree, RsVec};
use vh::model::*;
use vh::*;

fn compare(c: &mut Ctx, a: &RsVec, b: &RsVec, want: bool, what: &str) -> R {
    let n = (a.len(), b.len());
    eq!(c, a == b, want, "== of vectors of {n:?} bits ({what})");
    eq!(c, b == a, want, "== (swapped) of vectors of {n:?} bits ({what})");
    eq!(c, a != b, !want, "!= of vectors of {n:?} bits ({what})");
    eq!(c, a.full_equals(b), want, "full_equals of vectors of {n:?} bits ({what})");
    eq!(c, b.full_equals(a), want, "full_equals (swapped) of vectors of {n:?} bits ({what})");
    eq!(c, a.sparse_equals::<true>(b), want, "sparse_equals::<true> of vectors of {n:?} bits ({what})");
    eq!(c, b.sparse_equals::<true>(a), want, "sparse_equals::<true> (swapped) of vectors of {n:?} bits ({what})");
    eq!(c, a.sparse_equals::<false>(b), want, "sparse_equals::<false> of vectors of {n:?} bits ({what})");
    eq!(c, b.sparse_equals::<false>(a), want, "sparse_equals::<false> (swapped) of vectors of {n:?} bits ({what})");
    Ok(())
}

fn build(c: &mut Ctx, m: &[bool]) -> RsVec {
    RsVec::from_bit_vec(gen::bitvec(&mut c.rng, m))
}

/// exchange one 1-bit and one 0-bit, keeping the counts
fn exchange(c: &mut Ctx, m: &[bool]) -> Option<Vec<bool>> {
    let n = m.len();
    let want = c.rng.bool();
    let tries = 200;
    let p = (0..tries).map(|_| read_pos(c, n, 1)).find(|&p| m[p] == want).or_else(|| m.iter().position(|&b| b == want))?;
    let q = match c.rng.below(3) {
        // neighbour
        0 => (1..n).flat_map(|d| [p.checked_sub(d), Some(p + d)]).flatten().find(|&q| q < n && m[q] != want)?,
        1 => m.iter().rposition(|&b| b != want)?,
        _ => (0..tries).map(|_| read_pos(c, n, 1)).find(|&q| m[q] != want).or_else(|| m.iter().position(|&b| b != want))?,
    };
    let mut v = m.to_vec();
    v.swap(p, q);
    Some(v)
}

fn pairs(c: &mut Ctx, m: &[bool], tries: usize) -> R {
    let n = m.len();
    let a = build(c, m);
    let b = build(c, m);
    compare(c, &a, &b, true, "equal contents, different histories")?;
    compare(c, &a, &a.clone(), true, "clone")?;
    c.hit_n("equal pairs", 2);
    for i in 0..tries {
        if n == 0 {
            break;
        }
        let p = match i {
            0 => n - 1,
            1 => 0,
            _ => read_pos(c, n, 1),
        };
        let mut m2 = m.to_vec();
        m2[p] = !m2[p];
        let b = build(c, &m2);
        compare(c, &a, &b, false, "one bit differs")?;
        c.hit("pairs differing in one bit");
        if let Some(m3) = exchange(c, m) {
            let b = build(c, &m3);
            compare(c, &a, &b, false, "one 1 and one 0 exchanged")?;
            c.hit("pairs with equal counts but different contents");
        }
    }
    // lengths differ, one is a prefix of the other
    let ext = c.rng.bool();
    let k = c.rng.range(1, 100);
    let mut m4 = m.to_vec();
    m4.extend((0..k).map(|_| ext));
    let b = build(c, &m4);
    compare(c, &a, &b, false, "prefix")?;
    c.hit("pairs differing in length");
    Ok(())
}

fn small(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 3000);
    let (m, style) = gen::bits(&mut c.rng, n);
    pairs(c, &m, 4)?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits ({style}): equal, one-bit, exchanged and prefix pairs"));
    Ok(())
}

fn medium(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 200_000);
    let (m, style) = gen::bits(&mut c.rng, n);
    pairs(c, &m, 2)?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits ({style})"));
    Ok(())
}

/// above and around the four million bit threshold
fn large(c: &mut Ctx) -> R {
    let n = match c.idx % 4 {
        0 => 4_000_000 + c.rng.below(3) - 1,
        1 => 4_000_001,
        _ => c.rng.range(4_000_002, 4_300_000),
    };
    let mut m = vec![false; n];
    // keep it sparse in one of the bits so that comparing stays cheap, sometimes dense
    match c.rng.below(4) {
        0 => {
            let (d, _) = gen::bits(&mut c.rng, n);
            m = d;
        }
        k => {
            let ones = 1 + c.rng.below(3000);
            for _ in 0..ones {
                let p = read_pos(c, n, 1);
                m[p] = true;
            }
            if k == 1 {
                m.iter_mut().for_each(|b| *b = !*b);
            }
        }
    }
    pairs(c, &m, 2)?;
    c.hit("pairs above four million bits");
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("{n} bits"));
    Ok(())
}

/// beyond 2^32 bits, sparse in one of the bits
fn giant(c: &mut Ctx) -> R {
    let shape = 1 + c.idx % 2;
    let r = big::runs(&c.rng, shape);
    let n = r.len;
    let bv = r.build();
    let a = RsVec::from_bit_vec(bv.clone());
    let sparse = |c: &mut Ctx, a: &RsVec, b: &RsVec, want: bool, what: &str| -> R {
        eq!(c, a == b, want, "== of vectors of {n} bits ({what})");
        eq!(c, a.full_equals(b), want, "full_equals of vectors of {n} bits ({what})");
        // by the rarer bit: shape 1 is mostly ones, shape 2 mostly zeros
        let g = if a.rank0(n) < a.rank1(n) { a.sparse_equals::<true>(b) } else { a.sparse_equals::<false>(b) };
        eq!(c, g, want, "sparse_equals of vectors of {n} bits ({what})");
        Ok(())
    };
    sparse(c, &a, &RsVec::from_bit_vec(bv.clone()), true, "equal")?;
    // exchange a 1 and a 0 beyond 2^32, keeping the counts
    let mut m = bv;
    let p = n - 1 - c.rng.below(60_000);
    let q = (0..n).rev().find(|&q| r.get(q) != r.get(p)).unwrap_or(0);
    m.flip_bit(p);
    m.flip_bit(q);
    let b = RsVec::from_bit_vec(m);
    sparse(c, &a, &b, false, &format!("bits {p} and {q} exchanged"))?;
    drop(b);
    let back = a.into_bit_vec();
    eq!(c, back.len(), n, "length after conversion back");
    for _ in 0..2000 {
        let p = c.rng.below(n);
        eq!(c, back.get(p), Some(u64::from(r.get(p))), "bit {p} of {n} after conversion back");
    }
    c.hit("pairs beyond 2^32 bits");
    c.sig(n as u64);
    c.nontrivial();
    c.describe(format!("{n} bits"));
    Ok(())
}

/// BitVec -> RsVec / BpTree -> BitVec / RsVec
fn conversions(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 40_000);
    let (m, style) = gen::bits(&mut c.rng, n);
    let bv = gen::bitvec(&mut c.rng, &m);
    let rs = RsVec::from(bv.clone());
    eq!(c, rs.len(), n, "RsVec length");
    let got: Vec<bool> = rs.iter().map(|b| b == 1).collect();
    ck!(c, got == m, "RsVec::iter differs from the {n} source bits");
    let back = if c.rng.bool() { rs.clone().into_bit_vec() } else { BitVec::from(rs.clone()) };
    observe_bitvec(c, &back, &m, 10).map_err(|e| format!("BitVec -> RsVec -> BitVec: {e}"))?;
    ck!(c, back == bv, "converted vector differs from the original");
    // the converted vector is editable
    let mut b2 = back;
    let mut m2 = m.clone();
    let (x, k) = (c.rng.u64(), c.rng.below(65));
    b2.append_bits(x, k);
    m2.extend(bits_of(x, k));
    observe_bitvec(c, &b2, &m2, 4).map_err(|e| format!("append after conversion: {e}"))?;
    let rs2 = RsVec::from(b2);
    let got: Vec<bool> = rs2.iter().map(|b| b == 1).collect();
    ck!(c, got == m2, "second conversion changed bits");
    let t: BpTree<64> = BpTree::from(bv.clone());
    let back = BitVec::from(t.clone());
    observe_bitvec(c, &back, &m, 4).map_err(|e| format!("BitVec -> BpTree -> BitVec: {e}"))?;
    let r3 = RsVec::from(t.clone());
    ck!(c, r3 == rs, "BpTree -> RsVec differs");
    let r4 = t.into_parentheses_vec();
    compare(c, &r4, &rs, true, "into_parentheses_vec")?;
    let t: BpTree<512> = BpTree::from_bit_vector(bv);
    let r5 = t.into_parentheses_vec();
    compare(c, &r5, &rs, true, "into_parentheses_vec")?;
    c.hit("conversion round trips");
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits ({style}) through RsVec and BpTree and back"));
    Ok(())
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    let n = gen::sweep(c.idx);
    let (m, style) = gen::bits(&mut c.rng, n);
    pairs(c, &m, 2)?;
    c.hit("lengths swept");
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits ({style})"));
    Ok(())
}

/// a difference at any single position, and any exchange of neighbours
fn every_position(c: &mut Ctx) -> R {
    let n = if cfg!(miri) { 100 } else { c.rng.range(600, 17_000) };
    let (m, style) = gen::bits(&mut c.rng, n);
    let a = build(c, &m);
    let mut bv = BitVec::from_bools(&m);
    for p in 0..n {
        bv.flip_bit(p);
        let b = RsVec::from_bit_vec(bv.clone());
        let g = (a == b, a.full_equals(&b), b.full_equals(&a), a.sparse_equals::<true>(&b), a.sparse_equals::<false>(&b));
        if g != (false, false, false, false, false) {
            return Err(format!("vectors of {n} bits ({style}) differing at bit {p}: (==, full, full swapped, sparse 0, sparse 1) = {g:?}"));
        }
        if p + 1 < n && m[p] != m[p + 1] {
            // counts stay equal
            bv.flip_bit(p + 1);
            let b = RsVec::from_bit_vec(bv.clone());
            let g = (a == b, a.full_equals(&b), a.sparse_equals::<true>(&b), a.sparse_equals::<false>(&b));
            if g != (false, false, false, false) {
                return Err(format!("vectors of {n} bits ({style}) with bits {p} and {} exchanged: (==, full, sparse 0, sparse 1) = {g:?}", p + 1));
            }
            bv.flip_bit(p + 1);
        }
        bv.flip_bit(p);
    }
    c.n(9 * n as u64);
    c.hit("vectors with every position changed");
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("every single-bit difference of {n} bits ({style})"));
    Ok(())
}

fn main() {
    run::main(
        "C08",
        &[
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 10, every_length),
            Scenario::new("every-position", 12, 200, every_position),
            Scenario::new("giant", 1, 4, giant),
            Scenario::new("large", 16, 200, large),
            Scenario::new("medium", 250, 5000, medium),
            Scenario::new("small", 8000, 200_000, small),
            Scenario::new("conversions", 2500, 60_000, conversions),
        ],
    );
}
