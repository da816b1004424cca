//! C11: a sparse vector answers as the plain bit vector it stands for.
use vers_vecs::{BitVec, SparseRSVec};
use vh::model::*;
use vh::*;

fn observe(c: &mut Ctx, s: &SparseRSVec, ones: &[u64], len: u64, qs: &[u64], what: &str) -> R {
    eq!(c, (s.len(), s.is_empty()), (len, len == 0), "{what}: len");
    let n1 = ones.len() as u64;
    for &q in qs {
        if q < len {
            let r = ones.partition_point(|&x| x < q) as u64;
            let b = ones.binary_search(&q).is_ok();
            let g = (s.rank1(q), s.rank0(q), s.get(q), s.is_set(q), s.get_unchecked(q), s.is_set_unchecked(q));
            let w = (r, q - r, Some(u64::from(b)), Some(b), u64::from(b), b);
            if g != w {
                return Err(format!(
                    "{what}: position {q} of {len} bits with {n1} ones {:?}..{:?}: (rank1, rank0, get, is_set, unchecked) = {g:?}, expected {w:?}",
                    ones.first(),
                    ones.last()
                ));
            }
            c.n(6);
            c.hit(if b { "queries at 1-bits" } else { "queries at 0-bits" });
        } else {
            eq!(c, (s.rank1(q), s.rank0(q)), (n1, len - n1), "{what}: ranks at {q} past the end of {len} bits");
            eq!(c, (s.get(q), s.is_set(q)), (None, None), "{what}: reads at {q} past the end of {len} bits");
            c.hit("queries past the end");
        }
    }
    let step = (ones.len() / 3000).max(1);
    for (i, &x) in ones.iter().enumerate().step_by(step) {
        if s.select1(i) != x {
            return Err(format!("{what}: select1({i}) of {n1}: got {}, expected {x}", s.select1(i)));
        }
        if s.select1(s.rank1(x) as usize) != x {
            return Err(format!("{what}: select1(rank1({x})) = {}", s.select1(s.rank1(x) as usize)));
        }
        c.n(2);
        c.hit("selects");
    }
    for k in [ones.len(), ones.len() + 1, usize::MAX, 1 << 63] {
        eq!(c, s.select1(k), len, "{what}: select1({k}) with {n1} ones");
    }
    let it: Vec<u64> = s.iter1().collect();
    c.n(it.len() as u64);
    ck!(c, it == ones, "{what}: iter1 yields {} positions that differ from the {n1} ones", it.len());
    Ok(())
}

fn queries(c: &mut Ctx, ones: &[u64], len: u64, count: usize) -> Vec<u64> {
    let mut q = gen::values(&mut c.rng, ones, count);
    q.extend([len, len.saturating_sub(1), len.saturating_add(1), len / 2]);
    for _ in 0..count / 4 {
        q.push(if len == 0 { 0 } else { c.rng.below64(len) });
        q.push(len.saturating_add(c.rng.log_u64(64)));
    }
    q
}

fn finish(c: &mut Ctx, ones: &[u64], len: u64, style: &str) {
    for &x in ones {
        c.sig(x);
    }
    c.sig(len);
    if len > 0 {
        c.nontrivial();
    }
    c.describe(format!("{} ones in {len} bits ({style})", ones.len()));
}

/// from a list of positions, with any length
fn positions(c: &mut Ctx, max: usize, nq: usize) -> R {
    let (mut v, style) = gen::sorted(&mut c.rng, max);
    v.dedup();
    if v.last() == Some(&u64::MAX) {
        // position 2^64-1 would need length 2^64
        v.pop();
    }
    let min_len = v.last().map_or(0, |x| x + 1);
    let len = match c.rng.below(5) {
        0 | 1 => min_len,
        2 => min_len.saturating_add(1),
        3 => min_len.saturating_add(c.rng.log_u64(64)),
        _ => u64::MAX,
    };
    let s = SparseRSVec::new(&v, len);
    let qs = queries(c, &v, len, nq);
    observe(c, &s, &v, len, &qs, style)?;
    if c.rng.one_in(8) {
        let s2 = s.clone();
        observe(c, &s2, &v, len, &qs, "clone")?;
    }
    finish(c, &v, len, style);
    Ok(())
}
fn positions_small(c: &mut Ctx) -> R {
    positions(c, 100, 80)
}
fn positions_large(c: &mut Ctx) -> R {
    positions(c, 60_000, 6000)
}

/// from a bit vector, directly and inverted; every position
fn bitvecs(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 3000);
    bitvecs_of(c, n)
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    c.hit("lengths swept");
    bitvecs_of(c, gen::sweep(c.idx))
}

fn bitvecs_of(c: &mut Ctx, n: usize) -> R {
    let (m, style) = gen::bits(&mut c.rng, n);
    let bv = gen::bitvec(&mut c.rng, &m);
    let ones: Vec<u64> = positions_of(&m, true).iter().map(|&x| x as u64).collect();
    let zeros: Vec<u64> = positions_of(&m, false).iter().map(|&x| x as u64).collect();
    let len = n as u64;
    let qs: Vec<u64> = (0..len + 3).chain([u64::MAX, len + 1000]).collect();
    observe(c, &SparseRSVec::from_bitvec(&bv), &ones, len, &qs, "from_bitvec")?;
    observe(c, &SparseRSVec::from_bitvec_inverted(&bv), &zeros, len, &qs, "from_bitvec_inverted")?;
    observe(c, &SparseRSVec::new(&ones, len), &ones, len, &qs, "new")?;
    ck!(c, bv == BitVec::from_bools(&m), "source vector changed");
    c.hit_n("sparse vectors from bit vectors", 3);
    finish(c, &ones, len, style);
    Ok(())
}

/// more than 65536 and more than a million ones
fn positions_huge(c: &mut Ctx) -> R {
    let n = if c.idx % 4 == 0 { c.rng.range(1_000_000, 2_500_000) } else { c.rng.range(60_000, 300_000) };
    let gap = [2u64, 3, 64, 5000, 1 << 20, 1 << 40][c.rng.below(6)];
    let mut v: Vec<u64> = Vec::with_capacity(n);
    let mut x = c.rng.log_u64(40);
    for _ in 0..n {
        v.push(x);
        let g = if c.rng.one_in(50_000) { gap * 10_000 } else { gap };
        x += 1 + c.rng.below64(g);
    }
    let len = v[n - 1] + 1 + c.rng.below64(1000);
    let s = SparseRSVec::new(&v, len);
    let qs = queries(c, &v, len, 20_000);
    observe(c, &s, &v, len, &qs, "huge")?;
    c.hit("sparse vectors with more than 60000 ones");
    finish(c, &v, len, "huge");
    Ok(())
}

/// from bit vectors of many million bits
fn bitvecs_huge(c: &mut Ctx) -> R {
    let n = c.rng.range(100_000, 6_000_000);
    let mut m = vec![false; n];
    let k = 1 + c.rng.log_u64(17) as usize;
    for _ in 0..k {
        m[c.rng.below(n)] = true;
    }
    let inverted = c.rng.bool();
    if inverted {
        m.iter_mut().for_each(|b| *b = !*b);
    }
    let bv = gen::bitvec(&mut c.rng, &m);
    let ps: Vec<u64> = positions_of(&m, !inverted).iter().map(|&x| x as u64).collect();
    let len = n as u64;
    let s = if inverted { SparseRSVec::from_bitvec_inverted(&bv) } else { SparseRSVec::from_bitvec(&bv) };
    let qs = queries(c, &ps, len, 10_000);
    observe(c, &s, &ps, len, &qs, if inverted { "from_bitvec_inverted, huge" } else { "from_bitvec, huge" })?;
    c.hit("sparse vectors from long bit vectors");
    finish(c, &ps, len, "huge");
    Ok(())
}

/// from a bit vector beyond 2^32 bits with few ones (zeros)
fn bitvecs_giant(c: &mut Ctx) -> R {
    let n = (1usize << 32) + 1 + c.rng.below(100_000);
    let inverted = c.rng.bool();
    let mut bv = if inverted { BitVec::from_ones(n) } else { BitVec::from_zeros(n) };
    let mut ps: Vec<u64> = (0..3000).map(|_| if c.rng.bool() { c.rng.below(n) } else { n - 1 - c.rng.below(100_000) } as u64).collect();
    ps.extend([(1 << 32) - 1, 1 << 32, n as u64 - 1]);
    ps.sort_unstable();
    ps.dedup();
    for &p in &ps {
        bv.flip_bit(p as usize);
    }
    let len = n as u64;
    let s = if inverted { SparseRSVec::from_bitvec_inverted(&bv) } else { SparseRSVec::from_bitvec(&bv) };
    let qs = queries(c, &ps, len, 4000);
    observe(c, &s, &ps, len, &qs, "from a bit vector beyond 2^32 bits")?;
    c.hit("sparse vectors from bit vectors beyond 2^32 bits");
    finish(c, &ps, len, "giant");
    Ok(())
}

/// the From conversions stand for the bit vector they are given
fn from_traits(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 1500).max(1);
    let (m, style) = gen::bits(&mut c.rng, n);
    let bv = gen::bitvec(&mut c.rng, &m);
    let ones: Vec<u64> = positions_of(&m, true).iter().map(|&x| x as u64).collect();
    let zeros: Vec<u64> = positions_of(&m, false).iter().map(|&x| x as u64).collect();
    let len = n as u64;
    let qs: Vec<u64> = (0..len + 2).collect();
    for by_ref in [true, false] {
        let s = if by_ref { SparseRSVec::from(&bv) } else { SparseRSVec::from(bv.clone()) };
        let direct = observe(c, &s, &ones, len, &qs, "From<BitVec>");
        if let Err(e) = direct {
            match observe(c, &s, &zeros, len, &qs, "From<BitVec>") {
                // the recorded defect: the conversion yields exactly the inverted vector
                Ok(()) => c.known(if by_ref {
                    "From<&BitVec> for SparseRSVec yields the inverted vector"
                } else {
                    "From<BitVec> for SparseRSVec yields the inverted vector"
                }),
                Err(_) => return Err(e),
            }
        }
    }
    c.hit("From conversions");
    finish(c, &ones, len, style);
    Ok(())
}

/// every position of vectors of more than 2^16 bits
fn every_position(c: &mut Ctx) -> R {
    let n = gen::dense(&mut c.rng);
    let (m, style) = gen::bits(&mut c.rng, n);
    let inverted = c.rng.bool();
    let bv = gen::bitvec(&mut c.rng, &m);
    let s = if inverted { SparseRSVec::from_bitvec_inverted(&bv) } else { SparseRSVec::from_bitvec(&bv) };
    let ps: Vec<u64> = positions_of(&m, !inverted).iter().map(|&x| x as u64).collect();
    let qs: Vec<u64> = (0..n as u64 + 3).collect();
    observe(c, &s, &ps, n as u64, &qs, style)?;
    for (i, &x) in ps.iter().enumerate() {
        if s.select1(i) != x {
            return Err(format!("{style}: select1({i}) of {}: got {}, expected {x}", ps.len(), s.select1(i)));
        }
    }
    c.n(ps.len() as u64);
    c.hit("vectors with every position queried");
    finish(c, &ps, n as u64, style);
    Ok(())
}


fn main() {
    run::main(
        "C11",
        &[
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 10, every_length),
            Scenario::new("every-position", 20, 500, every_position),
            Scenario::new("bitvecs_giant", 1, 4, bitvecs_giant),
            Scenario::new("positions_huge", 24, 800, positions_huge),
            Scenario::new("bitvecs_huge", 24, 800, bitvecs_huge),
            Scenario::new("positions_small", 40_000, 1_000_000, positions_small),
            Scenario::new("positions_large", 400, 8_000, positions_large),
            Scenario::new("bitvecs", 2500, 60_000, bitvecs),
            Scenario::new("from_traits", 400, 8000, from_traits),
        ],
    );
}
