//! C07: iterators over the positions of 0-bits or 1-bits.
use vers_vecs::RsVec;
use vh::model::*;
use vh::*;

fn histories(c: &mut Ctx, rs: &RsVec, m: &[bool], rounds: usize, ops: usize) -> R {
    let p1 = positions_of(m, true);
    let p0 = positions_of(m, false);
    for _ in 0..rounds {
        match c.rng.below(6) {
            0 => iters::history(c, "iter1", rs.iter1(), &p1, ops)?,
            1 => iters::history(c, "iter0", rs.iter0(), &p0, ops)?,
            2 => iters::history(c, "select_iter::<false>", rs.select_iter::<false>(), &p1, ops)?,
            3 => iters::history(c, "select_iter::<true>", rs.select_iter::<true>(), &p0, ops)?,
            4 => {
                let it = if c.rng.bool() { rs.clone().into_iter1() } else { rs.clone().into_select_iter::<false>() };
                iters::history(c, "into_iter1", it, &p1, ops)?;
            }
            _ => {
                let it = if c.rng.bool() { rs.clone().into_iter0() } else { rs.clone().into_select_iter::<true>() };
                iters::history(c, "into_iter0", it, &p0, ops)?;
            }
        }
    }
    Ok(())
}

fn complete(c: &mut Ctx, rs: &RsVec, m: &[bool]) -> R {
    let p1 = positions_of(m, true);
    let p0 = positions_of(m, false);
    iters::full(c, "iter1", rs.iter1(), &p1)?;
    iters::full(c, "iter0", rs.iter0(), &p0)?;
    iters::full(c, "into_iter1", rs.clone().into_iter1(), &p1)?;
    iters::full(c, "into_iter0", rs.clone().into_iter0(), &p0)?;
    c.hit_n("complete enumerations", 4);
    bit_sets(c, rs, &p0, &p1)
}

#[cfg(feature = "simd")]
fn bit_sets(c: &mut Ctx, rs: &RsVec, p0: &[usize], p1: &[usize]) -> R {
    fn check(c: &mut Ctx, what: &str, mut it: impl Iterator<Item = usize>, want: &[usize], n: usize) -> R {
        for (i, &w) in want.iter().enumerate() {
            let g = it.next();
            if g != Some(w) {
                return Err(format!("{what}: element {i} of {} in {n} bits: got {g:?}, expected {w}", want.len()));
            }
        }
        for _ in 0..20 {
            let g = it.next();
            if g.is_some() {
                return Err(format!("{what}: extra element {g:?} after {} in {n} bits", want.len()));
            }
        }
        c.n(want.len() as u64 + 20);
        c.hit("bit set enumerations");
        Ok(())
    }
    check(c, "bit_set_iter1", rs.bit_set_iter1(), p1, rs.len())?;
    check(c, "bit_set_iter0", rs.bit_set_iter0(), p0, rs.len())?;
    // adaptors
    let k = c.rng.below(p1.len() + 3);
    let g = rs.bit_set_iter1().nth(k);
    eq!(c, g, p1.get(k).copied(), "bit_set_iter1().nth({k})");
    let g = rs.bit_set_iter0().count();
    eq!(c, g, p0.len(), "bit_set_iter0().count()");
    let g = rs.bit_set_iter1().last();
    eq!(c, g, p1.last().copied(), "bit_set_iter1().last()");
    let (lo, hi) = rs.bit_set_iter1().size_hint();
    ck!(c, lo <= p1.len() && hi.is_none_or(|h| h >= p1.len()), "bit_set_iter1().size_hint() = {:?} for {} elements", (lo, hi), p1.len());
    Ok(())
}
#[cfg(not(feature = "simd"))]
fn bit_sets(_: &mut Ctx, _: &RsVec, _: &[usize], _: &[usize]) -> R {
    Ok(())
}

fn build(c: &mut Ctx, m: &[bool]) -> RsVec {
    RsVec::from_bit_vec(gen::bitvec(&mut c.rng, m))
}

fn small(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 2500);
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    complete(c, &rs, &m)?;
    histories(c, &rs, &m, 6, 40)?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits ({style}): complete enumeration and 6 operation histories"));
    Ok(())
}

fn tiny(c: &mut Ctx) -> R {
    // every length 0..=40 with every remainder, short histories around the ends
    let n = (c.idx % 48) as usize;
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    complete(c, &rs, &m)?;
    histories(c, &rs, &m, 10, 30)?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits ({style}), 10 histories"));
    Ok(())
}

fn blocks(c: &mut Ctx) -> R {
    let n = gen::near(&mut c.rng, 8192, 80_000) + [0usize, 64, 512, 1024, 7, 513][c.rng.below(6)];
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    if c.rng.one_in(3) {
        complete(c, &rs, &m)?;
    }
    histories(c, &rs, &m, 8, 120)?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits ({style}), histories with long skips"));
    Ok(())
}

/// sparse bits many super-blocks apart, skipped from both ends
fn sparse(c: &mut Ctx) -> R {
    let n = c.rng.range(100_000, 2_500_000);
    let sea = c.rng.bool();
    let mut m = vec![sea; n];
    for _ in 0..c.rng.range(1, 40) {
        let l = *c.rng.pick(&[1usize, 1, 1, 2, 64, 600, 9000, 30_000]);
        let a = match c.rng.below(3) {
            0 => gen::near(&mut c.rng, 8192, n),
            _ => c.rng.below(n),
        }
        .min(n - 1);
        let e = (a + l).min(n);
        m[a..e].fill(!sea);
    }
    let rs = build(c, &m);
    if c.rng.one_in(4) {
        complete(c, &rs, &m)?;
    }
    histories(c, &rs, &m, 8, 150)?;
    c.hit("vectors with sparse islands");
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("{n} bits, sparse islands, histories with long skips"));
    Ok(())
}

fn large(c: &mut Ctx) -> R {
    let n = c.rng.range(500_000, 3_000_000);
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    complete(c, &rs, &m)?;
    histories(c, &rs, &m, 10, 200)?;
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("{n} bits ({style}): complete enumeration and histories"));
    Ok(())
}

/// more than 2^32 of either bit: long skips from both ends
fn giant(c: &mut Ctx) -> R {
    let r = big::runs(&c.rng, c.idx);
    let rs = RsVec::from_bit_vec(r.build());
    fn jumps(c: &mut Ctx, r: &big::Runs, bit: bool, it: impl DoubleEndedIterator<Item = usize> + ExactSizeIterator + Clone) -> R {
        let total = r.rank(bit, r.len);
        eq!(c, (it.len(), it.clone().count(), it.clone().last()), (total, total, total.checked_sub(1).map(|k| r.select(bit, k))), "len/count/last of positions of {bit} in {} bits", r.len);
        for _ in 0..12 {
            let mut it = it.clone();
            let (mut lo, mut hi) = (0usize, total);
            for _ in 0..60 {
                let mut n = c.rng.log_u64(33) as usize;
                if c.rng.one_in(3) {
                    n = c.rng.below(4);
                }
                let left = hi - lo;
                if c.rng.bool() {
                    let w = if n < left { Some(r.select(bit, lo + n)) } else { None };
                    lo += (n + 1).min(left);
                    eq!(c, it.nth(n), w, "nth({n}) with {left} of {total} left, bit {bit}");
                } else {
                    let w = if n < left { Some(r.select(bit, hi - 1 - n)) } else { None };
                    hi -= (n + 1).min(left);
                    eq!(c, it.nth_back(n), w, "nth_back({n}) with {left} of {total} left, bit {bit}");
                }
                eq!(c, it.len(), hi - lo, "len after skipping, bit {bit}");
            }
        }
        Ok(())
    }
    jumps(c, &r, true, rs.iter1())?;
    jumps(c, &r, false, rs.iter0())?;
    c.hit("vectors beyond 2^32 bits");
    c.sig(r.len as u64);
    c.nontrivial();
    c.describe(format!("{} bits in {} runs", r.len, r.runs.len()));
    Ok(())
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    let n = gen::sweep(c.idx);
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    complete(c, &rs, &m)?;
    histories(c, &rs, &m, 2, 40)?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.hit("lengths swept");
    c.describe(format!("{n} bits ({style})"));
    Ok(())
}

fn main() {
    run::main(
        "C07",
        &[
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 20, every_length),
            Scenario::new("giant", 1, 8, giant),
            Scenario::new("large", 12, 200, large),
            Scenario::new("sparse", 80, 1500, sparse),
            Scenario::new("tiny", 6_000, 150_000, tiny),
            Scenario::new("small", 6_000, 150_000, small),
            Scenario::new("blocks", 1200, 25_000, blocks),
        ],
    );
}
