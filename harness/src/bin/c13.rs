//! C13: every element iterator obeys the iterator contract.
use vers_vecs::{BitVec, EliasFanoVec, RsVec, WaveletMatrix};
use vh::wmodel::{build, symbols, width};
use vh::*;

fn bits64(b: &[bool]) -> Vec<u64> {
    b.iter().map(|&x| u64::from(x)).collect()
}

fn bit_vec(c: &mut Ctx, n: usize, rounds: usize) -> R {
    let (bits, style) = gen::bits(&mut c.rng, n);
    let want = bits64(&bits);
    let mut bv: BitVec = gen::bitvec(&mut c.rng, &bits);
    c.sig_bits(&bits);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("BitVec and RsVec of {n} bits ({style})"));
    iters::full(c, "BitVec::iter", bv.iter(), &want)?;
    for _ in 0..rounds {
        iters::history(c, "BitVec::iter", bv.iter(), &want, 40)?;
        iters::history(c, "&BitVec::into_iter", (&bv).into_iter(), &want, 40)?;
        iters::history(c, "&mut BitVec::into_iter", (&mut bv).into_iter(), &want, 40)?;
        iters::history(c, "BitVec::into_iter", bv.clone().into_iter(), &want, 40)?;
    }
    iters::full(c, "BitVec::into_iter", bv.clone().into_iter(), &want)?;
    let mut rs = RsVec::from_bit_vec(bv);
    iters::full(c, "RsVec::iter", rs.iter(), &want)?;
    for _ in 0..rounds {
        iters::history(c, "RsVec::iter", rs.iter(), &want, 40)?;
        iters::history(c, "&RsVec::into_iter", (&rs).into_iter(), &want, 40)?;
        iters::history(c, "&mut RsVec::into_iter", (&mut rs).into_iter(), &want, 40)?;
        iters::history(c, "RsVec::into_iter", rs.clone().into_iter(), &want, 40)?;
    }
    iters::full(c, "RsVec::into_iter", rs.into_iter(), &want)
}

fn ef(c: &mut Ctx, max: usize, rounds: usize) -> R {
    let (v, style) = gen::sorted(&mut c.rng, max);
    ef_over(c, &v, &style.to_string(), rounds)
}
fn ef_over(c: &mut Ctx, v: &[u64], style: &str, rounds: usize) -> R {
    let mut e = EliasFanoVec::from_slice(v);
    for x in v {
        c.sig(*x);
    }
    if !v.is_empty() {
        c.nontrivial();
    }
    c.describe(format!("EliasFanoVec of {} elements ({style})", v.len()));
    iters::full(c, "EliasFanoVec::iter", e.iter(), v)?;
    iters::full(c, "EliasFanoVec::into_iter", e.clone().into_iter(), v)?;
    for _ in 0..rounds {
        iters::history(c, "EliasFanoVec::iter", e.iter(), v, 40)?;
        iters::history(c, "&EliasFanoVec::into_iter", (&e).into_iter(), v, 40)?;
        iters::history(c, "&mut EliasFanoVec::into_iter", (&mut e).into_iter(), v, 40)?;
        iters::history(c, "EliasFanoVec::into_iter", e.clone().into_iter(), v, 40)?;
    }
    Ok(())
}

fn wavelet(c: &mut Ctx, n: usize, k: usize, rounds: usize) -> R {
    let (seq, style) = symbols(&mut c.rng, n, k);
    let (mut w, ctor): (WaveletMatrix, _) = build(&mut c.rng, &seq, k);
    for s in &seq {
        c.sig(s.low());
    }
    c.sig(k as u64);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("WaveletMatrix of {n} symbols of {k} bits ({style}, {ctor})"));
    let plain: Vec<BitVec> = seq.iter().map(|s| s.bv(k)).collect();
    let mut sorted = seq.clone();
    sorted.sort_unstable();
    let sorted_bv: Vec<BitVec> = sorted.iter().map(|s| s.bv(k)).collect();
    iters::full(c, "WaveletMatrix::iter", w.iter(), &plain)?;
    iters::full(c, "WaveletMatrix::into_iter", w.clone().into_iter(), &plain)?;
    iters::full(c, "WaveletMatrix::iter_sorted", w.iter_sorted(), &sorted_bv)?;
    iters::full(c, "WaveletMatrix::into_iter_sorted", w.clone().into_iter_sorted(), &sorted_bv)?;
    for _ in 0..rounds {
        iters::history(c, "WaveletMatrix::iter", w.iter(), &plain, 40)?;
        iters::history(c, "&WaveletMatrix::into_iter", (&w).into_iter(), &plain, 40)?;
        iters::history(c, "&mut WaveletMatrix::into_iter", (&mut w).into_iter(), &plain, 40)?;
        iters::history(c, "WaveletMatrix::into_iter", w.clone().into_iter(), &plain, 40)?;
        iters::history(c, "WaveletMatrix::iter_sorted", w.iter_sorted(), &sorted_bv, 40)?;
        iters::history(c, "WaveletMatrix::into_iter_sorted", w.clone().into_iter_sorted(), &sorted_bv, 40)?;
    }
    let it = (w.iter_u64().is_some(), w.iter_sorted_u64().is_some(), w.clone().into_iter_u64().is_some(), w.clone().into_iter_sorted_u64().is_some());
    eq!(c, it, (k <= 64, k <= 64, k <= 64, k <= 64), "number iterators for width {k}");
    if k <= 64 {
        let plain: Vec<u64> = seq.iter().map(|s| s.low()).collect();
        let sorted: Vec<u64> = sorted.iter().map(|s| s.low()).collect();
        iters::full(c, "WaveletMatrix::iter_u64", w.iter_u64().unwrap(), &plain)?;
        iters::full(c, "WaveletMatrix::iter_sorted_u64", w.iter_sorted_u64().unwrap(), &sorted)?;
        iters::full(c, "WaveletMatrix::into_iter_u64", w.clone().into_iter_u64().unwrap(), &plain)?;
        iters::full(c, "WaveletMatrix::into_iter_sorted_u64", w.clone().into_iter_sorted_u64().unwrap(), &sorted)?;
        for _ in 0..rounds {
            iters::history(c, "WaveletMatrix::iter_u64", w.iter_u64().unwrap(), &plain, 40)?;
            iters::history(c, "WaveletMatrix::iter_sorted_u64", w.iter_sorted_u64().unwrap(), &sorted, 40)?;
            iters::history(c, "WaveletMatrix::into_iter_u64", w.clone().into_iter_u64().unwrap(), &plain, 40)?;
            iters::history(c, "WaveletMatrix::into_iter_sorted_u64", w.clone().into_iter_sorted_u64().unwrap(), &sorted, 40)?;
        }
        c.hit("wavelet matrices with number iterators");
    } else {
        c.hit("wavelet matrices without number iterators");
    }
    Ok(())
}

/// bit iterators beyond 2^32 elements
fn bits_giant(c: &mut Ctx) -> R {
    let r = big::runs(&c.rng, c.idx + 1);
    let n = r.len;
    let bv = r.build();
    for _ in 0..4 {
        iters::giant(c, "BitVec::iter", bv.iter(), n, |i| u64::from(r.get(i)), 40)?;
    }
    let rs = RsVec::from_bit_vec(bv);
    for _ in 0..4 {
        iters::giant(c, "RsVec::iter", rs.iter(), n, |i| u64::from(r.get(i)), 40)?;
    }
    c.sig(n as u64);
    c.nontrivial();
    c.describe(format!("iterators over {n} bits"));
    Ok(())
}
fn bits_huge(c: &mut Ctx) -> R {
    let n = c.rng.range(60_000, 400_000);
    bit_vec(c, n, 3)
}
fn ef_huge(c: &mut Ctx) -> R {
    ef(c, 300_000, 4)
}
fn wm_huge(c: &mut Ctx) -> R {
    let n = c.rng.range(60_000, 90_000);
    let k = *c.rng.pick(&[1, 2, 7, 16, 17]);
    wavelet(c, n, k, 1)
}
/// every length up to two blocks of bits and beyond, once for each kind
fn every_length(c: &mut Ctx) -> R {
    let n = c.idx as usize % 1100;
    bit_vec(c, n, 1)?;
    let k = *c.rng.pick(&[1, 2, 3, 5, 8]);
    wavelet(c, n, k, 1)?;
    let step = c.rng.log_u64(40).max(1);
    let mut v: Vec<u64> = Vec::with_capacity(n);
    let mut x = c.rng.log_u64(50);
    for _ in 0..n {
        v.push(x);
        x += c.rng.below64(step);
    }
    ef_over(c, &v, "every length", 1)?;
    c.hit("lengths swept");
    Ok(())
}
fn bits_tiny(c: &mut Ctx) -> R {
    let n = (c.idx % 12) as usize;
    bit_vec(c, n, 6)
}
fn bits_small(c: &mut Ctx) -> R {
    let n = c.rng.below(300);
    bit_vec(c, n, 4)
}
fn bits_large(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 40_000);
    bit_vec(c, n, 6)
}
fn ef_tiny(c: &mut Ctx) -> R {
    ef(c, 8, 6)
}
fn ef_medium(c: &mut Ctx) -> R {
    ef(c, 3000, 5)
}
fn wm_tiny(c: &mut Ctx) -> R {
    let n = (c.idx % 8) as usize;
    let k = width(&mut c.rng);
    wavelet(c, n, k, 4)
}
fn wm_medium(c: &mut Ctx) -> R {
    let n = c.rng.below(300);
    let k = width(&mut c.rng);
    wavelet(c, n, k, 2)
}

/// skips of every distance in sequences of more than 2^16 elements
fn every_position(c: &mut Ctx) -> R {
    let n = gen::dense(&mut c.rng);
    match c.idx % 4 {
        0 => {
            let (m, _) = gen::bits(&mut c.rng, n);
            let seq: Vec<u64> = m.iter().map(|&b| u64::from(b)).collect();
            let bv = gen::bitvec(&mut c.rng, &m);
            iters::every_skip(c, "BitVec::iter", &bv.iter(), &seq)?;
            let rs = RsVec::from_bit_vec(bv);
            iters::every_skip(c, "RsVec::iter", &rs.iter(), &seq)?;
            c.sig_bits(&m);
        }
        1 => {
            let (v, _) = gen::sorted_exact(&mut c.rng, n);
            let ef = EliasFanoVec::from_slice(&v);
            iters::every_skip(c, "EliasFanoVec::iter", &ef.iter(), &v)?;
            c.sig(v[v.len() / 2]);
        }
        k => {
            let w = c.rng.range(1, 6);
            let (seq, _) = symbols(&mut c.rng, n, w);
            let (wm, _): (WaveletMatrix, _) = build(&mut c.rng, &seq, w);
            let plain: Vec<u64> = seq.iter().map(|s| s.low()).collect();
            if k == 2 {
                iters::every_skip(c, "WaveletMatrix::iter_u64", &wm.iter_u64().unwrap(), &plain)?;
                let bvs: Vec<BitVec> = seq.iter().map(|s| s.bv(w)).collect();
                iters::every_skip(c, "WaveletMatrix::iter", &wm.iter(), &bvs)?;
            } else {
                let mut sorted = plain.clone();
                sorted.sort_unstable();
                iters::every_skip(c, "WaveletMatrix::iter_sorted_u64", &wm.iter_sorted_u64().unwrap(), &sorted)?;
                let mut seq = seq.clone();
                seq.sort_unstable();
                let bvs: Vec<BitVec> = seq.iter().map(|s| s.bv(w)).collect();
                iters::every_skip(c, "WaveletMatrix::iter_sorted", &wm.iter_sorted(), &bvs)?;
            }
            c.sig(plain[n / 3] ^ (n as u64) << 8);
        }
    }
    // owned iterators over shorter sequences: copying them copies the sequence
    let n = if cfg!(miri) { 40 } else { c.rng.range(2000, 5000) };
    let (m, _) = gen::bits(&mut c.rng, n);
    let seq: Vec<u64> = m.iter().map(|&b| u64::from(b)).collect();
    let bv = gen::bitvec(&mut c.rng, &m);
    iters::every_skip(c, "BitVec::into_iter", &bv.clone().into_iter(), &seq)?;
    iters::every_skip(c, "RsVec::into_iter", &RsVec::from_bit_vec(bv).into_iter(), &seq)?;
    let (v, _) = gen::sorted_exact(&mut c.rng, n);
    iters::every_skip(c, "EliasFanoVec::into_iter", &EliasFanoVec::from_slice(&v).into_iter(), &v)?;
    c.nontrivial();
    c.describe(format!("skips of every distance, kind {}", c.idx % 4));
    Ok(())
}

fn main() {
    run::main(
        "C13",
        &[
            Scenario::new("every-position", 16, 320, every_position),
            Scenario::new("bits-giant", 1, 6, bits_giant),
            Scenario::new("wavelet-huge", 4, 100, wm_huge),
            Scenario::new("bits-huge", 24, 600, bits_huge),
            Scenario::new("ef-huge", 48, 1200, ef_huge),
            Scenario::new("every-length", 1100, 8800, every_length),
            Scenario::new("bits-tiny", 2400, 60_000, bits_tiny),
            Scenario::new("bits-small", 3000, 80_000, bits_small),
            Scenario::new("bits-large", 400, 10_000, bits_large),
            Scenario::new("ef-tiny", 3000, 80_000, ef_tiny),
            Scenario::new("ef-medium", 1500, 40_000, ef_medium),
            Scenario::new("wavelet-tiny", 1200, 30_000, wm_tiny),
            Scenario::new("wavelet-medium", 300, 8_000, wm_medium),
        ],
    );
}
