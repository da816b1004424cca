//! C09: an Elias-Fano vector reproduces the sorted sequence it was built from.
use vers_vecs::EliasFanoVec;
use vh::*;

fn observe(c: &mut Ctx, ef: &EliasFanoVec, v: &[u64], style: &str) -> R {
    let n = v.len();
    eq!(c, (ef.len(), ef.is_empty()), (n, n == 0), "{style}: len");
    for (i, &x) in v.iter().enumerate() {
        let g = (ef.get(i), ef.get_unchecked(i), ef.select(i));
        if g != (Some(x), x, Some(x)) {
            return Err(format!("{style}: element {i} of {n}: get/get_unchecked/select = {g:?}, expected {x}"));
        }
        let d = if i == 0 { x } else { x - v[i - 1] };
        if ef.delta(i) != Some(d) {
            return Err(format!("{style}: delta({i}) of {n}: got {:?}, expected {d}", ef.delta(i)));
        }
    }
    c.n(4 * n as u64);
    c.hit_n("elements read by every access path", n as u64);
    for i in [n, n + 1, n + 64, n + c.rng.below(10_000), usize::MAX, usize::MAX - 1, 1 << 63] {
        eq!(c, (ef.get(i), ef.select(i), ef.delta(i)), (None, None, None), "{style}: access past the end at {i} of {n}");
    }
    Ok(())
}

fn iterators(c: &mut Ctx, ef: &EliasFanoVec, v: &[u64], rounds: usize, ops: usize) -> R {
    iters::full(c, "EliasFanoVec::iter", ef.iter(), v)?;
    for _ in 0..rounds {
        match c.rng.below(3) {
            0 => iters::history(c, "EliasFanoVec::iter", ef.iter(), v, ops)?,
            1 => iters::history(c, "&EliasFanoVec::into_iter", ef.into_iter(), v, ops)?,
            _ => iters::history(c, "EliasFanoVec::into_iter", ef.clone().into_iter(), v, ops)?,
        }
    }
    // specialised terminal operations, after consuming some elements from both ends
    for _ in 0..6 {
        let mut it = ef.iter();
        let mut own = ef.clone().into_iter();
        let a = c.rng.below(v.len().min(6) + 1);
        let b = c.rng.below(v.len().min(6) + 1);
        for _ in 0..a {
            it.next();
            own.next();
        }
        for _ in 0..b {
            it.next_back();
            own.next_back();
        }
        let rest: &[u64] = if a + b <= v.len() { &v[a..v.len() - b] } else { &[] };
        let (lo, hi) = (rest.first().copied(), rest.last().copied());
        eq!(c, it.clone().min(), lo, "min() after {a} front and {b} back steps of {}", v.len());
        eq!(c, it.clone().max(), hi, "max() after {a} front and {b} back steps of {}", v.len());
        eq!(c, it.clone().last(), hi, "last() after {a} front and {b} back steps of {}", v.len());
        eq!(c, it.count(), rest.len(), "count() after {a} front and {b} back steps of {}", v.len());
        eq!(c, own.clone().min(), lo, "owned min() after {a} front and {b} back steps");
        eq!(c, own.clone().max(), hi, "owned max() after {a} front and {b} back steps");
        eq!(c, own.clone().last(), hi, "owned last() after {a} front and {b} back steps");
        eq!(c, own.count(), rest.len(), "owned count() after {a} front and {b} back steps");
        c.hit("min/max/last/count after partial iteration");
    }
    let own: Vec<u64> = ef.clone().into_iter().collect();
    ck!(c, own == v, "owned iteration differs from the sequence");
    Ok(())
}

fn finish(c: &mut Ctx, v: &[u64], style: &str) {
    for &x in v {
        c.sig(x);
    }
    c.sig(v.len() as u64);
    if !v.is_empty() {
        c.nontrivial();
    }
    c.describe(format!("{} elements ({style}), {:?}..{:?}", v.len(), v.first(), v.last()));
}

fn small(c: &mut Ctx) -> R {
    let (v, style) = gen::sorted(&mut c.rng, 60);
    let ef = EliasFanoVec::from_slice(&v);
    observe(c, &ef, &v, style)?;
    iterators(c, &ef, &v, 4, 30)?;
    finish(c, &v, style);
    Ok(())
}

fn medium(c: &mut Ctx) -> R {
    let (v, style) = gen::sorted(&mut c.rng, 3000);
    let ef = EliasFanoVec::from_slice(&v);
    observe(c, &ef, &v, style)?;
    iterators(c, &ef, &v, 4, 120)?;
    finish(c, &v, style);
    Ok(())
}

fn large(c: &mut Ctx) -> R {
    let (v, style) = gen::sorted(&mut c.rng, 400_000);
    let ef = EliasFanoVec::from_slice(&v);
    observe(c, &ef, &v, style)?;
    iterators(c, &ef, &v, 5, 200)?;
    finish(c, &v, style);
    Ok(())
}

/// all tiny sequences over a tiny alphabet, at every offset class, plus extreme pairs
fn tiny(c: &mut Ctx) -> R {
    // enumerate gaps: idx encodes up to 5 gaps out of 7 classes
    let gaps = [0u64, 1, 2, 3, 7, 8, 1 << 20];
    let offs = [0u64, 1, 5, 63, 64, (1 << 32) - 1, 1 << 53, (1 << 63) - 1, 1 << 63, u64::MAX - (6 << 20)];
    let mut k = c.idx;
    let len = (k % 6) as usize;
    k /= 6;
    let off = offs[(k % 10) as usize];
    k /= 10;
    let mut v = Vec::new();
    let mut x = off;
    for i in 0..len {
        if i > 0 {
            x += gaps[(k % 7) as usize];
            k /= 7;
        }
        v.push(x);
    }
    let ef = EliasFanoVec::from_slice(&v);
    observe(c, &ef, &v, "enumerated")?;
    iterators(c, &ef, &v, 2, 12)?;
    finish(c, &v, "enumerated");
    Ok(())
}

/// universes at powers of two and lengths at powers of two
fn powers(c: &mut Ctx) -> R {
    let n = (1usize << c.rng.below(12)).saturating_add_signed(c.rng.below(3) as isize - 1).max(1);
    let top = (1u64 << c.rng.below(64)).wrapping_add(c.rng.below64(3)).wrapping_sub(1);
    let mut v: Vec<u64> = (0..n).map(|_| c.rng.range64(0, top)).collect();
    v[0] = if c.rng.bool() { 0 } else { top };
    v.sort_unstable();
    if n > 1 {
        v[n - 1] = top;
        if c.rng.bool() {
            v[0] = 0;
        }
    }
    let ef = EliasFanoVec::from_slice(&v);
    observe(c, &ef, &v, "powers")?;
    iterators(c, &ef, &v, 2, 60)?;
    finish(c, &v, "powers of two");
    Ok(())
}


/// enough elements that their low parts span more than 2^32 bits
fn giant(c: &mut Ctx) -> R {
    let n = (1usize << 27) + c.rng.below(100_000);
    let base = c.rng.below64(1 << 40);
    let salt = c.rng.u64() | 1;
    let val = move |i: usize| base + ((i as u64) << 34) + ((i as u64).wrapping_mul(salt) >> 30);
    let v: Vec<u64> = (0..n).map(val).collect();
    let ef = EliasFanoVec::from_slice(&v);
    drop(v);
    eq!(c, ef.len(), n, "len");
    let mut is = vec![0, 1, 2, n - 1, n - 2, n / 2];
    for _ in 0..20_000 {
        is.push(c.rng.below(n));
        is.push(n - 1 - c.rng.below(1_000_000));
    }
    for i in is {
        let d = if i == 0 { val(0) } else { val(i) - val(i - 1) };
        eq!(c, (ef.get(i), ef.get_unchecked(i), ef.select(i), ef.delta(i)), (Some(val(i)), val(i), Some(val(i)), Some(d)), "element {i} of {n}");
    }
    let mut it = ef.iter();
    eq!(c, (it.nth(n / 2), it.next_back(), it.nth_back(1000), it.clone().last()), (Some(val(n / 2)), Some(val(n - 1)), Some(val(n - 1002)), Some(val(n - 1003))), "iteration over {n} elements");
    c.hit("vectors whose low parts span more than 2^32 bits");
    c.sig(base);
    c.nontrivial();
    c.describe(format!("{n} elements, spacing about 2^34"));
    Ok(())
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    let (v, style) = gen::sorted_exact(&mut c.rng, gen::sweep(c.idx));
    let ef = EliasFanoVec::from_slice(&v);
    observe(c, &ef, &v, style)?;
    iterators(c, &ef, &v, 2, 30)?;
    finish(c, &v, style);
    c.hit("lengths swept");
    Ok(())
}

fn main() {
    run::main(
        "C09",
        &[
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 20, every_length),
            Scenario::new("giant", 1, 3, giant),
            Scenario::new("large", 30, 600, large),
            Scenario::new("tiny", 24_000, 6 * 10 * 7 * 7 * 7 * 7, tiny),
            Scenario::new("small", 20_000, 500_000, small),
            Scenario::new("medium", 1500, 40_000, medium),
            Scenario::new("powers", 3000, 80_000, powers),
        ],
    );
}
