//! C10: predecessor, successor and rank of Elias-Fano vectors.
use vers_vecs::EliasFanoVec;
use vh::*;

fn observe(c: &mut Ctx, ef: &EliasFanoVec, v: &[u64], qs: &[u64], style: &str) -> R {
    let n = v.len();
    for &q in qs {
        let below = v.partition_point(|&x| x < q); // elements < q
        let upto = v.partition_point(|&x| x <= q); // elements <= q
        let pred = upto.checked_sub(1).map(|i| v[i]);
        let succ = v.get(below).copied();
        let g = (ef.predecessor(q), ef.successor(q), ef.rank(q));
        let w = (pred, succ, below as u64);
        if g != w {
            return Err(format!(
                "{style}: query {q} on {n} elements {:?}..{:?}: (predecessor, successor, rank) = {g:?}, expected {w:?}",
                v.first(),
                v.last()
            ));
        }
        c.n(3);
        if let Some(p) = pred {
            eq!(c, ef.predecessor_unchecked(q), p, "{style}: predecessor_unchecked({q})");
        } else {
            c.hit("absent predecessors");
        }
        if let Some(s) = succ {
            eq!(c, ef.successor_unchecked(q), s, "{style}: successor_unchecked({q})");
        } else {
            c.hit("absent successors");
        }
        if pred.is_some() && pred == succ {
            c.hit("queries for stored values");
        } else {
            c.hit("queries between stored values");
        }
    }
    Ok(())
}

fn finish(c: &mut Ctx, v: &[u64], nq: usize, style: &str) {
    for &x in v {
        c.sig(x);
    }
    c.sig(v.len() as u64);
    if !v.is_empty() {
        c.nontrivial();
    }
    c.describe(format!("{} elements ({style}), {:?}..{:?}, {nq} queries", v.len(), v.first(), v.last()));
}

/// values around every element
fn around(v: &[u64]) -> Vec<u64> {
    let mut q = Vec::with_capacity(3 * v.len());
    for &x in v {
        q.extend([x.saturating_sub(1), x, x.saturating_add(1)]);
    }
    q.sort_unstable();
    q.dedup();
    q
}

fn small(c: &mut Ctx) -> R {
    let (v, style) = gen::sorted(&mut c.rng, 80);
    let ef = EliasFanoVec::from_slice(&v);
    let mut qs = gen::values(&mut c.rng, &v, 60);
    qs.extend(around(&v));
    observe(c, &ef, &v, &qs, style)?;
    finish(c, &v, qs.len(), style);
    Ok(())
}

fn medium(c: &mut Ctx) -> R {
    let (v, style) = gen::sorted(&mut c.rng, 3000);
    let ef = EliasFanoVec::from_slice(&v);
    let mut qs = gen::values(&mut c.rng, &v, 1500);
    qs.extend(around(&v));
    observe(c, &ef, &v, &qs, style)?;
    finish(c, &v, qs.len(), style);
    Ok(())
}

fn large(c: &mut Ctx) -> R {
    let (v, style) = gen::sorted(&mut c.rng, 400_000);
    let ef = EliasFanoVec::from_slice(&v);
    let qs = gen::values(&mut c.rng, &v, 40_000);
    observe(c, &ef, &v, &qs, style)?;
    finish(c, &v, qs.len(), style);
    Ok(())
}

/// one bucket of the upper vector with a controlled number of elements, neighbours empty or full; every query inside
/// the bucket and its neighbours
fn buckets(c: &mut Ctx) -> R {
    // choose bucket sizes 0..40 for a handful of buckets; values inside a bucket with or without duplicates
    let width = 1u64 << c.rng.range(1, 6);
    let nb = c.rng.range(1, 8) as u64;
    let mut v = Vec::new();
    let base = *c.rng.pick(&[0u64, 0, 7, 1 << 40, u64::MAX - 4096]);
    for b in 0..nb {
        let k = match c.rng.below(5) {
            0 => 0,
            1 => 1,
            2 => c.rng.range(3, 7),
            _ => c.rng.range(0, 40),
        };
        let dup = c.rng.bool();
        let x0 = c.rng.below64(width);
        for _ in 0..k {
            let x = if dup && c.rng.chance(0.7) { x0 } else { c.rng.below64(width) };
            v.push(base + b * width + x);
        }
    }
    if v.is_empty() {
        v.push(base);
    }
    // an outlier stretches the universe so that buckets become large
    let outlier = c.rng.below(3);
    v.sort_unstable();
    let hi = base.saturating_add(nb * width);
    if outlier > 0 {
        v.push(hi.saturating_add(1u64 << c.rng.range(4, 40)));
    }
    let ef = EliasFanoVec::from_slice(&v);
    let qs: Vec<u64> = (base.saturating_sub(3)..=hi.saturating_add(3)).collect();
    observe(c, &ef, &v, &qs, "buckets")?;
    let qs2 = gen::values(&mut c.rng, &v, 10);
    observe(c, &ef, &v, &qs2, "buckets")?;
    c.hit("bucket fillings");
    finish(c, &v, qs.len() + qs2.len(), "buckets");
    Ok(())
}

/// one big bucket: dense cluster, far outlier; cluster sizes around the linear/binary switch and beyond
fn clusters(c: &mut Ctx) -> R {
    let k = c.rng.range(1, 60);
    let lead = c.rng.below(4);
    let width = *c.rng.pick(&[2u64, 4, 16, 64, 1000]);
    let mut v: Vec<u64> = (0..k).map(|_| c.rng.below64(width)).collect();
    for _ in 0..lead {
        v.push(width + c.rng.below64(width * 4));
    }
    let shift = *c.rng.pick(&[0u64, 0, 1, 1000, 1 << 50]);
    v.iter_mut().for_each(|x| *x += shift);
    let far = match c.rng.below(3) {
        0 => Some(shift + (1 << 50)),
        1 => Some(shift + width * 100),
        _ => None,
    };
    v.extend(far);
    if c.rng.bool() {
        // mirror: outlier low, cluster at the top of the universe
        let top = *v.iter().max().unwrap();
        v.iter_mut().for_each(|x| *x = top - *x + shift);
    }
    v.sort_unstable();
    let ef = EliasFanoVec::from_slice(&v);
    let mut qs = around(&v);
    qs.extend(gen::values(&mut c.rng, &v, 30));
    observe(c, &ef, &v, &qs, "clusters")?;
    c.hit("cluster shapes");
    finish(c, &v, qs.len(), "clusters");
    Ok(())
}

fn empty(c: &mut Ctx) -> R {
    let ef = EliasFanoVec::from_slice(&[]);
    let mut qs = vec![0, 1, u64::MAX, u64::MAX - 1, 1 << 63];
    for _ in 0..50 {
        qs.push(c.rng.log_u64(64));
    }
    observe(c, &ef, &[], &qs, "empty")?;
    c.sig(c.idx);
    c.describe("empty vector".into());
    Ok(())
}


/// enough elements that their low parts span more than 2^32 bits
fn giant(c: &mut Ctx) -> R {
    let n = (1usize << 27) + c.rng.below(100_000);
    let base = c.rng.below64(1 << 40);
    let salt = c.rng.u64() | 1;
    let val = move |i: usize| base + ((i as u64) << 34) + ((i as u64).wrapping_mul(salt) >> 30);
    let v: Vec<u64> = (0..n).map(val).collect();
    let ef = EliasFanoVec::from_slice(&v);
    drop(v);
    eq!(c, ef.len(), n, "len");
    let mut is = vec![0, 1, 2, n - 1, n - 2, n / 2];
    for _ in 0..10_000 {
        is.push(c.rng.below(n));
        is.push(n - 1 - c.rng.below(1_000_000));
    }
    for i in is {
        let x = val(i);
        let next = if i + 1 < n { Some(val(i + 1)) } else { None };
        let prev = i.checked_sub(1).map(val);
        eq!(c, (ef.predecessor(x), ef.successor(x), ef.rank(x)), (Some(x), Some(x), i as u64), "query for element {i} of {n}");
        eq!(c, (ef.predecessor(x + 1), ef.successor(x + 1), ef.rank(x + 1)), (Some(x), next, i as u64 + 1), "query above element {i} of {n}");
        if x > 0 {
            eq!(c, (ef.predecessor(x - 1), ef.successor(x - 1), ef.rank(x - 1)), (prev, Some(x), i as u64), "query below element {i} of {n}");
        }
    }
    c.hit("vectors whose low parts span more than 2^32 bits");
    c.sig(base);
    c.nontrivial();
    c.describe(format!("{n} elements, spacing about 2^34"));
    Ok(())
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    let (v, style) = gen::sorted_exact(&mut c.rng, gen::sweep(c.idx));
    let ef = EliasFanoVec::from_slice(&v);
    let mut qs = gen::values(&mut c.rng, &v, 200);
    if v.len() <= 1100 {
        qs.extend(around(&v));
    }
    observe(c, &ef, &v, &qs, style)?;
    finish(c, &v, qs.len(), style);
    c.hit("lengths swept");
    Ok(())
}

/// every value of universes of more than 2^16 values, at small and large offsets
fn every_position(c: &mut Ctx) -> R {
    let top = gen::dense(&mut c.rng) as u64;
    let base = *c.rng.pick(&[0u64, 1, 0, 1 << 32, (1 << 63) - 70_000, u64::MAX - 300_000]);
    let p = *c.rng.pick(&[0.9, 0.5, 0.1, 0.01, 0.001]);
    let mut v = Vec::new();
    for x in 0..top {
        while c.rng.chance(p) {
            v.push(base + x);
        }
    }
    let ef = EliasFanoVec::from_slice(&v);
    let qs: Vec<u64> = (base.saturating_sub(3)..base + top + 3).collect();
    observe(c, &ef, &v, &qs, "every value")?;
    c.hit("universes with every value queried");
    finish(c, &v, qs.len(), "every value");
    Ok(())
}

fn main() {
    run::main(
        "C10",
        &[
            Scenario::new("every-position", 24, 600, every_position),
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 20, every_length),
            Scenario::new("giant", 1, 3, giant),
            Scenario::new("large", 40, 1000, large),
            Scenario::new("empty", 4, 8, empty),
            Scenario::new("small", 40_000, 1_000_000, small),
            Scenario::new("buckets", 40_000, 1_000_000, buckets),
            Scenario::new("clusters", 60_000, 1_500_000, clusters),
            Scenario::new("medium", 1500, 40_000, medium),
        ],
    );
}
