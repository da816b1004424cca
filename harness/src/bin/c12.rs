//! C12: range minimum queries.
use std::ops::Bound;
use vers_vecs::{BinaryRmq, FastRmq};
use vh::*;

struct Both {
    b: BinaryRmq,
    f: FastRmq,
}

fn array(c: &mut Ctx, n: usize) -> (Vec<u64>, &'static str) {
    match c.rng.below(10) {
        0 => ((0..n).map(|_| c.rng.u64()).collect(), "random"),
        1 => ((0..n as u64).collect(), "increasing"),
        2 => ((0..n as u64).rev().collect(), "decreasing"),
        3 => {
            let x = *c.rng.pick(&[0, 1, u64::MAX, 7]);
            (vec![x; n], "constant")
        }
        4 => ((0..n).map(|_| c.rng.below64(3)).collect(), "ties"),
        5 => {
            // valley
            let k = if n == 0 { 0 } else { c.rng.below(n) };
            ((0..n).map(|i| i.abs_diff(k) as u64).collect(), "valley")
        }
        6 => {
            // mountain, with plateaus
            let k = if n == 0 { 0 } else { c.rng.below(n) };
            let d = 1 + c.rng.below64(5);
            ((0..n).map(|i| (n - i.abs_diff(k)) as u64 / d).collect(), "mountain")
        }
        7 => {
            // saw
            let p = c.rng.range(2, 300);
            let up = c.rng.bool();
            ((0..n).map(|i| if up { i % p } else { p - i % p } as u64).collect(), "saw")
        }
        8 => {
            // high plain with a few low points at borders
            let mut v = vec![u64::MAX; n];
            for _ in 0..c.rng.range(1, 6) {
                if n > 0 {
                    let p = gen::near(&mut c.rng, 128, n).min(n - 1);
                    v[p] = c.rng.below64(4);
                }
            }
            (v, "pits")
        }
        _ => {
            // random walk
            let mut x = 1u64 << 40;
            (
                (0..n)
                    .map(|_| {
                        x = x.wrapping_add(c.rng.below64(5)).wrapping_sub(2);
                        x
                    })
                    .collect(),
                "walk",
            )
        }
    }
}

fn verdict(c: &mut Ctx, v: &[u64], lo: usize, hi: usize, min: u64, got: usize, what: &str) -> R {
    ck!(c, got >= lo && got <= hi, "{what}({lo}..={hi}) of {} elements returned {got}, outside the range", v.len());
    ck!(c, v[got] == min, "{what}({lo}..={hi}) of {} elements returned index {got} with value {}, minimum is {min}", v.len(), v[got]);
    Ok(())
}

fn ask(c: &mut Ctx, s: &Both, v: &[u64], lo: usize, hi: usize, min: u64) -> R {
    let g = s.b.range_min(lo, hi);
    verdict(c, v, lo, hi, min, g, "BinaryRmq::range_min")?;
    let g = s.f.range_min(lo, hi);
    verdict(c, v, lo, hi, min, g, "FastRmq::range_min")
}

/// the same non-empty range written as every kind of range expression
fn ask_ranges(c: &mut Ctx, s: &Both, v: &[u64], lo: usize, hi: usize, min: u64) -> R {
    let n = v.len();
    let mut got: Vec<(&'static str, usize, usize)> = Vec::new();
    got.push(("lo..hi+1", s.b.range_min_with_range(lo..hi + 1), s.f.range_min_with_range(lo..hi + 1)));
    got.push(("lo..=hi", s.b.range_min_with_range(lo..=hi), s.f.range_min_with_range(lo..=hi)));
    let ex = (Bound::Included(lo), Bound::Excluded(hi + 1));
    got.push(("(Included,Excluded)", s.b.range_min_with_range(ex), s.f.range_min_with_range(ex)));
    if lo > 0 {
        let ex = (Bound::Excluded(lo - 1), Bound::Included(hi));
        got.push(("(Excluded,Included)", s.b.range_min_with_range(ex), s.f.range_min_with_range(ex)));
        let ex = (Bound::Excluded(lo - 1), Bound::Excluded(hi + 1));
        got.push(("(Excluded,Excluded)", s.b.range_min_with_range(ex), s.f.range_min_with_range(ex)));
    }
    if lo == 0 {
        got.push(("..hi+1", s.b.range_min_with_range(..hi + 1), s.f.range_min_with_range(..hi + 1)));
        got.push(("..=hi", s.b.range_min_with_range(..=hi), s.f.range_min_with_range(..=hi)));
    }
    if hi == n - 1 {
        got.push(("lo..", s.b.range_min_with_range(lo..), s.f.range_min_with_range(lo..)));
        // ranges that reach past the end are clamped
        for far in [n + 1, n + 127, n + 128, 2 * n + 500, usize::MAX / 2] {
            got.push(("lo..far", s.b.range_min_with_range(lo..far), s.f.range_min_with_range(lo..far)));
            got.push(("lo..=far", s.b.range_min_with_range(lo..=far), s.f.range_min_with_range(lo..=far)));
        }
        got.push(("lo..MAX", s.b.range_min_with_range(lo..usize::MAX), s.f.range_min_with_range(lo..usize::MAX)));
        got.push(("lo..=MAX-1", s.b.range_min_with_range(lo..=usize::MAX - 1), s.f.range_min_with_range(lo..=usize::MAX - 1)));
        got.push(("lo..=MAX", s.b.range_min_with_range(lo..=usize::MAX), s.f.range_min_with_range(lo..=usize::MAX)));
        c.hit("ranges reaching past the end");
        if lo == 0 {
            got.push(("..", s.b.range_min_with_range(..), s.f.range_min_with_range(..)));
        }
    }
    for (l, b, f) in got {
        verdict(c, v, lo, hi, min, b, &format!("BinaryRmq::range_min_with_range [{l}] "))?;
        verdict(c, v, lo, hi, min, f, &format!("FastRmq::range_min_with_range [{l}] "))?;
        c.hit("range expressions");
    }
    Ok(())
}

fn build(c: &mut Ctx, v: &[u64]) -> Result<Both, String> {
    let s = match c.rng.below(3) {
        0 => Both { b: BinaryRmq::from_vec(v.to_vec()), f: FastRmq::from_vec(v.to_vec()) },
        1 => Both { b: BinaryRmq::from(v.to_vec()), f: FastRmq::from(v.to_vec()) },
        _ => Both { b: v.iter().copied().collect(), f: v.iter().copied().collect() },
    };
    c.n(3);
    if s.b[..] != *v || s.f[..] != *v || s.f.len() != v.len() || s.f.is_empty() != v.is_empty() || s.b.len() != v.len() || s.b.is_empty() != v.is_empty() {
        return Err(format!("stored array of {} elements differs from the input", v.len()));
    }
    Ok(s)
}

fn finish(c: &mut Ctx, v: &[u64], style: &str, nq: u64) {
    for &x in v {
        c.sig(x);
    }
    c.sig(v.len() as u64);
    if !v.is_empty() {
        c.nontrivial();
    }
    c.describe(format!("{} elements ({style}), {nq} ranges", v.len()));
}

/// every range of small arrays
fn all_ranges(c: &mut Ctx) -> R {
    let n = match c.rng.below(4) {
        0 => c.rng.range(1, 20),
        1 => c.rng.range(120, 140),
        2 => c.rng.range(250, 400),
        _ => c.rng.range(1, 300),
    };
    let (v, style) = array(c, n);
    let s = build(c, &v)?;
    let mut q = 0;
    for lo in 0..n {
        let mut min = u64::MAX;
        for hi in lo..n {
            min = min.min(v[hi]);
            ask(c, &s, &v, lo, hi, min)?;
            q += 1;
        }
    }
    for _ in 0..60 {
        let lo = c.rng.below(n);
        let hi = if c.rng.bool() { n - 1 } else { c.rng.range(lo, n - 1) };
        let lo = if c.rng.one_in(4) { 0 } else { lo };
        let min = *v[lo..=hi].iter().min().unwrap();
        ask_ranges(c, &s, &v, lo, hi, min)?;
    }
    ck!(c, s.b[..] == v[..] && s.f[..] == v[..], "stored array changed");
    c.hit_n("ranges", q);
    finish(c, &v, style, q);
    Ok(())
}

/// large arrays, ranges at block borders of every length
fn large(c: &mut Ctx, max: usize, nq: u64) -> R {
    let n = 1 + match c.rng.below(4) {
        0 => gen::near(&mut c.rng, 128, max),
        1 => gen::near(&mut c.rng, 1024, max),
        2 => c.rng.log_u64(usize::BITS - max.leading_zeros()) as usize,
        _ => c.rng.below(max),
    }
    .min(max);
    of_length(c, n, nq)
}
fn of_length(c: &mut Ctx, n: usize, nq: u64) -> R {
    let (v, style) = array(c, n);
    let s = build(c, &v)?;
    // sparse table oracle, independent of the library: block minima and a scan
    for k in 0..nq {
        let l = match c.rng.below(4) {
            0 => c.rng.below(300),
            1 => gen::near(&mut c.rng, 128, 2000),
            2 => c.rng.log_u64(15) as usize,
            _ => c.rng.below(5000),
        }
        .min(n - 1);
        let lo = match c.rng.below(4) {
            0 => gen::near(&mut c.rng, 128, n),
            1 => (n - 1 - l) / 128 * 128,
            2 => n - 1 - l,
            _ => c.rng.below(n),
        }
        .min(n - 1 - l);
        let hi = lo + l;
        let min = *v[lo..=hi].iter().min().unwrap();
        ask(c, &s, &v, lo, hi, min)?;
        if k % 16 == 0 {
            ask_ranges(c, &s, &v, lo, hi, min)?;
        }
    }
    // few very long ranges
    for _ in 0..20 {
        let lo = c.rng.below(n);
        let hi = if c.rng.bool() { n - 1 } else { c.rng.range(lo, n - 1) };
        let lo = if c.rng.one_in(4) { 0 } else { lo };
        let min = *v[lo..=hi].iter().min().unwrap();
        ask(c, &s, &v, lo, hi, min)?;
        ask_ranges(c, &s, &v, lo, hi, min)?;
    }
    c.hit_n("ranges", nq + 20);
    finish(c, &v, style, nq);
    Ok(())
}
fn medium(c: &mut Ctx) -> R {
    large(c, 6000, 400)
}
fn big(c: &mut Ctx) -> R {
    large(c, 300_000, 2000)
}

/// clones, empty structures
fn edge(c: &mut Ctx) -> R {
    let s = build(c, &[])?;
    ck!(c, s.f.is_empty() && s.b.is_empty(), "empty structures are not empty");
    for n in [1usize, 2, 127, 128, 129, 255, 256, 257] {
        let (v, _) = array(c, n);
        let s = build(c, &v)?;
        let s2 = Both { b: s.b.clone(), f: s.f.clone() };
        for (lo, hi) in [(0, n - 1), (n - 1, n - 1), (0, 0), (n / 2, n - 1)] {
            let min = *v[lo..=hi].iter().min().unwrap();
            ask(c, &s2, &v, lo, hi, min)?;
            ask_ranges(c, &s2, &v, lo, hi, min)?;
        }
    }
    c.sig(c.rng.u64());
    c.nontrivial();
    c.describe("empty, clones, lengths around the block size".into());
    Ok(())
}

/// more than 2^16 blocks
fn giant(c: &mut Ctx) -> R {
    let n = 8_500_000 + c.rng.below(3_000_000);
    let (v, style) = array(c, n);
    let f = FastRmq::from_vec(v.clone());
    for k in 0..400 {
        let lo = c.rng.below(n);
        let hi = match k % 4 {
            0 if k < 40 => n - 1,
            1 if k < 120 => c.rng.range(lo, n - 1),
            _ => (lo + c.rng.log_u64(18) as usize).min(n - 1),
        };
        let lo = if k % 32 == 1 { 0 } else { lo };
        let min = *v[lo..=hi].iter().min().unwrap();
        verdict(c, &v, lo, hi, min, f.range_min(lo, hi), "FastRmq::range_min")?;
        verdict(c, &v, lo, hi, min, f.range_min_with_range(lo..=hi), "FastRmq::range_min_with_range")?;
    }
    c.hit("arrays of more than 2^16 blocks");
    c.sig(n as u64);
    c.sig(c.rng.u64());
    c.nontrivial();
    c.describe(format!("{n} elements ({style})"));
    Ok(())
}

/// ranges whose lengths lie around every power of two, on arrays whose minima are known in closed form
fn powers(c: &mut Ctx) -> R {
    let e = if c.idx >= 4 { 24 } else { 22 + (c.idx / 2) as u32 };
    let n = (1usize << e) + 20 + c.rng.below(1000);
    let falling = c.idx % 2 == 0;
    let v: Vec<u64> = if falling { (0..n as u64).rev().collect() } else { (0..n as u64).collect() };
    let s = build(c, &v)?;
    for k in 0..=e {
        for d in -7i64..=7 {
            let l = (1i64 << k) + d;
            if l < 0 || l as usize >= n {
                continue;
            }
            let l = l as usize;
            for j in 0..10 {
                let lo = match j {
                    0 => 0,
                    1 => n - 1 - l,
                    2 => (n - 1 - l).saturating_sub(1),
                    3 => 1,
                    _ => c.rng.below(n - l),
                }
                .min(n - 1 - l);
                let hi = lo + l;
                let min = if falling { v[hi] } else { v[lo] };
                ask(c, &s, &v, lo, hi, min)?;
            }
        }
    }
    c.hit("ranges around every power of two");
    c.sig(n as u64);
    c.nontrivial();
    c.describe(format!("{n} strictly {} elements", if falling { "falling" } else { "rising" }));
    Ok(())
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    c.hit("lengths swept");
    of_length(c, gen::sweep(c.idx).max(1), 150)
}

/// ranges starting (and ending) at every position of arrays of more than 2^16 elements; the oracle is a sparse table
/// of minimum values kept by the harness
fn every_position(c: &mut Ctx) -> R {
    let n = gen::dense(&mut c.rng);
    let (v, style) = array(c, n);
    let s = build(c, &v)?;
    let mut table = vec![v.clone()];
    while 2usize << (table.len() - 1) <= n {
        let w = 1usize << (table.len() - 1);
        let t = &table[table.len() - 1];
        table.push((0..=n - 2 * w).map(|i| t[i].min(t[i + w])).collect());
    }
    let min = |lo: usize, hi: usize| {
        let k = (hi - lo + 1).ilog2() as usize;
        table[k][lo].min(table[k][hi + 1 - (1 << k)])
    };
    for lo in 0..n {
        let mut his = vec![lo, n - 1, c.rng.range(lo, n - 1), (lo + c.rng.below(300)).min(n - 1), (lo + c.rng.below(3000)).min(n - 1)];
        his.push((lo + (1usize << c.rng.below(17)) - 1).min(n - 1));
        for hi in his {
            ask(c, &s, &v, lo, hi, min(lo, hi))?;
        }
        // and ranges ending here
        for l in [lo, c.rng.below(lo + 1), lo.min(c.rng.below(200))] {
            ask(c, &s, &v, lo - l, lo, min(lo - l, lo))?;
        }
    }
    c.hit("arrays with ranges at every position");
    finish(c, &v, style, 9 * n as u64);
    Ok(())
}

fn main() {
    run::main(
        "C12",
        &[
            Scenario::new("every-position", 12, 300, every_position),
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 20, every_length),
            Scenario::new("powers", 4, 6, powers),
            Scenario::new("giant", 8, 60, giant),
            Scenario::new("big", 40, 1000, big),
            Scenario::new("edge", 100, 2000, edge),
            Scenario::new("all_ranges", 1200, 30_000, all_ranges),
            Scenario::new("medium", 4000, 80_000, medium),
        ],
    );
}
