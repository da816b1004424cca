//! C18: wavelet matrix access, rank and select against the plain sequence.
use std::collections::HashMap;
use vers_vecs::WaveletMatrix;
use vh::wmodel::{build, query_symbol, symbols, value, width, Sym};
use vh::*;

fn access(c: &mut Ctx, w: &WaveletMatrix, v: &[Sym], k: usize, all: bool) -> R {
    let n = v.len();
    eq!(c, (w.len(), w.is_empty(), w.bits_per_element()), (n, n == 0, k), "len/is_empty/bits_per_element");
    let count = if all { n } else { 300.min(n) };
    for j in 0..count {
        let i = if all { j } else { c.rng.below(n) };
        let s = v[i];
        let g = w.get_value(i);
        if g.as_ref().and_then(|b| value(b, k)) != Some(s) {
            return Err(format!("get_value({i}) of {n}: got {g:?}, expected {s:?}"));
        }
        let g = value(&w.get_value_unchecked(i), k);
        if g != Some(s) {
            return Err(format!("get_value_unchecked({i}) of {n}: got {g:?}, expected {s:?}"));
        }
        let g = w.get_u64(i);
        let want = if k <= 64 { Some(s.low()) } else { None };
        if g != want {
            return Err(format!("get_u64({i}) of {n}: got {g:?}, expected {want:?}"));
        }
        if k <= 64 && w.get_u64_unchecked(i) != s.low() {
            return Err(format!("get_u64_unchecked({i}) of {n}: got {}, expected {}", w.get_u64_unchecked(i), s.low()));
        }
    }
    c.n(4 * count as u64);
    Ok(())
}

/// occurrence lists of the sequence
fn index(v: &[Sym]) -> HashMap<Sym, Vec<usize>> {
    let mut m: HashMap<Sym, Vec<usize>> = HashMap::new();
    for (i, s) in v.iter().enumerate() {
        m.entry(*s).or_default().push(i);
    }
    m
}

fn queries(c: &mut Ctx, w: &WaveletMatrix, v: &[Sym], k: usize, count: usize) -> R {
    let n = v.len();
    if n == 0 {
        return Ok(());
    }
    let occ = index(v);
    let empty = Vec::new();
    for _ in 0..count {
        let s = query_symbol(&mut c.rng, v, k);
        let bv = s.bv(k);
        let pos = occ.get(&s).unwrap_or(&empty);
        c.hit(if pos.is_empty() { "queries for absent symbols" } else { "queries for stored symbols" });
        let rank = |i: usize| pos.partition_point(|&p| p < i);
        for _ in 0..4 {
            let i = if c.rng.one_in(4) { n } else { c.rng.below(n + 1) };
            let want = rank(i);
            let num = if k <= 64 { Some(want) } else { None };
            eq!(c, (w.rank(i, &bv), w.rank_unchecked(i, &bv)), (Some(want), want), "rank({i}, {s:?}) of {n}, width {k}");
            eq!(c, w.rank_u64(i, s.low()), num, "rank_u64({i}, {s:?}) of {n}, width {k}");
            if k <= 64 {
                eq!(c, w.rank_u64_unchecked(i, s.low()), want, "rank_u64_unchecked({i}, {s:?}) of {n}, width {k}");
            }
            // ranges
            let a = c.rng.below(n);
            let b = match c.rng.below(4) {
                0 => a,
                1 => n,
                _ => c.rng.range(a, n),
            };
            let want = rank(b) - rank(a);
            let num = if k <= 64 { Some(want) } else { None };
            eq!(
                c,
                (w.rank_range(a..b, &bv), w.rank_range_unchecked(a..b, &bv), w.rank_offset(a, b, &bv), w.rank_offset_unchecked(a, b, &bv)),
                (Some(want), want, Some(want), want),
                "rank_range({a}..{b}, {s:?}) of {n}, width {k}"
            );
            eq!(
                c,
                (w.rank_range_u64(a..b, s.low()), w.rank_offset_u64(a, b, s.low())),
                (num, num),
                "rank_range_u64({a}..{b}, {s:?}) of {n}, width {k}"
            );
            if k <= 64 {
                eq!(
                    c,
                    (w.rank_range_u64_unchecked(a..b, s.low()), w.rank_offset_u64_unchecked(a, b, s.low())),
                    (want, want),
                    "rank_range_u64_unchecked({a}..{b}, {s:?}) of {n}, width {k}"
                );
            }
            // select from the start and from an offset
            let off = if c.rng.bool() { 0 } else { c.rng.below(n) };
            let before = rank(off);
            let left = pos.len() - before;
            let r = match c.rng.below(7) {
                0 => left,
                1 => left + 1 + c.rng.below(5),
                2 => c.rng.below(n + 2),
                3 if left > 0 => left - 1,
                4 => *c.rng.pick(&[n, n + 1, 2 * n, usize::MAX, usize::MAX - 1, 1 << 63]),
                _ => c.rng.below(left + 1),
            };
            let want = r.checked_add(before).and_then(|x| pos.get(x)).copied();
            if want.is_none() {
                c.hit("select of a missing occurrence");
            } else {
                c.hit("select of an existing occurrence");
            }
            let num = if k <= 64 { want } else { None };
            let unch = want.unwrap_or(n);
            eq!(
                c,
                (w.select_offset(off, r, &bv), w.select_offset_unchecked(off, r, &bv), w.select_offset_u64(off, r, s.low())),
                (want, unch, num),
                "select_offset({off},{r}, {s:?}) of {n}, width {k}"
            );
            if k <= 64 {
                eq!(c, w.select_offset_u64_unchecked(off, r, s.low()), unch, "select_offset_u64_unchecked({off},{r},{s:?}) of {n}");
            }
            if off == 0 {
                eq!(
                    c,
                    (w.select(r, &bv), w.select_unchecked(r, &bv), w.select_u64(r, s.low())),
                    (want, unch, num),
                    "select({r}, {s:?}) of {n}, width {k}"
                );
                if k <= 64 {
                    eq!(c, w.select_u64_unchecked(r, s.low()), unch, "select_u64_unchecked({r},{s:?}) of {n}");
                }
            }
        }
    }
    Ok(())
}

fn one(c: &mut Ctx, n: usize, k: usize, count: usize) -> R {
    let (v, style) = symbols(&mut c.rng, n, k);
    let (w, ctor) = build(&mut c.rng, &v, k);
    c.hit(ctor);
    if k > 64 {
        c.hit("symbols wider than 64 bits");
    }
    for s in &v {
        c.sig(s.0[2] ^ s.0[1].rotate_left(7) ^ s.0[0].rotate_left(13));
    }
    c.sig(k as u64);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} symbols of {k} bits ({style}, {ctor})"));
    let all = n <= 2000;
    access(c, &w, &v, k, all).map_err(|e| format!("{style} {ctor} k={k}: {e}"))?;
    queries(c, &w, &v, k, count).map_err(|e| format!("{style} {ctor} k={k}: {e}"))
}

fn small(c: &mut Ctx) -> R {
    let n = c.rng.below(70);
    let k = width(&mut c.rng);
    one(c, n, k, 12)
}

/// every sequence of up to 5 two-bit symbols: all queries
fn enumerated(c: &mut Ctx) -> R {
    let mut x = c.idx % (1 + 4 + 16 + 64 + 256 + 1024);
    let mut n = 0u32;
    while x >= 4u64.pow(n) {
        x -= 4u64.pow(n);
        n += 1;
    }
    let v: Vec<Sym> = (0..n).map(|i| Sym::small((x >> (2 * i)) & 3)).collect();
    let (w, ctor) = build(&mut c.rng, &v, 2);
    let n = n as usize;
    c.sig(x ^ (n as u64) << 32);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{:?} ({ctor})", v.iter().map(|s| s.low()).collect::<Vec<_>>()));
    access(c, &w, &v, 2, true)?;
    for s in 0..4u64 {
        let bv = Sym::small(s).bv(2);
        let pos: Vec<usize> = (0..n).filter(|&i| v[i].low() == s).collect();
        for a in 0..n {
            for b in a..=n {
                let want = pos.iter().filter(|&&p| p >= a && p < b).count();
                eq!(c, (w.rank_range(a..b, &bv), w.rank_range_u64(a..b, s)), (Some(want), Some(want)), "rank_range({a}..{b},{s}) of {v:?}");
            }
            for r in 0..n + 2 {
                let want = pos.iter().filter(|&&p| p >= a).nth(r).copied();
                eq!(c, (w.select_offset(a, r, &bv), w.select_offset_u64(a, r, s)), (want, want), "select_offset({a},{r},{s}) of {v:?}");
            }
        }
    }
    Ok(())
}

fn medium(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 3000);
    let k = width(&mut c.rng);
    one(c, n, k, 30)
}

fn large(c: &mut Ctx) -> R {
    let n = 10_000 + c.rng.below(60_000);
    let k = c.rng.range(1, 16);
    one(c, n, k, 250)
}

fn giant(c: &mut Ctx) -> R {
    let n = 70_000 + c.rng.below(1_000_000);
    let k = c.rng.range(1, 5);
    one(c, n, k, 60)
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    let n = gen::sweep(c.idx);
    let k = if n > 1100 || c.rng.one_in(3) { c.rng.range(1, 9) } else { width(&mut c.rng) };
    c.hit("lengths swept");
    one(c, n, k, 6)
}

/// every position, offset and occurrence of sequences of more than 2^16 symbols
fn every_position(c: &mut Ctx) -> R {
    let n = gen::dense(&mut c.rng);
    let k = c.rng.range(1, if c.rng.bool() { 3 } else { 10 });
    let (v, style) = symbols(&mut c.rng, n, k);
    let (w, ctor) = build(&mut c.rng, &v, k);
    for s in &v {
        c.sig(s.low());
    }
    c.nontrivial();
    c.describe(format!("every position of {n} symbols of {k} bits ({style}, {ctor})"));
    access(c, &w, &v, k, true)?;
    let s = *c.rng.pick(&v);
    let (bv, x) = (s.bv(k), s.low());
    let pos: Vec<usize> = (0..n).filter(|&i| v[i] == s).collect();
    let mut before = 0;
    for i in 0..=n {
        let g = (w.rank(i, &bv), w.rank_unchecked(i, &bv), w.rank_u64(i, x), w.rank_u64_unchecked(i, x));
        if g != (Some(before), before, Some(before), before) {
            return Err(format!("rank({i}, {s:?}) of {n}, width {k}: (checked, unchecked, u64, u64 unchecked) = {g:?}, expected {before}"));
        }
        if i < n {
            // counts and selects relative to this position
            let e = c.rng.range(i, n);
            let want = pos.partition_point(|&p| p < e) - before;
            let g = (w.rank_offset(i, e, &bv), w.rank_range(i..e, &bv), w.rank_offset_u64(i, e, x), w.rank_range_u64(i..e, x));
            if g != (Some(want), Some(want), Some(want), Some(want)) {
                return Err(format!("rank_range({i}..{e}, {s:?}) of {n}, width {k}: {g:?}, expected {want}"));
            }
            let r = c.rng.below(pos.len() - before + 2);
            let want = pos.get(before + r).copied();
            let g = (w.select_offset(i, r, &bv), w.select_offset_u64(i, r, x));
            if g != (want, want) {
                return Err(format!("select_offset({i}, {r}, {s:?}) of {n}, width {k}: {g:?}, expected {want:?}"));
            }
        }
        if i < n && v[i] == s {
            before += 1;
        }
    }
    for (r, &p) in pos.iter().enumerate() {
        let g = (w.select(r, &bv), w.select_unchecked(r, &bv), w.select_u64(r, x), w.select_u64_unchecked(r, x));
        if g != (Some(p), p, Some(p), p) {
            return Err(format!("select({r}, {s:?}) of {n}, width {k}: {g:?}, expected {p}"));
        }
    }
    c.n(10 * n as u64);
    c.hit("sequences with every position queried");
    Ok(())
}

fn main() {
    run::main(
        "C18",
        &[
            Scenario::new("every-position", 16, 300, every_position),
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 10, every_length),
            Scenario::new("colossal-giant", 1, 3, |c| wmodel::colossal(c, 0)),
            Scenario::new("giant", 16, 300, giant),
            Scenario::new("hyper", 400, 20_000, |c| wmodel::hyper(c, false)),
            Scenario::new("enumerated", 1365, 8000, enumerated),
            Scenario::new("small", 12_000, 400_000, small),
            Scenario::new("medium", 2500, 60_000, medium),
            Scenario::new("large", 40, 1600, large),
        ],
    );
}
