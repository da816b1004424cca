//! C19: order statistics, sorted access, predecessor and successor of a wavelet matrix.
use vers_vecs::WaveletMatrix;
use vh::wmodel::{build, query_symbol, range, symbols, value, width, Sym};
use vh::*;

fn val(b: Option<vers_vecs::BitVec>, k: usize) -> Result<Option<Sym>, String> {
    match b {
        None => Ok(None),
        Some(b) => match value(&b, k) {
            Some(s) => Ok(Some(s)),
            None => Err(format!("answer has {} bits instead of {k}", b.len())),
        },
    }
}

fn ranges(c: &mut Ctx, w: &WaveletMatrix, v: &[Sym], k: usize, count: usize) -> R {
    let n = v.len();
    for _ in 0..count {
        let (a, b) = range(&mut c.rng, n);
        ask(c, w, v, k, a, b)?;
    }
    Ok(())
}

fn ask(c: &mut Ctx, w: &WaveletMatrix, v: &[Sym], k: usize, a: usize, b: usize) -> R {
    let n = v.len();
    let mut s = v[a..b].to_vec();
    s.sort_unstable();
    let m = s.len();
    let num = |x: Sym| if k <= 64 { Some(x.low()) } else { None };
    let mut qs = vec![0, m - 1, (m - 1) / 2];
    for _ in 0..3 {
        qs.push(c.rng.below(m));
    }
    for q in qs {
        eq!(c, val(w.quantile(a..b, q), k)?, Some(s[q]), "quantile({a}..{b},{q}) of {n}, width {k}");
        eq!(c, val(Some(w.quantile_unchecked(a..b, q)), k)?, Some(s[q]), "quantile_unchecked({a}..{b},{q}) of {n}, width {k}");
        eq!(c, w.quantile_u64(a..b, q), num(s[q]), "quantile_u64({a}..{b},{q}) of {n}, width {k}");
        if k <= 64 {
            eq!(c, w.quantile_u64_unchecked(a..b, q), s[q].low(), "quantile_u64_unchecked({a}..{b},{q}) of {n}, width {k}");
        }
    }
    for q in [m, m + 1, m + 700, usize::MAX] {
        eq!(c, (w.quantile(a..b, q).is_none(), w.quantile_u64(a..b, q)), (true, None), "quantile({a}..{b},{q}) beyond the range of {m}");
    }
    let (lo, hi, md) = (s[0], s[m - 1], s[(m - 1) / 2]);
    eq!(c, val(w.range_min(a..b), k)?, Some(lo), "range_min({a}..{b}) of {n}, width {k}");
    eq!(c, val(w.range_max(a..b), k)?, Some(hi), "range_max({a}..{b}) of {n}, width {k}");
    eq!(c, val(w.range_median(a..b), k)?, Some(md), "range_median({a}..{b}) of {n}, width {k}");
    eq!(c, val(Some(w.range_min_unchecked(a..b)), k)?, Some(lo), "range_min_unchecked({a}..{b}) of {n}, width {k}");
    eq!(c, val(Some(w.range_max_unchecked(a..b)), k)?, Some(hi), "range_max_unchecked({a}..{b}) of {n}, width {k}");
    eq!(c, val(Some(w.range_median_unchecked(a..b)), k)?, Some(md), "range_median_unchecked({a}..{b}) of {n}, width {k}");
    eq!(
        c,
        (w.range_min_u64(a..b), w.range_max_u64(a..b), w.range_median_u64(a..b)),
        (num(lo), num(hi), num(md)),
        "range_min/max/median_u64({a}..{b}) of {n}, width {k}"
    );
    if k <= 64 {
        eq!(
            c,
            (w.range_min_u64_unchecked(a..b), w.range_max_u64_unchecked(a..b), w.range_median_u64_unchecked(a..b)),
            (lo.low(), hi.low(), md.low()),
            "range_min/max/median_u64_unchecked({a}..{b}) of {n}, width {k}"
        );
    }
    c.hit("ranges ordered");
    // neighbours
    for _ in 0..6 {
        let q = if c.rng.one_in(4) { query_symbol(&mut c.rng, v, k) } else { query_symbol(&mut c.rng, &v[a..b], k) };
        let x = s.partition_point(|y| *y <= q);
        let pred = if x == 0 { None } else { Some(s[x - 1]) };
        let y = s.partition_point(|y| *y < q);
        let succ = s.get(y).copied();
        c.hit(match (pred, succ) {
            (Some(p), _) if p == q => "neighbour query: symbol in range",
            (None, _) => "neighbour query: no predecessor",
            (_, None) => "neighbour query: no successor",
            _ => "neighbour query: symbol strictly between",
        });
        let bv = q.bv(k);
        eq!(c, val(w.predecessor(a..b, &bv), k)?, pred, "predecessor({a}..{b},{q:?}) of {n}, width {k}");
        eq!(c, val(w.successor(a..b, &bv), k)?, succ, "successor({a}..{b},{q:?}) of {n}, width {k}");
        eq!(c, w.predecessor_u64(a..b, q.low()), pred.and_then(num), "predecessor_u64({a}..{b},{q:?}) of {n}, width {k}");
        eq!(c, w.successor_u64(a..b, q.low()), succ.and_then(num), "successor_u64({a}..{b},{q:?}) of {n}, width {k}");
    }
    Ok(())
}

fn sorted(c: &mut Ctx, w: &WaveletMatrix, v: &[Sym], k: usize) -> R {
    let n = v.len();
    let mut s = v.to_vec();
    s.sort_unstable();
    let step = 1 + n / 400;
    let mut i = 0;
    while i < n {
        let want = s[i];
        eq!(c, val(w.get_sorted(i), k)?, Some(want), "get_sorted({i}) of {n}, width {k}");
        eq!(c, val(Some(w.get_sorted_unchecked(i)), k)?, Some(want), "get_sorted_unchecked({i}) of {n}, width {k}");
        eq!(c, w.get_sorted_u64(i), if k <= 64 { Some(want.low()) } else { None }, "get_sorted_u64({i}) of {n}, width {k}");
        if k <= 64 {
            eq!(c, w.get_sorted_u64_unchecked(i), want.low(), "get_sorted_u64_unchecked({i}) of {n}, width {k}");
        }
        i += step;
    }
    if n <= 600 {
        let g: Vec<Option<Sym>> = w.iter_sorted().map(|b| value(&b, k)).collect();
        ck!(c, g.len() == n && g.iter().zip(&s).all(|(x, y)| *x == Some(*y)), "iter_sorted of {n} symbols, width {k}: got {}", run::short(&g));
        let g: Option<Vec<u64>> = w.iter_sorted_u64().map(|i| i.collect());
        if k <= 64 {
            ck!(c, g == Some(s.iter().map(|x| x.low()).collect()), "iter_sorted_u64 of {n} symbols, width {k}");
        } else {
            ck!(c, g.is_none(), "iter_sorted_u64 exists for width {k}");
        }
        c.n(n as u64);
        c.hit("sorted iterations");
    }
    Ok(())
}

fn one(c: &mut Ctx, n: usize, k: usize, count: usize) -> R {
    let (v, style) = symbols(&mut c.rng, n, k);
    let (w, ctor) = build(&mut c.rng, &v, k);
    for s in &v {
        c.sig(s.0[2] ^ s.0[1].rotate_left(7) ^ s.0[0].rotate_left(13));
    }
    c.sig(k as u64);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} symbols of {k} bits ({style}, {ctor})"));
    sorted(c, &w, &v, k).map_err(|e| format!("{style} {ctor}: {e}"))?;
    if n > 0 {
        ranges(c, &w, &v, k, count).map_err(|e| format!("{style} {ctor}: {e}"))?;
    }
    Ok(())
}

/// every sequence of up to 4 three-bit symbols, every range and symbol
fn enumerated(c: &mut Ctx) -> R {
    let mut x = c.idx % (8 + 64 + 512 + 4096);
    let mut n = 1u32;
    while x >= 8u64.pow(n) {
        x -= 8u64.pow(n);
        n += 1;
    }
    let v: Vec<Sym> = (0..n).map(|i| Sym::small((x >> (3 * i)) & 7)).collect();
    let (w, ctor) = build(&mut c.rng, &v, 3);
    c.sig(x ^ u64::from(n) << 32);
    c.nontrivial();
    c.describe(format!("{:?} ({ctor})", v.iter().map(|s| s.low()).collect::<Vec<_>>()));
    sorted(c, &w, &v, 3)?;
    let n = n as usize;
    for a in 0..n {
        for b in a + 1..=n {
            let mut s: Vec<u64> = v[a..b].iter().map(|s| s.low()).collect();
            s.sort_unstable();
            for q in 0..8u64 {
                let pred = s.iter().rev().find(|&&y| y <= q).copied();
                let succ = s.iter().find(|&&y| y >= q).copied();
                eq!(c, (w.predecessor_u64(a..b, q), w.successor_u64(a..b, q)), (pred, succ), "neighbours of {q} in {a}..{b} of {v:?}");
                let bv = Sym::small(q).bv(3);
                eq!(
                    c,
                    (val(w.predecessor(a..b, &bv), 3)?, val(w.successor(a..b, &bv), 3)?),
                    (pred.map(Sym::small), succ.map(Sym::small)),
                    "bit-vector neighbours of {q} in {a}..{b} of {v:?}"
                );
            }
            ask(c, &w, &v, 3, a, b)?;
        }
    }
    Ok(())
}

fn small(c: &mut Ctx) -> R {
    let n = c.rng.below(70);
    let k = width(&mut c.rng);
    one(c, n, k, 8)
}

fn medium(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 3000);
    let k = width(&mut c.rng);
    one(c, n, k, 12)
}

fn large(c: &mut Ctx) -> R {
    let n = 10_000 + c.rng.below(60_000);
    let k = c.rng.range(1, 16);
    one(c, n, k, 30)
}

fn giant(c: &mut Ctx) -> R {
    let n = 70_000 + c.rng.below(1_000_000);
    let k = c.rng.range(1, 5);
    one(c, n, k, 4)
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    let n = gen::sweep(c.idx);
    let k = if n > 1100 || c.rng.one_in(3) { c.rng.range(1, 9) } else { width(&mut c.rng) };
    c.hit("lengths swept");
    one(c, n, k, 6)
}

/// every position of the sorted order and ranges at every position of sequences of more than 2^16 symbols
fn every_position(c: &mut Ctx) -> R {
    let n = gen::dense(&mut c.rng);
    let k = c.rng.range(1, 10);
    let (v, style) = symbols(&mut c.rng, n, k);
    let (w, ctor) = build(&mut c.rng, &v, k);
    for s in &v {
        c.sig(s.low());
    }
    c.nontrivial();
    c.describe(format!("every position of {n} symbols of {k} bits ({style}, {ctor})"));
    let mut s = v.to_vec();
    s.sort_unstable();
    for (i, x) in s.iter().enumerate() {
        let want = (Some(*x), Some(x.low()), x.low(), Some(x.low()));
        let g = (val(w.get_sorted(i), k)?, w.get_sorted_u64(i), w.get_sorted_u64_unchecked(i), w.quantile_u64(0..n, i));
        if g != want {
            return Err(format!("get_sorted({i}) of {n}, width {k}: {g:?}, expected {want:?}"));
        }
    }
    // short ranges starting at every position
    for a in 0..n {
        let b = (a + 1 + c.rng.below(40)).min(n);
        let mut t: Vec<u64> = v[a..b].iter().map(|x| x.low()).collect();
        t.sort_unstable();
        let m = t.len();
        let i = c.rng.below(m);
        let g = (w.quantile_u64(a..b, i), w.range_min_u64(a..b), w.range_max_u64(a..b), w.range_median_u64(a..b));
        let want = (Some(t[i]), Some(t[0]), Some(t[m - 1]), Some(t[(m - 1) / 2]));
        if g != want {
            return Err(format!("quantile/min/max/median of {a}..{b} (rank {i}) of {n}, width {k}: {g:?}, expected {want:?}"));
        }
        let q = if c.rng.bool() { *c.rng.pick(&t) } else { c.rng.u64() & ((1 << k) - 1) };
        let want = (t.iter().rev().find(|&&y| y <= q).copied(), t.iter().find(|&&y| y >= q).copied());
        let g = (w.predecessor_u64(a..b, q), w.successor_u64(a..b, q));
        if g != want {
            return Err(format!("predecessor/successor of {q} in {a}..{b} of {n}, width {k}: {g:?}, expected {want:?}"));
        }
        let g = (val(w.predecessor(a..b, &Sym::small(q).bv(k)), k)?, val(w.successor(a..b, &Sym::small(q).bv(k)), k)?);
        let want = (want.0.map(Sym::small), want.1.map(Sym::small));
        if g != want {
            return Err(format!("bit-vector predecessor/successor of {q} in {a}..{b} of {n}, width {k}: {g:?}, expected {want:?}"));
        }
    }
    c.n(12 * n as u64);
    c.hit("sequences with every position queried");
    Ok(())
}

fn main() {
    run::main(
        "C19",
        &[
            Scenario::new("every-position", 12, 240, every_position),
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 10, every_length),
            Scenario::new("colossal-giant", 1, 3, |c| wmodel::colossal(c, 1)),
            Scenario::new("giant", 16, 300, giant),
            Scenario::new("hyper", 400, 20_000, |c| wmodel::hyper(c, true)),
            Scenario::new("enumerated", 4680, 20_000, enumerated),
            Scenario::new("small", 10_000, 300_000, small),
            Scenario::new("medium", 1600, 50_000, medium),
            Scenario::new("large", 40, 1600, large),
        ],
    );
}
