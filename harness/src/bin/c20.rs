//! C20: the constructors agree with each other and the query variants agree with each other.
use vers_vecs::{BitVec, WaveletMatrix};
use vh::wmodel::{packed, query_symbol, range, symbols, value, Sym};
use vh::*;

type Ans = Option<Sym>;

fn v(b: Option<BitVec>, k: usize) -> Result<Ans, String> {
    b.map(|b| value(&b, k).ok_or(format!("answer of {} bits instead of {k}", b.len()))).transpose()
}

/// the four variants of one query agree; returns the common answer
fn same<T: PartialEq + std::fmt::Debug + Clone>(c: &mut Ctx, what: &str, answers: &[T]) -> Result<T, String> {
    c.n(answers.len() as u64);
    for a in answers {
        if *a != answers[0] {
            return Err(format!("{what}: the query variants (bit vector, unchecked, number, number unchecked) disagree: {answers:?}"));
        }
    }
    c.hit("variant groups compared");
    Ok(answers[0].clone())
}

struct Query {
    s: Sym,
    i: usize,
    a: usize,
    b: usize,
    q: usize,
    r: usize,
    off: usize,
}

/// all variants of all queries; returns the answers as one list
fn battery(c: &mut Ctx, w: &WaveletMatrix, k: usize, q: &Query) -> Result<Vec<String>, String> {
    let Query { s, i, a, b, q, r, off } = *q;
    let (bv, x) = (s.bv(k), s.low());
    let n = w.len();
    let mut out = Vec::new();
    let num = k <= 64;
    let lift = |x: Option<u64>| x.map(Sym::small);
    macro_rules! bitvec_group {
        ($what:expr, $chk:expr, $unch:expr, $num:expr, $numunch:expr) => {{
            let mut g = vec![v($chk, k)?, v(Some($unch), k)?];
            if num {
                g.push(lift($num));
                g.push(lift(Some($numunch)));
            } else if let Some(wide) = g[0] {
                // wider symbols: the checked number form refuses, the unchecked one is documented to truncate
                let t: (Option<u64>, u64) = ($num, $numunch);
                eq!(c, t, (None, wide.low()), "{} of {n} symbols of {k} bits: number forms of a symbol wider than 64 bits", format!($what));
                c.hit("truncated number forms compared");
            }
            out.push(format!("{:?}", same(c, &format!($what), &g)?));
        }};
    }
    macro_rules! count_group {
        ($what:expr, $chk:expr, $unch:expr, $num:expr, $numunch:expr) => {{
            let mut g = vec![$chk, Some($unch).filter(|&x| $chk.is_some() || x != n)];
            if num {
                g.push($num);
                g.push(Some($numunch).filter(|&x| $chk.is_some() || x != n));
            }
            out.push(format!("{:?}", same(c, &format!($what), &g)?));
        }};
    }
    let at = i.min(n - 1);
    bitvec_group!("get({at})", w.get_value(at), w.get_value_unchecked(at), w.get_u64(at), w.get_u64_unchecked(at));
    bitvec_group!("get_sorted({at})", w.get_sorted(at), w.get_sorted_unchecked(at), w.get_sorted_u64(at), w.get_sorted_u64_unchecked(at));
    bitvec_group!(
        "quantile({a}..{b},{q})",
        w.quantile(a..b, q),
        w.quantile_unchecked(a..b, q),
        w.quantile_u64(a..b, q),
        w.quantile_u64_unchecked(a..b, q)
    );
    bitvec_group!("range_min({a}..{b})", w.range_min(a..b), w.range_min_unchecked(a..b), w.range_min_u64(a..b), w.range_min_u64_unchecked(a..b));
    bitvec_group!("range_max({a}..{b})", w.range_max(a..b), w.range_max_unchecked(a..b), w.range_max_u64(a..b), w.range_max_u64_unchecked(a..b));
    bitvec_group!(
        "range_median({a}..{b})",
        w.range_median(a..b),
        w.range_median_unchecked(a..b),
        w.range_median_u64(a..b),
        w.range_median_u64_unchecked(a..b)
    );
    count_group!("rank({i},{s:?})", w.rank(i, &bv), w.rank_unchecked(i, &bv), w.rank_u64(i, x), w.rank_u64_unchecked(i, x));
    count_group!(
        "rank_range({a}..{b},{s:?})",
        w.rank_range(a..b, &bv),
        w.rank_range_unchecked(a..b, &bv),
        w.rank_range_u64(a..b, x),
        w.rank_range_u64_unchecked(a..b, x)
    );
    count_group!(
        "rank_offset({a},{b},{s:?})",
        w.rank_offset(a, b, &bv),
        w.rank_offset_unchecked(a, b, &bv),
        w.rank_offset_u64(a, b, x),
        w.rank_offset_u64_unchecked(a, b, x)
    );
    count_group!("select({r},{s:?})", w.select(r, &bv), w.select_unchecked(r, &bv), w.select_u64(r, x), w.select_u64_unchecked(r, x));
    count_group!(
        "select_offset({off},{r},{s:?})",
        w.select_offset(off, r, &bv),
        w.select_offset_unchecked(off, r, &bv),
        w.select_offset_u64(off, r, x),
        w.select_offset_u64_unchecked(off, r, x)
    );
    // rank_unchecked documents that symbol bits beyond the element width are ignored
    let mut long = bv.clone();
    long.append_word(!x);
    eq!(c, w.rank_unchecked(i, &long), w.rank_unchecked(i, &bv), "rank_unchecked({i},{s:?}) of {n} symbols of {k} bits with a symbol of {} bits", k + 64);
    let mut g = vec![v(w.predecessor(a..b, &bv), k)?];
    if num {
        g.push(lift(w.predecessor_u64(a..b, x)));
    }
    out.push(format!("{:?}", same(c, &format!("predecessor({a}..{b},{s:?})"), &g)?));
    let mut g = vec![v(w.successor(a..b, &bv), k)?];
    if num {
        g.push(lift(w.successor_u64(a..b, x)));
    }
    out.push(format!("{:?}", same(c, &format!("successor({a}..{b},{s:?})"), &g)?));
    Ok(out)
}

/// both checked forms of every query refuse and accept the same arguments, valid or not
fn refusals(c: &mut Ctx, w: &WaveletMatrix, k: usize, s: Sym) -> R {
    let n = w.len();
    let r = &c.rng;
    let mut p = || match r.below(8) {
        0 => 0,
        1 => n,
        2 => n + 1,
        3 => n.saturating_sub(1),
        4 => usize::MAX - r.below(2),
        _ => r.below(n + 1),
    };
    let (a, b, i, q) = (p(), p(), p(), p());
    let (bv, x) = (s.bv(k), s.low());
    macro_rules! forms {
        ($what:expr, $bits:expr, $num:expr) => {
            eq!(c, $bits.map(|y| y.to_string()), $num.map(|y| y.to_string()), "{}({a},{b},{i},{q},{s:?}) of {n} symbols of {k} bits: bit-vector form against number form", $what)
        };
        (value $what:expr, $bits:expr, $num:expr) => {
            eq!(c, v($bits, k)?, $num.map(Sym::small), "{}({a},{b},{i},{q},{s:?}) of {n} symbols of {k} bits: bit-vector form against number form", $what)
        };
    }
    forms!(value "get", w.get_value(i), w.get_u64(i));
    forms!(value "get_sorted", w.get_sorted(i), w.get_sorted_u64(i));
    forms!("rank", w.rank(i, &bv), w.rank_u64(i, x));
    forms!("rank_range", w.rank_range(a..b, &bv), w.rank_range_u64(a..b, x));
    forms!("rank_offset", w.rank_offset(a, b, &bv), w.rank_offset_u64(a, b, x));
    forms!("select", w.select(i, &bv), w.select_u64(i, x));
    forms!("select_offset", w.select_offset(a, i, &bv), w.select_offset_u64(a, i, x));
    forms!(value "quantile", w.quantile(a..b, q), w.quantile_u64(a..b, q));
    forms!(value "range_min", w.range_min(a..b), w.range_min_u64(a..b));
    forms!(value "range_max", w.range_max(a..b), w.range_max_u64(a..b));
    forms!(value "range_median", w.range_median(a..b), w.range_median_u64(a..b));
    forms!(value "predecessor", w.predecessor(a..b, &bv), w.predecessor_u64(a..b, x));
    forms!(value "successor", w.successor(a..b, &bv), w.successor_u64(a..b, x));
    c.hit("arguments of any validity given to both forms");
    Ok(())
}

fn one(c: &mut Ctx, n: usize, k: usize, pc: bool, count: usize) -> R {
    let (seq, style) = symbols(&mut c.rng, n, k);
    let p = packed(&mut c.rng, &seq, k);
    let nums: Vec<u64> = seq.iter().map(|s| s.low()).collect();
    let mut ms: Vec<(&str, WaveletMatrix)> = vec![("from_bit_vec", WaveletMatrix::from_bit_vec(&p, k as u16))];
    if k <= 64 {
        ms.push(("from_slice", WaveletMatrix::from_slice(&nums, k as u16)));
    }
    if pc {
        ms.push(("from_bit_vec_pc", WaveletMatrix::from_bit_vec_pc(&p, k as u16)));
        ms.push(("from_slice_pc", WaveletMatrix::from_slice_pc(&nums, k as u16)));
        c.hit("all four constructors");
    }
    for s in &seq {
        c.sig(s.0[2] ^ s.0[1].rotate_left(7) ^ s.0[0].rotate_left(13));
    }
    c.sig(k as u64);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} symbols of {k} bits ({style}), {} constructors", ms.len()));
    for (name, w) in &ms {
        eq!(c, (w.len(), w.is_empty(), w.bits_per_element()), (n, n == 0, k), "{name}: len, is_empty, width");
        eq!(c, (w.iter_u64().is_some(), w.iter_sorted_u64().is_some()), (k <= 64, k <= 64), "{name}: number iterators");
    }
    if k <= 64 {
        for _ in 0..count.min(20) {
            let s = if n > 0 { query_symbol(&mut c.rng, &seq, k) } else { Sym::small(c.rng.u64() & model::mask64(k)) };
            for (name, w) in &ms {
                refusals(c, w, k, s).map_err(|e| format!("{style}: {name}: {e}"))?;
            }
        }
    }
    if n == 0 {
        return Ok(());
    }
    // complete contents through the iterators
    if n * k <= 40_000 {
        let want: Vec<BitVec> = ms[0].1.iter().collect();
        let sorted: Vec<BitVec> = ms[0].1.iter_sorted().collect();
        for (name, w) in &ms {
            ck!(c, w.iter().collect::<Vec<_>>() == want, "{style}: contents of {name} differ from {}", ms[0].0);
            ck!(c, w.iter_sorted().collect::<Vec<_>>() == sorted, "{style}: sorted contents of {name} differ from {}", ms[0].0);
            if k <= 64 {
                let a: Vec<u64> = w.iter_u64().unwrap().collect();
                ck!(c, a.iter().zip(&want).all(|(x, y)| value(y, k) == Some(Sym::small(*x))), "{style}: {name}: iter_u64 differs from iter");
                let a: Vec<u64> = w.iter_sorted_u64().unwrap().collect();
                ck!(c, a.iter().zip(&sorted).all(|(x, y)| value(y, k) == Some(Sym::small(*x))), "{style}: {name}: iter_sorted_u64 differs");
            }
            c.n(4 * n as u64);
        }
    }
    if n * k > 40_000 && k <= 64 {
        for (name, w) in &ms {
            let bad = w.iter_u64().unwrap().zip(&nums).position(|(x, y)| x != *y);
            ck!(c, bad.is_none(), "{style}: {n} symbols of {k} bits, {name}: element {bad:?} differs from the input");
            c.n(n as u64);
            c.hit("large contents compared");
        }
    }
    for _ in 0..count {
        let (a, b) = range(&mut c.rng, n);
        let s = query_symbol(&mut c.rng, &seq, k);
        let occ = seq.iter().filter(|x| **x == s).count();
        let q = Query { s, i: c.rng.below(n), a, b, q: c.rng.below(b - a), r: c.rng.below(occ + 2), off: c.rng.below(n) };
        let mut first: Option<Vec<String>> = None;
        for (name, w) in &ms {
            let g = battery(c, w, k, &q).map_err(|e| format!("{style}: {name}, {n} symbols of {k} bits: {e}"))?;
            c.n(g.len() as u64);
            match &first {
                None => first = Some(g),
                Some(f) => {
                    if *f != g {
                        let j = (0..g.len()).find(|&j| f[j] != g[j]).unwrap();
                        return Err(format!(
                            "{style}: {n} symbols of {k} bits: query {j} (symbol {s:?}, range {a}..{b}) gives {} on {} but {} on {name}",
                            f[j], ms[0].0, g[j]
                        ));
                    }
                }
            }
        }
    }
    Ok(())
}

fn counting(c: &mut Ctx) -> R {
    let k = c.rng.range(1, 10);
    let n = c.rng.below(300);
    one(c, n, k, true, 10)
}

fn counting_wide(c: &mut Ctx) -> R {
    let k = c.rng.range(8, 17);
    let n = gen::len(&mut c.rng, 3000);
    one(c, n, k, true, 8)
}

fn sorting(c: &mut Ctx) -> R {
    let k = c.rng.range(13, 64);
    let n = gen::len(&mut c.rng, 800);
    one(c, n, k, false, 10)
}

fn wide(c: &mut Ctx) -> R {
    let k = c.rng.range(65, 140);
    let n = c.rng.below(200);
    one(c, n, k, false, 8)
}

fn large(c: &mut Ctx) -> R {
    let k = c.rng.range(1, 12);
    let n = 10_000 + c.rng.below(50_000);
    one(c, n, k, true, 30)
}

/// so many elements that any prefix occurs more than 2^16 times
fn giant(c: &mut Ctx) -> R {
    let k = c.rng.range(1, 5);
    let n = 70_000 + c.rng.below(1_000_000);
    one(c, n, k, true, 10)
}

/// large alphabets
fn alphabet(c: &mut Ctx) -> R {
    let k = c.rng.range(16, 21);
    let n = gen::len(&mut c.rng, 80_000);
    one(c, n, k, true, 10)
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    let n = gen::sweep(c.idx);
    let k = c.rng.range(1, 9);
    c.hit("lengths swept");
    one(c, n, k, true, 5)
}

fn main() {
    run::main(
        "C20",
        &[
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 8, every_length),
            Scenario::new("colossal-giant", 1, 3, |c| wmodel::colossal(c, 2)),
            Scenario::new("colossal-giant-pairs", 1, 2, wmodel::colossal_pairs),
            Scenario::new("giant", 24, 400, giant),
            Scenario::new("alphabet", 32, 800, alphabet),
            Scenario::new("counting", 8000, 200_000, counting),
            Scenario::new("counting-wide", 500, 12_000, counting_wide),
            Scenario::new("sorting", 3000, 80_000, sorting),
            Scenario::new("wide", 1500, 40_000, wide),
            Scenario::new("large", 24, 800, large),
        ],
    );
}
