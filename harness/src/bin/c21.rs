//! C21: checked operations report absence for invalid arguments of any magnitude and never panic.
use vers_vecs::trees::{LevelTree, Tree as _};
use vers_vecs::{BitVec, BpTree, EliasFanoVec, RsVec, SparseRSVec, WaveletMatrix};
use vh::treemodel::{Profile, BLOCKS};
use vh::wmodel::{build, symbols, value, width, Sym};
use vh::*;

/// run one call; a panic is a violation that names the call
fn call<T>(c: &mut Ctx, what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    c.n(1);
    run::guard(f).map_err(|m| format!("{what}: {m}"))
}

macro_rules! q {
    ($c:expr, $e:expr, $want:expr, $($fmt:tt)+) => {{
        let what = format!($($fmt)+);
        let g = call($c, &what, || $e)?;
        let w = $want;
        if g != w {
            return Err(format!("{what}: got {}, expected {}", run::short(&g), run::short(&w)));
        }
    }};
}

fn len(c: &mut Ctx) -> usize {
    match c.rng.below(5) {
        0 => 0,
        1 => c.rng.below(5),
        2 => c.rng.below(200),
        3 => 64 * (1 + c.rng.below(20)),
        _ => c.rng.below(3000),
    }
}

fn bits(c: &mut Ctx) -> R {
    let n = len(c);
    bits_of(c, n)
}
fn bits_of(c: &mut Ctx, n: usize) -> R {
    let (m, style) = gen::bits(&mut c.rng, n);
    let bv: BitVec = gen::bitvec(&mut c.rng, &m);
    let rs = RsVec::from_bit_vec(bv.clone());
    let mask_bits = gen::bits(&mut c.rng, n).0;
    let mv = gen::bitvec(&mut c.rng, &mask_bits);
    let masked = bv.mask_xor(&mv).map_err(|e| format!("mask_xor of equal lengths: {e}"))?;
    let xored: Vec<bool> = m.iter().zip(&mask_bits).map(|(a, b)| a ^ b).collect();
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("bit and rank/select vector of {n} bits ({style}) under hostile positions and widths"));
    let pre = model::prefix(&m);
    let ones = pre[n] as usize;
    let pos0 = model::positions_of(&m, false);
    let pos1 = model::positions_of(&m, true);
    for _ in 0..40 {
        let p = gen::hostile(&mut c.rng, n);
        let bit = m.get(p).map(|&b| u64::from(b));
        if bit.is_none() {
            c.hit("positions out of range");
        }
        q!(c, bv.get(p), bit, "BitVec::get({p}) of {n}");
        q!(c, bv.is_bit_set(p), bit.map(|b| b == 1), "BitVec::is_bit_set({p}) of {n}");
        q!(c, rs.get(p), bit, "RsVec::get({p}) of {n}");
        let mb = xored.get(p).map(|&b| u64::from(b));
        q!(c, masked.get(p), mb, "masked get({p}) of {n}");
        q!(c, masked.is_bit_set(p), mb.map(|b| b == 1), "masked is_bit_set({p}) of {n}");
        // multi-bit reads
        let w = match c.rng.below(5) {
            0 => gen::hostile(&mut c.rng, n),
            1 => 64 + c.rng.below(4),
            _ => c.rng.below(66),
        };
        let p2 = if c.rng.bool() { p } else { n.wrapping_sub(w).wrapping_add(c.rng.below(3)).wrapping_sub(1) };
        let ok = w <= 64 && p2.checked_add(w).is_some_and(|e| e <= n);
        let want = |m: &[bool]| if ok { Some(model::window(m, p2, w)) } else { None };
        if w == 0 {
            // absent or empty
            let g = call(c, "zero-width get_bits", || (bv.get_bits(p2, 0), rs.get_bits(p2, 0), masked.get_bits(p2, 0)))?;
            for x in [g.0, g.1, g.2] {
                ck!(c, matches!(x, None | Some(0)), "get_bits({p2},0) of {n} = {x:?}");
            }
            c.hit("zero-width reads");
        } else {
            if !ok {
                c.hit("reads out of range or over-wide");
            }
            q!(c, bv.get_bits(p2, w), want(&m), "BitVec::get_bits({p2},{w}) of {n}");
            q!(c, rs.get_bits(p2, w), want(&m), "RsVec::get_bits({p2},{w}) of {n}");
            q!(c, masked.get_bits(p2, w), want(&xored), "masked get_bits({p2},{w}) of {n}");
            let at = p2.checked_mul(w);
            let uok = w <= 64 && at.and_then(|a| a.checked_add(w)).is_some_and(|e| e <= n);
            let uw = if uok { Some(model::window(&m, p2 * w, w)) } else { None };
            q!(c, bv.unpack_element(p2, w), uw, "BitVec::unpack_element({p2},{w}) of {n}");
            // element indices whose bit position wraps around to a valid one
            let i = (usize::MAX / w).wrapping_add(c.rng.below(3));
            let at = i.checked_mul(w);
            let uok = w <= 64 && at.and_then(|a| a.checked_add(w)).is_some_and(|e| e <= n);
            let uw = if uok { Some(model::window(&m, i * w, w)) } else { None };
            q!(c, bv.unpack_element(i, w), uw, "BitVec::unpack_element({i},{w}) of {n}");
        }
        // rank and select saturate
        let r = gen::hostile(&mut c.rng, n);
        let k = r.min(n);
        q!(c, rs.rank1(r), pre[k] as usize, "rank1({r}) of {n}");
        q!(c, rs.rank0(r), k - pre[k] as usize, "rank0({r}) of {n}");
        q!(c, rs.select1(r), pos1.get(r).copied().unwrap_or(n), "select1({r}) of {n} with {ones} ones");
        q!(c, rs.select0(r), pos0.get(r).copied().unwrap_or(n), "select0({r}) of {n} with {ones} ones");
        for (is1, cnt, ps) in [(true, ones, &pos1), (false, n - ones, &pos0)] {
            for d in 0..3 {
                let r = (cnt + d).wrapping_sub(1);
                let w = ps.get(r).copied().unwrap_or(n);
                if is1 {
                    q!(c, rs.select1(r), w, "select1({r}) of {n} with {ones} ones");
                } else {
                    q!(c, rs.select0(r), w, "select0({r}) of {n} with {ones} ones");
                }
            }
        }
        // edits with invalid positions leave the vector as it was
        if c.rng.one_in(4) {
            let mut e = bv.clone();
            let v = c.rng.u64();
            let g = call(c, &format!("set({p},{v:#x}) of {n}"), || e.set(p, v).is_ok())?;
            ck!(c, g == (p < n), "set({p}) of {n} returned ok={g}");
            let mut mm = m.clone();
            if p < n {
                mm[p] = v & 1 == 1;
            }
            for i in [p.min(n.saturating_sub(1)), p.saturating_add(1).min(n.saturating_sub(1)), 0, n.saturating_sub(1)] {
                if i < n {
                    eq!(c, e.get(i), Some(u64::from(mm[i])), "bit {i} after set({p},{v:#x})");
                }
            }
            ck!(c, p < n || e == bv, "rejected set changed the vector");
            let mut e = bv.clone();
            call(c, &format!("drop_last({p}) of {n}"), || e.drop_last(p))?;
            eq!(c, e.len(), n.saturating_sub(p), "length after drop_last({p}) of {n}");
            match call(c, &format!("split_at({p}) of {n}"), || bv.clone().split_at(p))? {
                Err(back) => {
                    ck!(c, p > n, "split_at({p}) of {n} rejected");
                    ck!(c, back == bv, "split_at({p}) of {n} returned a changed vector");
                    c.hit("rejected splits");
                }
                Ok((a, b)) => {
                    ck!(c, p <= n, "split_at({p}) of {n} accepted");
                    eq!(c, (a.len(), b.len()), (p, n - p), "halves of split_at({p}) of {n}");
                }
            }
        }
    }
    // masks of a different length are rejected
    for other in [n + 1, n + 64, n / 2, n.saturating_sub(1), 0, n.next_multiple_of(64)] {
        let o = BitVec::from_ones(other);
        let same = other == n;
        let g = call(c, &format!("mask of {other} bits on {n}"), || (bv.mask_or(&o).is_ok(), bv.mask_and(&o).is_ok(), bv.mask_xor(&o).is_ok()))?;
        eq!(c, g, (same, same, same), "mask of {other} bits on a vector of {n}");
        let mut e = bv.clone();
        let g = call(c, &format!("apply_mask of {other} bits on {n}"), || {
            (e.apply_mask_or(&o).is_ok(), e.apply_mask_and(&o).is_ok(), e.apply_mask_xor(&o).is_ok())
        })?;
        eq!(c, g, (same, same, same), "apply_mask of {other} bits on a vector of {n}");
        ck!(c, same || e == bv, "a rejected mask changed the vector");
        if !same {
            c.hit("rejected masks");
        }
    }
    Ok(())
}

fn value_arg(c: &mut Ctx, v: &[u64]) -> u64 {
    match c.rng.below(6) {
        0 => u64::MAX - c.rng.below64(3),
        1 => c.rng.log_u64(64),
        2 => c.rng.below64(3),
        3 if !v.is_empty() => v[0].wrapping_add(c.rng.below64(3)).wrapping_sub(1),
        4 if !v.is_empty() => v[v.len() - 1].wrapping_add(c.rng.below64(3)).wrapping_sub(1),
        _ if !v.is_empty() => c.rng.pick(v).wrapping_add(c.rng.below64(3)).wrapping_sub(1),
        _ => c.rng.u64(),
    }
}

fn ef(c: &mut Ctx) -> R {
    let (v, style) = if c.rng.one_in(8) { (vec![], "empty") } else { gen::sorted(&mut c.rng, 300) };
    ef_of(c, v, style)
}
fn ef_of(c: &mut Ctx, v: Vec<u64>, style: &str) -> R {
    let e = call(c, "EliasFanoVec::from_slice", || EliasFanoVec::from_slice(&v))?;
    let n = v.len();
    for x in &v {
        c.sig(*x);
    }
    c.nontrivial();
    c.describe(format!("Elias-Fano vector of {n} elements ({style}) under hostile indices and values"));
    for _ in 0..60 {
        let i = gen::hostile(&mut c.rng, n);
        q!(c, e.get(i), v.get(i).copied(), "get({i}) of {n}");
        q!(c, e.select(i), v.get(i).copied(), "select({i}) of {n}");
        let d = v.get(i).map(|x| if i == 0 { *x } else { x - v[i - 1] });
        q!(c, e.delta(i), d, "delta({i}) of {n}");
        let x = value_arg(c, &v);
        let p = v.partition_point(|y| *y <= x);
        let pred = if p == 0 { None } else { Some(v[p - 1]) };
        let r = v.partition_point(|y| *y < x);
        let succ = v.get(r).copied();
        if pred.is_none() || succ.is_none() {
            c.hit("absent neighbours");
        }
        q!(c, e.predecessor(x), pred, "predecessor({x}) of {n} elements, {style}");
        q!(c, e.successor(x), succ, "successor({x}) of {n} elements, {style}");
        q!(c, e.rank(x), r as u64, "rank({x}) of {n} elements, {style}");
    }
    // sparse vector over the same positions
    let mut d = v.clone();
    d.dedup();
    if d.last() == Some(&u64::MAX) {
        d.pop();
    }
    let l = d.last().map_or(c.rng.below64(100), |x| (x + 1).saturating_add(c.rng.log_u64(20)));
    let s = call(c, "SparseRSVec::new", || SparseRSVec::new(&d, l))?;
    for _ in 0..60 {
        let x = if c.rng.one_in(4) { l.wrapping_add(c.rng.below64(3)).wrapping_sub(1) } else { value_arg(c, &d) };
        let set = d.binary_search(&x).is_ok();
        let want = if x < l { Some(set) } else { None };
        if want.is_none() {
            c.hit("sparse positions out of range");
        }
        q!(c, s.is_set(x), want, "SparseRSVec::is_set({x}) of {l}");
        q!(c, s.get(x), want.map(u64::from), "SparseRSVec::get({x}) of {l}");
        let k = x.min(l);
        let r1 = d.partition_point(|y| *y < k) as u64;
        q!(c, s.rank1(x), r1, "SparseRSVec::rank1({x}) of {l}");
        q!(c, s.rank0(x), k - r1, "SparseRSVec::rank0({x}) of {l}");
        let i = gen::hostile(&mut c.rng, d.len());
        q!(c, s.select1(i), d.get(i).copied().unwrap_or(l), "SparseRSVec::select1({i}) of {} ones", d.len());
    }
    Ok(())
}

fn wavelet(c: &mut Ctx) -> R {
    let n = match c.rng.below(4) {
        0 => 0,
        1 => c.rng.below(4),
        _ => c.rng.below(60),
    };
    let k = width(&mut c.rng);
    wavelet_of(c, n, k, 30)
}
fn wavelet_of(c: &mut Ctx, n: usize, k: usize, rounds: usize) -> R {
    let (v, style) = symbols(&mut c.rng, n, k);
    let (w, ctor): (WaveletMatrix, _) = {
        let r = &mut c.rng;
        run::guard(|| build(r, &v, k)).map_err(|m| format!("constructor for {n} symbols of {k} bits: {m}"))?
    };
    for s in &v {
        c.sig(s.low());
    }
    c.sig(k as u64 ^ (n as u64) << 20);
    c.nontrivial();
    c.describe(format!("wavelet matrix of {n} symbols of {k} bits ({style}, {ctor}) under hostile ranges and symbols"));
    let num = k <= 64;
    let lift = |x: Option<BitVec>| -> Result<Option<Sym>, String> {
        match x {
            None => Ok(None),
            Some(b) => value(&b, k).map(Some).ok_or(format!("answer has {} bits, not {k}", b.len())),
        }
    };
    for _ in 0..rounds {
        let i = gen::hostile(&mut c.rng, n);
        q!(c, w.get_value(i).map(|b| value(&b, k)), v.get(i).map(|s| Some(*s)), "get_value({i}) of {n}");
        q!(c, w.get_u64(i), v.get(i).filter(|_| num).map(|s| s.low()), "get_u64({i}) of {n}, width {k}");
        let mut all = v.clone();
        all.sort_unstable();
        q!(c, w.get_sorted(i).map(|b| value(&b, k)), all.get(i).map(|s| Some(*s)), "get_sorted({i}) of {n}");
        q!(c, w.get_sorted_u64(i), all.get(i).filter(|_| num).map(|s| s.low()), "get_sorted_u64({i}) of {n}, width {k}");
        // symbols of right and wrong width
        let sw = match c.rng.below(5) {
            0 => k + 1 + c.rng.below(70),
            1 => k - 1,
            2 => 0,
            _ => k,
        };
        let s = wmodel::query_symbol(&mut c.rng, &v, k);
        let sb = s.bv(sw);
        let fits = sw == k;
        if !fits {
            c.hit("symbols of the wrong width");
        }
        let (a, b) = (gen::hostile(&mut c.rng, n), gen::hostile(&mut c.rng, n));
        let (a, b) = if c.rng.one_in(3) { (a.min(n), b) } else { (a, b) };
        let inside = a <= b && b <= n;
        if a > b {
            c.hit("reversed ranges");
        } else if !inside {
            c.hit("ranges out of bounds");
        }
        // an empty range at the very end may count as in or out of bounds
        let edge = inside && a == n;
        let cnt = |a: usize, b: usize| v[a..b].iter().filter(|x| **x == s).count();
        let want = if inside { Some(cnt(a, b)) } else { None };
        let ok = |g: Option<usize>, may: bool| if may { g == want || (edge && g.is_none()) } else { g.is_none() };
        let g = call(c, &format!("rank_range({a}..{b}) of {n}"), || (w.rank_range(a..b, &sb), w.rank_offset(a, b, &sb)))?;
        ck!(c, ok(g.0, fits) && ok(g.1, fits), "rank_range/rank_offset({a}..{b}, {sw}-bit symbol {s:?}) of {n} symbols of {k} bits: {g:?}, expected {want:?} if the width fits");
        let g = call(c, &format!("rank_range_u64({a}..{b}) of {n}"), || (w.rank_range_u64(a..b, s.low()), w.rank_offset_u64(a, b, s.low())))?;
        ck!(c, ok(g.0, num) && ok(g.1, num), "rank_range_u64/rank_offset_u64({a}..{b},{s:?}) of {n} symbols of {k} bits: {g:?}, expected {want:?}");
        let want = if i <= n { Some(cnt(0, i)) } else { None };
        let g = call(c, &format!("rank({i}) of {n}"), || (w.rank(i, &sb), w.rank_u64(i, s.low())))?;
        let okr = |g: Option<usize>, may: bool| if may { g == want || (n == 0 && g.is_none()) } else { g.is_none() };
        ck!(c, okr(g.0, fits) && okr(g.1, num), "rank({i},{sw}-bit {s:?}) of {n} symbols of {k} bits: {g:?}, expected {want:?}");
        let r = gen::hostile(&mut c.rng, n);
        let pos: Vec<usize> = (0..n).filter(|&j| v[j] == s).collect();
        let want = pos.get(r).copied();
        q!(c, w.select(r, &sb), want.filter(|_| fits), "select({r},{sw}-bit {s:?}) of {n} symbols of {k} bits");
        q!(c, w.select_u64(r, s.low()), want.filter(|_| num), "select_u64({r},{s:?}) of {n} symbols of {k} bits");
        let want = if a < n { pos.iter().filter(|&&p| p >= a).nth(r).copied() } else { None };
        q!(c, w.select_offset(a, r, &sb), want.filter(|_| fits), "select_offset({a},{r},{sw}-bit {s:?}) of {n} symbols of {k} bits");
        q!(c, w.select_offset_u64(a, r, s.low()), want.filter(|_| num), "select_offset_u64({a},{r},{s:?}) of {n} symbols of {k} bits");
        // order statistics
        let mut srt = if inside { v[a..b].to_vec() } else { vec![] };
        srt.sort_unstable();
        let m = srt.len();
        let kk = if c.rng.bool() { gen::hostile(&mut c.rng, m) } else { c.rng.below(m + 2) };
        let want = srt.get(kk).copied();
        let g = call(c, &format!("quantile({a}..{b},{kk}) of {n}"), || w.quantile(a..b, kk))?;
        eq!(c, lift(g)?, want, "quantile({a}..{b},{kk}) of {n} symbols of {k} bits");
        q!(c, w.quantile_u64(a..b, kk), want.filter(|_| num).map(|s| s.low()), "quantile_u64({a}..{b},{kk}) of {n} symbols of {k} bits");
        let (lo, hi, md) = (srt.first().copied(), srt.last().copied(), if m == 0 { None } else { Some(srt[(m - 1) / 2]) });
        let g = call(c, &format!("range_min/max/median({a}..{b}) of {n}"), || (w.range_min(a..b), w.range_max(a..b), w.range_median(a..b)))?;
        eq!(c, (lift(g.0)?, lift(g.1)?, lift(g.2)?), (lo, hi, md), "range_min/max/median({a}..{b}) of {n} symbols of {k} bits");
        let g = call(c, &format!("range_min/max/median_u64({a}..{b}) of {n}"), || {
            (w.range_min_u64(a..b), w.range_max_u64(a..b), w.range_median_u64(a..b))
        })?;
        let nn = |x: Option<Sym>| x.filter(|_| num).map(|s| s.low());
        eq!(c, g, (nn(lo), nn(hi), nn(md)), "range_min/max/median_u64({a}..{b}) of {n} symbols of {k} bits");
        let x = srt.partition_point(|y| *y <= s);
        let pred = if x == 0 { None } else { Some(srt[x - 1]) };
        let succ = srt.get(srt.partition_point(|y| *y < s)).copied();
        let g = call(c, &format!("predecessor/successor({a}..{b}) of {n}"), || (w.predecessor(a..b, &sb), w.successor(a..b, &sb)))?;
        eq!(c, (lift(g.0)?, lift(g.1)?), (pred.filter(|_| fits), succ.filter(|_| fits)), "predecessor/successor({a}..{b},{sw}-bit {s:?}) of {n} symbols of {k} bits");
        let g = call(c, &format!("predecessor/successor_u64({a}..{b}) of {n}"), || (w.predecessor_u64(a..b, s.low()), w.successor_u64(a..b, s.low())))?;
        eq!(c, g, (nn(pred), nn(succ)), "predecessor/successor_u64({a}..{b},{s:?}) of {n} symbols of {k} bits");
    }
    let g = call(c, "number iterators", || (w.iter_u64().is_some(), w.iter_sorted_u64().is_some()))?;
    eq!(c, g, (num, num), "number iterators of a matrix of width {k}");
    Ok(())
}

fn tree_b<const B: usize>(c: &mut Ctx, m: &[bool]) -> R {
    let bv = gen::bitvec(&mut c.rng, m);
    let t = call(c, "BpTree::from_bit_vector", || BpTree::<B>::from_bit_vector(bv))?;
    let p = Profile::new(m);
    let n = m.len();
    for _ in 0..25 {
        let i = gen::hostile(&mut c.rng, n);
        let rel = match c.rng.below(5) {
            4 => {
                c.hit("extreme relative excesses");
                let k = c.rng.below64(n as u64 + 3) as i64;
                if c.rng.bool() { i64::MAX - k } else { i64::MIN + k }
            }
            0 => (c.rng.log_u64(62) as i64).wrapping_neg(),
            1 => c.rng.log_u64(62) as i64,
            _ => c.rng.below(9) as i64 - 4,
        };
        if i >= n {
            c.hit("tree positions out of range");
            q!(c, (t.close(i), t.open(i), t.enclose(i)), (None, None, None), "close/open/enclose({i}) of {n}, block {B}");
            q!(c, (t.fwd_search(i, rel), t.bwd_search(i, rel)), (None, None), "searches from {i} of {n}, block {B}");
            q!(c, t.excess(i), p.e[n], "excess({i}) of {n}, block {B}");
        } else {
            q!(c, t.fwd_search(i, rel), p.fwd(i, rel), "fwd_search({i},{rel}) of {n}, block {B}");
            q!(c, t.bwd_search(i, rel), p.bwd(i, rel), "bwd_search({i},{rel}) of {n}, block {B}");
        }
        if n == 0 {
            let l = c.rng.log_u64(64);
            q!(c, (t.root(), t.level_leftmost(l), t.level_rightmost(l)), (None, None, None), "root and level {l} of the empty tree");
            c.hit("empty trees");
        } else {
            // no node lies deeper than there are parentheses
            let l = (n as u64 + 1).max(if c.rng.bool() { c.rng.log_u64(64) } else { u64::MAX - c.rng.below64(n as u64 + 3) });
            q!(c, (t.level_leftmost(l), t.level_rightmost(l)), (None, None), "level {l} of {n} parentheses, block {B}");
            if i < n && m[i] {
                q!(c, t.level_ancestor(i, l), None, "level_ancestor({i},{l}) of {n} parentheses, block {B}");
                c.hit("levels beyond any tree");
            }
        }
    }
    Ok(())
}

fn tree(c: &mut Ctx) -> R {
    let n = if c.rng.one_in(10) { 0 } else { c.rng.below(600) };
    tree_of(c, n)
}
fn tree_of(c: &mut Ctx, n: usize) -> R {
    let m = if n > 0 && c.rng.bool() { gen::tree(&mut c.rng, n / 2 + 1).0 } else { gen::bits(&mut c.rng, n).0 };
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("parentheses of {} bits under hostile positions and excesses", m.len()));
    let b = *c.rng.pick(&BLOCKS);
    with_block!(b, tree_b(c, &m))
}

/// every length up to 1100, then lengths around powers of two, once for each kind
fn every_length(c: &mut Ctx) -> R {
    let n = gen::sweep(c.idx);
    c.hit("lengths swept");
    bits_of(c, n)?;
    let (v, style) = gen::sorted_exact(&mut c.rng, n);
    ef_of(c, v, style)?;
    let k = if n > 1100 || c.rng.one_in(3) { c.rng.range(1, 9) } else { width(&mut c.rng) };
    wavelet_of(c, n, k, 3)?;
    tree_of(c, n)
}

fn main() {
    run::main(
        "C21",
        &[
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 10, every_length),
            Scenario::new("bits", 16000, 150_000, bits),
            Scenario::new("elias-fano", 16000, 150_000, ef),
            Scenario::new("wavelet", 16000, 150_000, wavelet),
            Scenario::new("tree", 16000, 150_000, tree),
        ],
    );
}
