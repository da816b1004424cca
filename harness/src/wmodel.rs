//! Reference model for wavelet matrices: a plain sequence of k-bit symbols (k <= 192).
use crate::gen;
use crate::rng::Rng;
use vers_vecs::{BitVec, WaveletMatrix};

/// big-endian words, so that the derived order is the numeric order
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Sym(pub [u64; 3]);

impl Sym {
    pub fn small(x: u64) -> Self {
        Sym([0, 0, x])
    }
    pub fn low(self) -> u64 {
        self.0[2]
    }
    pub fn bit(self, i: usize) -> bool {
        i < 192 && (self.0[2 - i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn masked(self, k: usize) -> Self {
        let mut s = self;
        for w in 0..3 {
            let lo = (2 - w) * 64;
            let keep = k.saturating_sub(lo).min(64);
            s.0[w] &= crate::model::mask64(keep);
            if keep == 0 {
                s.0[w] = 0;
            }
        }
        s
    }
    pub fn bools(self, k: usize) -> Vec<bool> {
        (0..k).map(|i| self.bit(i)).collect()
    }
    pub fn bv(self, k: usize) -> BitVec {
        BitVec::from_bools(&self.bools(k))
    }
    /// numeric neighbour, wrapping at k bits
    pub fn add(self, d: i64, k: usize) -> Self {
        let mut s = self.0;
        if d >= 0 {
            let (a, c) = s[2].overflowing_add(d as u64);
            s[2] = a;
            let (a, c2) = s[1].overflowing_add(u64::from(c));
            s[1] = a;
            s[0] = s[0].wrapping_add(u64::from(c2));
        } else {
            let (a, c) = s[2].overflowing_sub(d.unsigned_abs());
            s[2] = a;
            let (a, c2) = s[1].overflowing_sub(u64::from(c));
            s[1] = a;
            s[0] = s[0].wrapping_sub(u64::from(c2));
        }
        Sym(s).masked(k)
    }
    pub fn random(r: &Rng, k: usize) -> Self {
        Sym([r.u64(), r.u64(), r.u64()]).masked(k)
    }
}

/// the value of a bit vector of expected width, or None if its width differs
pub fn value(bv: &BitVec, k: usize) -> Option<Sym> {
    if bv.len() != k {
        return None;
    }
    let mut s = Sym([0; 3]);
    for i in 0..k {
        if bv.get(i) == Some(1) {
            s.0[2 - i / 64] |= 1 << (i % 64);
        }
    }
    Some(s)
}

pub fn width(r: &mut Rng) -> usize {
    if cfg!(miri) {
        return r.range(1, 9);
    }
    match r.below(10) {
        0 => 1,
        1 => 64,
        2 => 63,
        3 => r.range(65, 70),
        4 => *r.pick(&[127, 128, 129, 130, 100]),
        5 | 6 => r.range(2, 12),
        7 => r.range(1, 4),
        _ => r.range(1, 64),
    }
}

pub fn symbols(r: &mut Rng, n: usize, k: usize) -> (Vec<Sym>, &'static str) {
    if k <= 64 {
        let (v, s) = gen::symbols(r, n, k);
        return (v.into_iter().map(Sym::small).collect(), s);
    }
    match r.below(4) {
        0 => ((0..n).map(|_| Sym::random(r, k)).collect(), "uniform"),
        1 => {
            let al: Vec<Sym> = (0..1 + r.below(6)).map(|_| Sym::random(r, k)).collect();
            ((0..n).map(|_| *r.pick(&al)).collect(), "few")
        }
        2 => {
            // equal low words, differing above (and the reverse)
            let base = Sym::random(r, k);
            let flip = r.bool();
            let v = (0..n)
                .map(|_| {
                    let x = Sym::random(r, k);
                    let mut y = base;
                    if flip {
                        y.0[2] = x.0[2] & 7;
                    } else {
                        y.0[1] = x.0[1] & 3;
                        y.0[0] = x.0[0] & 1;
                    }
                    y.masked(k)
                })
                .collect();
            (v, "shared-words")
        }
        _ => {
            let base = Sym::random(r, k);
            ((0..n).map(|_| base.add(r.below(9) as i64 - 4, k)).collect(), "adjacent")
        }
    }
}

pub fn packed(r: &mut Rng, v: &[Sym], k: usize) -> BitVec {
    let mut b = Vec::with_capacity(v.len() * k);
    for s in v {
        b.extend(s.bools(k));
    }
    gen::bitvec(r, &b)
}

/// build through one of the constructors usable for this width
pub fn build(r: &mut Rng, v: &[Sym], k: usize) -> (WaveletMatrix, &'static str) {
    let pc_ok = k <= 12;
    let nums = || v.iter().map(|s| s.low()).collect::<Vec<u64>>();
    match r.below(4) {
        0 if k <= 64 => (WaveletMatrix::from_slice(&nums(), k as u16), "from_slice"),
        1 if pc_ok => (WaveletMatrix::from_slice_pc(&nums(), k as u16), "from_slice_pc"),
        2 if pc_ok => {
            let p = packed(r, v, k);
            (WaveletMatrix::from_bit_vec_pc(&p, k as u16), "from_bit_vec_pc")
        }
        _ => {
            let p = packed(r, v, k);
            (WaveletMatrix::from_bit_vec(&p, k as u16), "from_bit_vec")
        }
    }
}

/// a symbol to ask for: stored, next to a stored one, extreme or random
pub fn query_symbol(r: &mut Rng, v: &[Sym], k: usize) -> Sym {
    match r.below(6) {
        0 | 1 | 2 if !v.is_empty() => *r.pick(v),
        3 if !v.is_empty() => r.pick(v).add(if r.bool() { 1 } else { -1 }, k),
        4 => {
            if r.bool() {
                Sym([0; 3])
            } else {
                Sym([u64::MAX; 3]).masked(k)
            }
        }
        5 if !v.is_empty() => {
            // flip one bit of a stored symbol
            let s = *r.pick(v);
            let b = r.below(k);
            let mut t = s;
            t.0[2 - b / 64] ^= 1 << (b % 64);
            t
        }
        _ => Sym::random(r, k),
    }
}

pub fn range(r: &mut Rng, n: usize) -> (usize, usize) {
    range_ref(r, n)
}

pub fn range_ref(r: &Rng, n: usize) -> (usize, usize) {
    // n >= 1; non-empty range
    match r.below(6) {
        0 => (0, n),
        1 => {
            let a = r.below(n);
            (a, a + 1)
        }
        2 => {
            let a = r.below(n);
            (a, n)
        }
        3 => (0, 1 + r.below(n)),
        _ => {
            let a = r.below(n);
            (a, r.range(a + 1, n))
        }
    }
}

/// Symbols far wider than a machine word. The model keeps them as bit strings, most significant bit first, so
/// that the order of the strings is the numeric order.
pub fn hyper(c: &mut crate::Ctx, order: bool) -> crate::R {
    let k = *c.rng.pick(&[193usize, 255, 256, 257, 300, 511, 512, 513, 700, 1023, 1024, 1025, 2048, 4096, 5000]);
    // now and then close to the widest symbols the constructors accept
    let widest = !cfg!(miri) && c.rng.one_in(40);
    let (k, n) = if widest {
        c.hit("symbols of about 2^15 or 2^16 bits");
        (*c.rng.pick(&[32_767usize, 32_768, 32_769, 65_534, 65_535]), c.rng.range(1, 4))
    } else {
        (k, c.rng.range(1, 24))
    };
    let base: Vec<bool> = (0..k).map(|_| c.rng.bool()).collect();
    let style = c.rng.below(4);
    let v: Vec<Vec<bool>> = (0..n)
        .map(|_| match style {
            0 => (0..k).map(|_| c.rng.bool()).collect(),
            1 => base.clone(),
            _ => {
                // differ from the base in a few bits, often the outermost ones
                let mut x = base.clone();
                for _ in 0..1 + c.rng.below(3) {
                    let i = match c.rng.below(4) {
                        0 => c.rng.below(4),
                        1 => k - 1 - c.rng.below(4),
                        2 => (64 * c.rng.below(k / 64 + 1) + c.rng.below(3)).min(k - 1),
                        _ => c.rng.below(k),
                    };
                    x[i] = !x[i];
                }
                x
            }
        })
        .collect();
    let rev = |s: &Vec<bool>| s.iter().rev().copied().collect::<Vec<bool>>();
    let bv = |s: &Vec<bool>| BitVec::from_bools(&rev(s));
    let back = |b: Option<BitVec>| b.map(|b| (0..b.len()).rev().map(|i| b.get(i) == Some(1)).collect::<Vec<bool>>());
    let bits: Vec<bool> = v.iter().flat_map(rev).collect();
    let w = WaveletMatrix::from_bit_vec(&gen::bitvec(&mut c.rng, &bits), k as u16);
    for s in &v {
        c.sig_bits(s);
    }
    c.nontrivial();
    c.hit("symbols wider than 192 bits");
    c.describe(format!("{n} symbols of {k} bits"));
    crate::eq!(c, (w.len(), w.bits_per_element(), w.bit_len() as usize), (n, k, k), "dimensions");
    crate::eq!(c, (w.get_u64(0), w.iter_u64().is_some()), (None, false), "numbers from {k}-bit symbols");
    let mut s = v.clone();
    s.sort();
    let mut asked = v.clone();
    let mut o = base.clone();
    let i = c.rng.below(k);
    o[i] = !o[i];
    asked.push(o);
    asked.push(vec![false; k]);
    asked.push(vec![true; k]);
    for _ in 0..12 {
        let q = c.rng.pick(&asked).clone();
        let b = bv(&q);
        let lo = c.rng.below(n);
        let hi = c.rng.range(lo, n);
        if order {
            let mut t: Vec<Vec<bool>> = v[lo..hi].to_vec();
            t.sort();
            let i = c.rng.below(n);
            crate::ck!(c, back(w.get_sorted(i)) == Some(s[i].clone()), "get_sorted({i}) of {n} symbols of {k} bits");
            let pred = t.iter().rev().find(|x| **x <= q).cloned();
            let succ = t.iter().find(|x| **x >= q).cloned();
            crate::ck!(c, back(w.predecessor(lo..hi, &b)) == pred, "predecessor in {lo}..{hi} of {n} symbols of {k} bits");
            crate::ck!(c, back(w.successor(lo..hi, &b)) == succ, "successor in {lo}..{hi} of {n} symbols of {k} bits");
            if !t.is_empty() {
                let j = c.rng.below(t.len());
                crate::ck!(c, back(w.quantile(lo..hi, j)) == Some(t[j].clone()), "quantile({lo}..{hi},{j}) of {n} symbols of {k} bits");
                crate::ck!(c, back(w.range_min(lo..hi)) == Some(t[0].clone()), "range_min({lo}..{hi}), {k} bits");
                crate::ck!(c, back(w.range_max(lo..hi)) == t.last().cloned(), "range_max({lo}..{hi}), {k} bits");
                crate::ck!(c, back(w.range_median(lo..hi)) == Some(t[(t.len() - 1) / 2].clone()), "range_median({lo}..{hi}), {k} bits");
            }
        } else {
            let i = c.rng.below(n);
            crate::ck!(c, back(w.get_value(i)) == Some(v[i].clone()), "get_value({i}) of {n} symbols of {k} bits");
            crate::ck!(c, w.iter().nth(i) == w.get_value(i), "iter().nth({i}) of {n} symbols of {k} bits");
            let cnt = |r: std::ops::Range<usize>| v[r].iter().filter(|x| **x == q).count();
            crate::eq!(c, w.rank(hi, &b), Some(cnt(0..hi)), "rank({hi}) of {n} symbols of {k} bits");
            crate::eq!(c, w.rank_range(lo..hi, &b), Some(cnt(lo..hi)), "rank_range({lo}..{hi}) of {n} symbols of {k} bits");
            let r = c.rng.below(4);
            let want = (0..n).filter(|&i| v[i] == q).nth(r);
            crate::eq!(c, w.select(r, &b), want, "select({r}) of {n} symbols of {k} bits");
            let want = (lo..n).filter(|&i| v[i] == q).nth(r);
            crate::eq!(c, w.select_offset(lo, r, &b), want, "select_offset({lo},{r}) of {n} symbols of {k} bits");
        }
    }
    Ok(())
}

/// one-bit symbols, more than 2^32 of them: positions, ranks and offsets that do not fit 32 bits.
/// `part` 0: access, rank and select; 1: order statistics and neighbours; 2: all forms against each other
pub fn colossal(c: &mut crate::Ctx, part: u32) -> crate::R {
    let major = c.rng.bool();
    let len = (1usize << 32) + (1 << 22) + c.rng.below(1 << 22);
    // the rare symbol in a few short runs: the frequent one alone exceeds 2^32
    let mut at: Vec<usize> = (0..5).map(|_| c.rng.below(len - 200_000)).collect();
    at.push((1 << 32) - c.rng.below(1000));
    at.push(len - 100_000 + c.rng.below(50_000));
    at.sort_unstable();
    let mut runs = vec![(0, major)];
    let mut p = 1;
    for a in at {
        let a = a.max(p);
        runs.push((a, !major));
        p = a + 1 + c.rng.below(40_000);
        runs.push((p, major));
        p += 1;
    }
    let r = crate::big::Runs { runs, len };
    let w = WaveletMatrix::from_bit_vec_pc(&r.build(), 1);
    c.hit("matrices of more than 2^32 symbols");
    c.sig(len as u64);
    c.nontrivial();
    c.describe(format!("{len} one-bit symbols in {} runs", r.runs.len()));
    crate::eq!(c, (w.len(), w.bits_per_element()), (len, 1), "dimensions");
    let sym = [BitVec::from_zeros(1), BitVec::from_ones(1)];
    let num = |b: Option<BitVec>| b.map(|b| u64::from(b.get(0) == Some(1)) | ((b.len() as u64) ^ 1) << 8);
    let mut pos = r.borders();
    for _ in 0..600 {
        pos.push(c.rng.below(len + 1));
    }
    for i in 0..pos.len() {
        let (x, y) = (pos[i], pos[c.rng.below(pos.len())]);
        let (a, b) = (x.min(y), x.max(y));
        if a == b || a >= len {
            continue;
        }
        let cnt = |s: usize, p: usize| r.rank(s == 1, p);
        let ones = cnt(1, b) - cnt(1, a);
        let zeros = b - a - ones;
        if part != 1 {
            let g = u64::from(r.get(a));
            crate::eq!(c, (w.get_u64(a), num(w.get_value(a)), w.get_u64_unchecked(a)), (Some(g), Some(g), g), "symbol {a} of {len}");
            for s in 0..2usize {
                let (u, v) = (s as u64, &sym[s]);
                let n = if s == 1 { ones } else { zeros };
                crate::eq!(c, (w.rank_range_u64(a..b, u), w.rank_range(a..b, v)), (Some(n), Some(n)), "rank_range({a}..{b}, {s}) of {len}");
                crate::eq!(c, (w.rank_u64(b, u), w.rank(b, v)), (Some(cnt(s, b)), Some(cnt(s, b))), "rank({b}, {s}) of {len}");
                crate::eq!(c, (w.rank_offset_u64(a, b, u), w.rank_offset(a, b, v)), (Some(n), Some(n)), "rank_offset({a}, {b}, {s}) of {len}");
                let total = cnt(s, len);
                for k in [0, n.saturating_sub(1), n, total.saturating_sub(1 + cnt(s, a)), cnt(s, a), total - 1, total] {
                    let at = r.select(s == 1, k);
                    let want = (at < len).then_some(at);
                    crate::eq!(c, (w.select_u64(k, u), w.select(k, v)), (want, want), "select({k}, {s}) of {len}");
                    let at = r.select(s == 1, k + cnt(s, a));
                    let want = (at < len).then_some(at);
                    crate::eq!(c, (w.select_offset_u64(a, k, u), w.select_offset(a, k, v)), (want, want), "select_offset({a}, {k}, {s}) of {len}");
                    if part == 2 {
                        if let Some(x) = want {
                            crate::eq!(c, (w.select_offset_u64_unchecked(a, k, u), w.select_offset_unchecked(a, k, v)), (x, x), "select_offset_unchecked({a}, {k}, {s}) of {len}");
                        }
                    }
                }
                if part == 2 {
                    crate::eq!(c, (w.rank_range_u64_unchecked(a..b, u), w.rank_range_unchecked(a..b, v), w.rank_offset_u64_unchecked(a, b, u), w.rank_offset_unchecked(a, b, v)), (n, n, n, n), "unchecked rank of {s} in {a}..{b} of {len}");
                }
            }
        }
        if part != 0 {
            for k in [0, zeros.saturating_sub(1), zeros, b - a - 1, (b - a) / 2] {
                let want = (k < b - a).then_some(u64::from(k >= zeros));
                crate::eq!(c, (w.quantile_u64(a..b, k), num(w.quantile(a..b, k))), (want, want), "quantile({a}..{b}, {k}) of {len}");
                if let (2, Some(q)) = (part, want) {
                    crate::eq!(c, (w.quantile_u64_unchecked(a..b, k), num(Some(w.quantile_unchecked(a..b, k)))), (q, Some(q)), "quantile_unchecked({a}..{b}, {k}) of {len}");
                }
            }
            let (lo, hi, med) = (u64::from(zeros == 0), u64::from(ones > 0), u64::from((b - a - 1) / 2 >= zeros));
            crate::eq!(c, (w.range_min_u64(a..b), num(w.range_min(a..b))), (Some(lo), Some(lo)), "range_min({a}..{b}) of {len}");
            crate::eq!(c, (w.range_max_u64(a..b), num(w.range_max(a..b))), (Some(hi), Some(hi)), "range_max({a}..{b}) of {len}");
            crate::eq!(c, (w.range_median_u64(a..b), num(w.range_median(a..b))), (Some(med), Some(med)), "range_median({a}..{b}) of {len}");
            let so = u64::from(a >= cnt(0, len));
            crate::eq!(c, (w.get_sorted_u64(a), num(w.get_sorted(a))), (Some(so), Some(so)), "get_sorted({a}) of {len}");
            for s in 0..2u64 {
                let pre = if s == 1 && ones > 0 { Some(1) } else { (zeros > 0).then_some(0) };
                let suc = if s == 0 && zeros > 0 { Some(0) } else { (ones > 0).then_some(1) };
                let v = &sym[s as usize];
                crate::eq!(c, (w.predecessor_u64(a..b, s), num(w.predecessor(a..b, v))), (pre, pre), "predecessor({a}..{b}, {s}) of {len}");
                crate::eq!(c, (w.successor_u64(a..b, s), num(w.successor(a..b, v))), (suc, suc), "successor({a}..{b}, {s}) of {len}");
            }
        }
    }
    Ok(())
}

/// two-bit symbols, more than 2^32 of them, in a few runs: the counters of the construction do not fit 32 bits either
pub fn colossal_pairs(c: &mut crate::Ctx) -> crate::R {
    // the construction takes most of a minute: the builds without assertions do it
    if cfg!(debug_assertions) {
        c.describe("left to another build".to_string());
        return Ok(());
    }
    let len = (1usize << 32) + (1 << 22) + c.rng.below(1 << 22);
    let major = c.rng.below(4) as u64;
    let mut segs: Vec<(usize, u64)> = vec![(0, (major + 1) % 4)];
    let mut p = 1 + c.rng.below(500_000);
    let cuts = [1 + c.rng.below(1 << 20), (1 << 20) + c.rng.below(1 << 31), len - 150_000 - c.rng.below(300_000)];
    for x in cuts {
        segs.push((p, major));
        p = p.max(x) + 1;
        for _ in 0..3 {
            segs.push((p, c.rng.below(4) as u64));
            p += 1 + c.rng.below(30_000);
        }
    }
    segs.push((p, major));
    let end = |i: usize| segs.get(i + 1).map_or(len, |s| s.0);
    let mut limbs = vec![0u64; len.div_ceil(32)];
    for (i, s) in segs.iter().enumerate() {
        let (a, b) = (s.0, end(i));
        let word = s.1 * 0x5555_5555_5555_5555;
        let mut x = a;
        while x < b {
            if x % 32 == 0 && b - x >= 32 {
                limbs[x / 32..b / 32].fill(word);
                x = b / 32 * 32;
            } else {
                limbs[x / 32] |= s.1 << (2 * (x % 32));
                x += 1;
            }
        }
    }
    let mut bits = BitVec::from_vec(limbs);
    bits.drop_last(bits.len() - 2 * len);
    let w = WaveletMatrix::from_bit_vec_pc(&bits, 2);
    drop(bits);
    c.hit("matrices of more than 2^32 symbols");
    c.sig(len as u64);
    c.nontrivial();
    c.describe(format!("{len} two-bit symbols in {} runs", segs.len()));
    crate::eq!(c, (w.len(), w.bits_per_element()), (len, 2), "dimensions");
    let sym: Vec<BitVec> = (0..4u64).map(|s| BitVec::from_bools(&[s & 1 == 1, s & 2 == 2])).collect();
    let num = |b: BitVec| if b.len() == 2 { b.get_bits(0, 2).unwrap() } else { 99 };
    let cnt = |s: u64, p: usize| segs.iter().enumerate().filter(|(_, g)| g.1 == s).map(|(i, g)| end(i).min(p) - g.0.min(p)).sum::<usize>();
    let sel = |s: u64, k: usize| {
        let mut left = k;
        for (i, g) in segs.iter().enumerate() {
            if g.1 == s {
                if left < end(i) - g.0 {
                    return Some(g.0 + left);
                }
                left -= end(i) - g.0;
            }
        }
        None
    };
    let mut pos = vec![0, 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, len - 1, len];
    for (i, g) in segs.iter().enumerate() {
        pos.extend([g.0, g.0.saturating_sub(1), g.0 + 1, (g.0 + end(i)) / 2]);
    }
    for _ in 0..200 {
        pos.push(c.rng.below(len + 1));
    }
    for i in 0..pos.len() {
        let (x, y) = (pos[i], pos[c.rng.below(pos.len())]);
        let (a, b) = (x.min(y), x.max(y));
        if a == b || b > len {
            continue;
        }
        let g = segs[segs.partition_point(|s| s.0 <= a) - 1].1;
        crate::eq!(c, (w.get_u64(a), w.get_value(a).map(num), w.get_u64_unchecked(a)), (Some(g), Some(g), g), "symbol {a} of {len}");
        let inside: Vec<usize> = (0..4).map(|s| cnt(s, b) - cnt(s, a)).collect();
        for s in 0..4u64 {
            let v = &sym[s as usize];
            let n = inside[s as usize];
            crate::eq!(c, (w.rank_range_u64(a..b, s), w.rank_range(a..b, v), w.rank_offset_u64(a, b, s), w.rank_offset_unchecked(a, b, v)), (Some(n), Some(n), Some(n), n), "rank of {s} in {a}..{b} of {len}");
            let before = cnt(s, a);
            for k in [0, n.saturating_sub(1), n, cnt(s, len).saturating_sub(before + 1)] {
                let want = sel(s, before + k);
                crate::eq!(c, (w.select_offset_u64(a, k, s), w.select_offset(a, k, v), w.select_u64(before + k, s), w.select(before + k, v)), (want, want, want, want), "occurrence {k} of {s} from {a} of {len}");
            }
        }
        let mut below = 0;
        for s in 0..4u64 {
            let n = inside[s as usize];
            if n > 0 {
                for k in [below, below + n - 1, below + n / 2] {
                    crate::eq!(c, (w.quantile_u64(a..b, k), w.quantile(a..b, k).map(num), w.quantile_u64_unchecked(a..b, k)), (Some(s), Some(s), s), "quantile({a}..{b}, {k}) of {len}");
                }
            }
            below += n;
        }
    }
    Ok(())
}
