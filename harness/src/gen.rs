//! Workload generators. They aim at word/block/super-block/select-block borders, extreme densities, long runs,
//! dirty padding and extreme argument values.
use crate::rng::Rng;
use vers_vecs::BitVec;

pub const WORD: usize = 64;
pub const BLOCK: usize = 512;
pub const SUPER: usize = 8192;

/// A vector length: tiny, near a structural border, or uniform up to `max`.
pub fn len(r: &mut Rng, max: usize) -> usize {
    let l = match r.below(9) {
        0 => r.below(140),
        1 => {
            if r.one_in(3) {
                r.below(5)
            } else {
                r.below(max + 1)
            }
        }
        2 => near(r, WORD, max),
        3 => near(r, BLOCK, max),
        4 if max >= SUPER => near(r, SUPER, max),
        5 if max >= 65536 => near(r, 65536, max),
        6 => r.log_u64(usize::BITS - max.leading_zeros()) as usize,
        _ => r.below(max + 1),
    };
    l.min(max)
}

/// a multiple of `unit` (at most about max) plus or minus a few
pub fn near(r: &mut Rng, unit: usize, max: usize) -> usize {
    let k = max / unit;
    let m = if k == 0 || r.one_in(12) { 0 } else { r.range(1, k.min(1 + r.log_u64(16) as usize)) };
    let base = m * unit;
    match r.below(5) {
        0 => base,
        1 => base + 1,
        2 => base.saturating_sub(1),
        3 => base + r.below(4),
        _ => base.saturating_sub(r.below(4)),
    }
}

pub fn density(r: &mut Rng) -> f64 {
    *r.pick(&[0.5, 0.5, 0.1, 0.9, 0.01, 0.99, 0.001, 0.999, 0.0001, 0.9999, 0.25, 0.75])
}

fn fill_density(r: &mut Rng, v: &mut [bool], p: f64) {
    if p == 0.5 {
        for c in v.chunks_mut(64) {
            let mut w = r.u64();
            for b in c {
                *b = w & 1 == 1;
                w >>= 1;
            }
        }
    } else {
        for b in v.iter_mut() {
            *b = r.chance(p);
        }
    }
}

/// A bit sequence of the given length in one of many styles; returns a style label.
pub fn bits(r: &mut Rng, n: usize) -> (Vec<bool>, &'static str) {
    let mut v = vec![false; n];
    let style = r.below(14);
    let label = match style {
        0 => "zeros",
        1 => {
            v.fill(true);
            "ones"
        }
        2..=5 => {
            let p = density(r);
            fill_density(r, &mut v, p);
            "density"
        }
        6 | 7 => {
            // runs with a typical length
            let m = *r.pick(&[2usize, 7, 30, 300, 700, 3000, 9000, 20000]);
            let (ma, mb) = (m, if r.bool() { m } else { *r.pick(&[1usize, 5, 600, 10000]) });
            let mut i = 0;
            let mut b = r.bool();
            while i < n {
                let l = 1 + r.below(2 * if b { ma } else { mb });
                let e = (i + l).min(n);
                v[i..e].fill(b);
                i = e;
                b = !b;
            }
            "runs"
        }
        8 => {
            let p = 1 + r.below(*r.pick(&[3usize, 10, 70, 600, 9000]));
            let ph = r.below(p);
            for (i, b) in v.iter_mut().enumerate() {
                *b = i % p == ph;
            }
            if r.bool() {
                for b in &mut v {
                    *b = !*b;
                }
            }
            "periodic"
        }
        9 | 10 => {
            // every block of some unit has its own character
            let unit = *r.pick(&[64usize, 512, 8192, 1024, 16384, 4096]);
            let mode = r.below(4);
            for c in v.chunks_mut(unit) {
                match (mode, r.below(6)) {
                    (_, 0) | (1, _) if mode == 1 && r.bool() => c.fill(true),
                    (_, 0) => c.fill(true),
                    (_, 1) => {}
                    (2, _) => {
                        let k = r.below(c.len());
                        c[k] = true;
                    }
                    (3, _) => {
                        c.fill(true);
                        let k = r.below(c.len());
                        c[k] = false;
                    }
                    _ => {
                        let p = density(r);
                        fill_density(r, c, p);
                    }
                }
            }
            "blocks"
        }
        11 => {
            // few odd bits at structural borders
            let inv = r.bool();
            v.fill(inv);
            for _ in 0..1 + r.below(8) {
                if n == 0 {
                    break;
                }
                let unit = *r.pick(&[1usize, 64, 512, 8192, 65536]);
                let p = near(r, unit, n).min(n - 1);
                v[p] = !inv;
            }
            "borders"
        }
        12 => {
            // two halves of opposite character
            let cut = if n == 0 { 0 } else { r.below(n + 1) };
            let (p, q) = (density(r), density(r));
            fill_density(r, &mut v[..cut], p);
            fill_density(r, &mut v[cut..], q);
            "halves"
        }
        _ => {
            // only the first / last bit
            if n > 0 {
                if r.bool() {
                    v[n - 1] = true;
                }
                if r.bool() {
                    v[0] = true;
                }
                if r.bool() {
                    for b in &mut v {
                        *b = !*b;
                    }
                }
            }
            "ends"
        }
    };
    (v, label)
}

pub fn to_limbs(bits: &[bool]) -> Vec<u64> {
    bits.chunks(64)
        .map(|c| c.iter().enumerate().fold(0u64, |w, (i, &b)| w | (u64::from(b) << i)))
        .collect()
}

/// garbage above the low `len` bits
pub fn dirty(r: &mut Rng, w: u64, len: usize) -> u64 {
    if len >= 64 {
        w
    } else {
        let g = match r.below(3) {
            0 => u64::MAX,
            1 => r.u64(),
            _ => 0,
        };
        (w & ((1u64 << len) - 1)) | (g << len)
    }
}

/// Build a BitVec with the given bits through a random construction history. The padding of the last limb may be dirty.
pub fn bitvec(r: &mut Rng, bits: &[bool]) -> BitVec {
    let n = bits.len();
    let limbs = to_limbs(bits);
    match r.below(if n > 20_000 { 4 } else { 8 }) {
        0 | 1 => {
            // limbs, dropping dirty bits at the end
            let mut l = limbs;
            let extra = if n % 64 == 0 { if r.bool() { 0 } else { 64 } } else { 64 - n % 64 };
            if n % 64 != 0 {
                let k = l.len() - 1;
                l[k] = dirty(r, l[k], n % 64);
            } else if extra == 64 {
                l.push(r.u64());
            }
            let mut bv = BitVec::from_limbs(&l);
            bv.drop_last(extra);
            bv
        }
        2 => {
            // clean: whole words then the partial word
            let mut bv = BitVec::with_capacity(n);
            for (i, w) in limbs.iter().enumerate() {
                let l = (n - i * 64).min(64);
                bv.append_bits(*w, l);
            }
            bv
        }
        3 => {
            // words, last one appended with garbage
            let mut bv = BitVec::new();
            for (i, w) in limbs.iter().enumerate() {
                let l = (n - i * 64).min(64);
                let w = dirty(r, *w, l);
                bv.append_bits(w, l);
            }
            bv
        }
        4 => {
            let mut bv = BitVec::new();
            for &b in bits {
                bv.append(b);
            }
            bv
        }
        5 => {
            // odd sized chunks with garbage and overshoot
            let mut bv = BitVec::new();
            let mut i = 0;
            while i < n {
                let l = r.range(1, 64).min(n - i);
                let mut w = 0u64;
                for k in 0..l {
                    w |= u64::from(bits[i + k]) << k;
                }
                let w = dirty(r, w, l);
                bv.append_bits(w, l);
                i += l;
                if r.one_in(8) {
                    let g = r.range(1, 64);
                    bv.append_bits(u64::MAX, g);
                    bv.drop_last(g);
                }
            }
            bv
        }
        6 => {
            let cut = if n == 0 { 0 } else { r.below(n + 1) };
            let mut a = BitVec::from_bools(&bits[..cut]);
            let b = BitVec::from_bools(&bits[cut..]);
            a.extend_bitvec(&b);
            a
        }
        _ => {
            let g = r.below(130);
            let mut all = bits.to_vec();
            all.extend((0..g).map(|_| true));
            let bv = BitVec::from_bools(&all);
            let (l, _) = bv.split_at_unchecked(n);
            l
        }
    }
}

/// query positions: structural borders, ends, random
pub fn positions(r: &mut Rng, n: usize, count: usize) -> Vec<usize> {
    let mut q = vec![0, 1, n.saturating_sub(1), n, n / 2];
    for _ in 0..count {
        let p = match r.below(5) {
            0 => near(r, 64, n),
            1 => near(r, 512, n),
            2 => near(r, 8192, n),
            _ => {
                if n == 0 {
                    0
                } else {
                    r.below(n)
                }
            }
        };
        q.push(p.min(n));
    }
    q.iter_mut().for_each(|p| *p = (*p).min(n));
    q
}

/// A length beyond 2^16 at which every single position can still be queried.
pub fn dense(r: &mut Rng) -> usize {
    if cfg!(miri) {
        r.range(200, 400)
    } else {
        66_000 + r.below(70_000)
    }
}

/// hostile argument values
pub fn hostile(r: &mut Rng, n: usize) -> usize {
    match r.below(8) {
        0 => usize::MAX,
        1 => usize::MAX - r.below(130),
        2 => usize::MAX / 2 + r.below(3),
        3 => n,
        4 => n.saturating_add(1 + r.below(130)),
        5 => r.log_u64(64) as usize,
        6 => (1usize << 63) - r.below(2),
        _ => r.below(n.saturating_add(2)),
    }
}

/// A sorted (non-decreasing) sequence of u64 in one of many styles.
pub fn sorted(r: &mut Rng, max_n: usize) -> (Vec<u64>, &'static str) {
    let n = match r.below(6) {
        0 => r.below(4),
        1 => r.below(20),
        2 => r.below(200).min(max_n),
        _ => r.below(max_n + 1),
    };
    sorted_about(r, n)
}

/// A sorted sequence of exactly `n` elements.
pub fn sorted_exact(r: &mut Rng, n: usize) -> (Vec<u64>, &'static str) {
    let (mut v, label) = sorted_about(r, n);
    while v.len() > n {
        v.remove(v.len() / 2);
    }
    (v, label)
}

/// Number of lengths in a sweep: every small length, then the lengths around powers of two and a few multiples of
/// the super-block size.
pub const SWEEP: u64 = 1100 + 24 + 6;

/// The `idx`-th length of a sweep (see [`SWEEP`]); later rounds repeat the sweep.
pub fn sweep(idx: u64) -> usize {
    let i = (idx % SWEEP) as usize;
    match i {
        0..1100 => i,
        1100..1124 => (1usize << (10 + (i - 1100) / 3)) + (i - 1100) % 3 - 1,
        _ => [3 * 512, 3 * 1024, 3 * 8192, 5 * 8192, 9 * 8192 + 1, 11 * 8192 - 1][i - 1124],
    }
}

/// a sorted sequence of `n` elements, or of a few more in some styles
fn sorted_about(r: &mut Rng, n: usize) -> (Vec<u64>, &'static str) {
    let offset = match r.below(5) {
        0 | 1 => 0,
        2 => r.below64(1000),
        3 => r.log_u64(64),
        _ => u64::MAX,
    };
    let (mut v, label): (Vec<u64>, &'static str) = match r.below(9) {
        0 => {
            let m = 1 + r.log_u64(63);
            ((0..n).map(|_| r.below64(m)).collect(), "uniform")
        }
        1 => {
            // dense with many duplicates
            let m = 1 + (n as u64) / (1 + r.below64(8));
            ((0..n).map(|_| r.below64(m.max(1))).collect(), "dups")
        }
        2 => (vec![r.log_u64(63); n], "constant"),
        3 => {
            // dense cluster plus a few far outliers: long blocks of equal upper part
            let m = 1 + (n as u64) * (1 + r.below64(3));
            let mut v: Vec<u64> = (0..n).map(|_| r.below64(m)).collect();
            for _ in 0..1 + r.below(4) {
                v.push(m + r.log_u64(r.clone().range(10, 62) as u32));
            }
            (v, "cluster-low")
        }
        4 => {
            // outliers low, dense cluster high
            let top = 1u64 << r.range(10, 62);
            let m = 1 + (n as u64) * (1 + r.below64(3));
            let mut v: Vec<u64> = (0..n).map(|_| top + r.below64(m)).collect();
            for _ in 0..1 + r.below(4) {
                v.push(r.below64(top));
            }
            (v, "cluster-high")
        }
        5 => {
            // several clusters
            let k = 1 + r.below(12);
            let hi = 1u64 << r.range(6, 62);
            let centers: Vec<u64> = (0..k).map(|_| r.below64(hi)).collect();
            let w = 1 + r.log_u64(12);
            ((0..n).map(|_| *r.pick(&centers) + r.below64(w)).collect(), "clusters")
        }
        6 => {
            // arithmetic progression with jitter
            let step = 1 + r.log_u64(20);
            ((0..n).map(|i| i as u64 * step + r.below64(step)).collect(), "progression")
        }
        7 => {
            // consecutive numbers, optionally with runs of duplicates
            let d = 1 + r.below64(5);
            ((0..n).map(|i| i as u64 / d).collect(), "consecutive")
        }
        _ => {
            // geometric gaps
            let mut x = 0u64;
            (
                (0..n)
                    .map(|_| {
                        x = x.saturating_add(r.log_u64(40)).min(1 << 62);
                        x
                    })
                    .collect(),
                "geometric",
            )
        }
    };
    v.sort_unstable();
    // shift so that the maximum may sit at u64::MAX
    if let Some(&mx) = v.last() {
        let off = offset.min(u64::MAX - mx);
        for x in &mut v {
            *x += off;
        }
        if r.one_in(12) {
            // full universe
            let k = v.len();
            v[0] = 0;
            v[k - 1] = u64::MAX;
        }
    }
    (v, label)
}

/// query values around the elements of a sorted sequence
pub fn values(r: &mut Rng, v: &[u64], count: usize) -> Vec<u64> {
    let mut q = vec![0, 1, u64::MAX, u64::MAX - 1];
    if let (Some(&a), Some(&b)) = (v.first(), v.last()) {
        for x in [a, b] {
            q.push(x);
            q.push(x.saturating_sub(1));
            q.push(x.saturating_add(1));
        }
        for _ in 0..count {
            match r.below(4) {
                0 => q.push(*r.pick(v)),
                1 => {
                    let x = *r.pick(v);
                    q.push(x.saturating_add(1 + r.below64(3)));
                }
                2 => {
                    let x = *r.pick(v);
                    q.push(x.saturating_sub(1 + r.below64(3)));
                }
                _ => q.push(r.range64(a, b)),
            }
        }
    } else {
        for _ in 0..count.min(10) {
            q.push(r.log_u64(64));
        }
    }
    q
}

/// A random ordered tree as a balanced parenthesis sequence with a single root (n >= 1 nodes).
pub fn tree(r: &mut Rng, n: usize) -> (Vec<bool>, &'static str) {
    let mut p = Vec::with_capacity(2 * n);
    let label;
    match r.below(9) {
        0 => {
            p.extend(std::iter::repeat(true).take(n));
            p.extend(std::iter::repeat(false).take(n));
            label = "path";
        }
        1 => {
            p.push(true);
            for _ in 1..n {
                p.push(true);
                p.push(false);
            }
            p.push(false);
            label = "star";
        }
        2 => {
            // caterpillar: spine with leaves before or after
            let mut left = n;
            let mut depth = 0;
            while left > 0 {
                p.push(true);
                depth += 1;
                left -= 1;
                let k = r.below(4).min(left);
                for _ in 0..k {
                    p.push(true);
                    p.push(false);
                }
                left -= k;
            }
            p.extend(std::iter::repeat(false).take(depth));
            label = "caterpillar";
        }
        3 => {
            // teeth: root with deep paths
            p.push(true);
            let mut left = n - 1;
            while left > 0 {
                let k = (1 + r.below(1 + r.below(600))).min(left);
                p.extend(std::iter::repeat(true).take(k));
                p.extend(std::iter::repeat(false).take(k));
                left -= k;
            }
            p.push(false);
            label = "teeth";
        }
        4 | 5 => {
            // random walk with bias
            let bias = *r.pick(&[0.5, 0.5, 0.55, 0.7, 0.9, 0.3]);
            p.push(true);
            let (mut opened, mut depth) = (1, 1);
            while opened < n {
                if depth == 1 || r.chance(bias) {
                    p.push(true);
                    opened += 1;
                    depth += 1;
                } else {
                    p.push(false);
                    depth -= 1;
                }
            }
            p.extend(std::iter::repeat(false).take(depth));
            label = "walk";
        }
        6 => {
            // long monotone phases: zigzag
            p.push(true);
            let (mut opened, mut depth) = (1, 1usize);
            while opened < n {
                let up = (1 + r.below(1200)).min(n - opened);
                p.extend(std::iter::repeat(true).take(up));
                opened += up;
                depth += up;
                let down = r.below(depth);
                p.extend(std::iter::repeat(false).take(down));
                depth -= down;
            }
            p.extend(std::iter::repeat(false).take(depth));
            label = "zigzag";
        }
        7 => {
            // uniform random parent = recent node (random recursive-ish), via recursion on sizes
            fn rec(r: &mut Rng, n: usize, p: &mut Vec<bool>, d: usize) {
                p.push(true);
                let mut left = n - 1;
                while left > 0 {
                    let k = if d > 500 { 1 } else { 1 + r.below(left) };
                    rec(r, k, p, d + 1);
                    left -= k;
                }
                p.push(false);
            }
            rec(r, n, &mut p, 0);
            label = "random";
        }
        _ => {
            // complete k-ary in preorder by depth
            let k = 2 + r.below(6);
            fn rec(n: &mut usize, k: usize, depth: usize, p: &mut Vec<bool>) {
                p.push(true);
                *n -= 1;
                if depth > 0 {
                    for _ in 0..k {
                        if *n == 0 {
                            break;
                        }
                        rec(n, k, depth - 1, p);
                    }
                }
                p.push(false);
            }
            let mut left = n - 1;
            p.push(true);
            while left > 0 {
                rec(&mut left, k, 3 + r.below(6), &mut p);
            }
            p.push(false);
            label = "kary";
        }
    }
    (p, label)
}

/// A sequence of k-bit symbols (k <= 64) in one of several styles.
pub fn symbols(r: &mut Rng, n: usize, k: usize) -> (Vec<u64>, &'static str) {
    let mask = if k >= 64 { u64::MAX } else { (1u64 << k) - 1 };
    match r.below(7) {
        0 => ((0..n).map(|_| r.u64() & mask).collect(), "uniform"),
        1 => {
            let s = r.u64() & mask;
            (vec![s; n], "constant")
        }
        2 => {
            let c = 1 + r.below(6);
            let al: Vec<u64> = (0..c).map(|_| r.u64() & mask).collect();
            ((0..n).map(|_| *r.pick(&al)).collect(), "few")
        }
        3 => {
            let base = r.u64() & mask;
            ((0..n).map(|_| base.wrapping_add(r.below64(9)).wrapping_sub(4) & mask).collect(), "adjacent")
        }
        4 => ((0..n).map(|i| i as u64 & mask).collect(), "counting"),
        5 => ((0..n).map(|_| if r.one_in(50) { r.u64() & mask } else if r.bool() { 0 } else { mask }).collect(), "extremes"),
        _ => {
            // skewed
            ((0..n).map(|_| r.log_u64(k as u32) & mask).collect(), "skewed")
        }
    }
}
