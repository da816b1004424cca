//! C04: masks combine two vectors bit by bit, lazily and in place.
use vers_vecs::BitVec;
use vh::model::*;
use vh::*;

type Op = (&'static str, fn(bool, bool) -> bool, fn(u64, u64) -> u64);
const OPS: [Op; 9] = [
    ("and", |a, b| a & b, |a, b| a & b),
    ("or", |a, b| a | b, |a, b| a | b),
    ("xor", |a, b| a ^ b, |a, b| a ^ b),
    ("nand", |a, b| !(a & b), |a, b| !(a & b)),
    ("andnot", |a, b| a & !b, |a, b| a & !b),
    ("ornot", |a, b| a | !b, |a, b| a | !b),
    ("first", |a, _| a, |a, _| a),
    ("second", |_, b| b, |_, b| b),
    ("ones", |_, _| true, |_, _| u64::MAX),
];

fn view<F: Fn(u64, u64) -> u64>(c: &mut Ctx, what: &str, v: &vers_vecs::bit_vec::mask::MaskedBitVec<F>, m: &[bool]) -> R {
    let n = m.len();
    for (i, &b) in m.iter().enumerate() {
        let g = (v.get(i), v.get_unchecked(i), v.is_bit_set(i), v.is_bit_set_unchecked(i));
        let w = (Some(u64::from(b)), u64::from(b), Some(b), b);
        if g != w {
            return Err(format!("{what}: bit {i} of {n}: got {g:?}, expected {w:?}"));
        }
    }
    c.n(4 * n as u64);
    eq!(c, (v.get(n), v.is_bit_set(n)), (None, None), "{what}: read at the end");
    let ones = m.iter().filter(|&&b| b).count() as u64;
    eq!(c, v.count_ones(), ones, "{what}: count_ones of {n} bits");
    eq!(c, v.count_zeros(), n as u64 - ones, "{what}: count_zeros of {n} bits");
    let reads = 40;
    for _ in 0..reads {
        if n == 0 {
            break;
        }
        let w = read_width(c).max(1).min(n);
        let p = read_pos(c, n, w);
        let e = window(m, p, w);
        eq!(c, v.get_bits(p, w), Some(e), "{what}: get_bits({p},{w}) of {n} bits");
        eq!(c, v.get_bits_unchecked(p, w), e, "{what}: get_bits_unchecked({p},{w}) of {n} bits");
        eq!(c, v.get_bits(n - w + 1, w), None, "{what}: get_bits reaching past the end");
    }
    c.hit_n("masked multi-bit reads", reads);
    let t = v.to_bit_vec();
    observe_bitvec(c, &t, m, 6).map_err(|e| format!("{what}: to_bit_vec: {e}"))?;
    let mut t2 = t.clone();
    t2.append(true);
    let mut m2 = m.to_vec();
    m2.push(true);
    observe_bitvec(c, &t2, &m2, 2).map_err(|e| format!("{what}: append to to_bit_vec: {e}"))?;
    Ok(())
}

fn equal_lengths(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 1200);
    of_length(c, n)
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    c.hit("lengths swept");
    of_length(c, gen::sweep(c.idx))
}

fn of_length(c: &mut Ctx, n: usize) -> R {
    let (ma, sa) = gen::bits(&mut c.rng, n);
    let (mb, sb) = gen::bits(&mut c.rng, n);
    let a = gen::bitvec(&mut c.rng, &ma);
    let b = gen::bitvec(&mut c.rng, &mb);
    let k = (c.idx % 9) as usize;
    let (name, f, g) = OPS[k];
    let want: Vec<bool> = ma.iter().zip(&mb).map(|(&x, &y)| f(x, y)).collect();
    match name {
        "and" => view(c, "mask_and", &a.mask_and(&b)?, &want)?,
        "or" => view(c, "mask_or", &a.mask_or(&b)?, &want)?,
        "xor" => view(c, "mask_xor", &a.mask_xor(&b)?, &want)?,
        _ => {}
    }
    view(c, &format!("mask_custom({name})"), &a.mask_custom(&b, g)?, &want)?;
    view(c, &format!("mask_custom({name}), cloned view"), &a.mask_custom(&b, g)?.clone(), &want)?;
    // in place
    let mut v = a.clone();
    v.apply_mask_custom(&b, g)?;
    observe_bitvec(c, &v, &want, 6).map_err(|e| format!("apply_mask_custom({name}): {e}"))?;
    let mut v = a.clone();
    match name {
        "and" => v.apply_mask_and(&b)?,
        "or" => v.apply_mask_or(&b)?,
        "xor" => v.apply_mask_xor(&b)?,
        _ => v.apply_mask_custom(&b, g)?,
    }
    observe_bitvec(c, &v, &want, 6).map_err(|e| format!("apply_mask_{name}: {e}"))?;
    // operands are unchanged by the view, result keeps behaving as a bit vector
    observe_bitvec(c, &a, &ma, 2).map_err(|e| format!("first operand changed: {e}"))?;
    observe_bitvec(c, &b, &mb, 2).map_err(|e| format!("mask operand changed: {e}"))?;
    let mut want = want;
    let w = c.rng.u64();
    let l = c.rng.below(65);
    v.append_bits(w, l);
    want.extend(bits_of(w, l));
    observe_bitvec(c, &v, &want, 4).map_err(|e| format!("append after apply_mask_{name}: {e}"))?;
    c.hit(name);
    c.sig(k as u64);
    c.sig_bits(&ma);
    c.sig_bits(&mb);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{name} of two {n}-bit vectors ({sa}, {sb})"));
    Ok(())
}

fn different_lengths(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 600);
    let d = match c.rng.below(3) {
        0 => 1,
        1 => 64,
        _ => c.rng.range(1, 200),
    };
    let (n, m) = if c.rng.bool() { (n, n + d) } else { (n + d, n) };
    let (ma, _) = gen::bits(&mut c.rng, n);
    let (mb, _) = gen::bits(&mut c.rng, m);
    let mut a = gen::bitvec(&mut c.rng, &ma);
    let b = gen::bitvec(&mut c.rng, &mb);
    let f: fn(u64, u64) -> u64 = |a, b| a & b;
    ck!(c, a.mask_and(&b).is_err(), "mask_and of {n} and {m} bits succeeded");
    ck!(c, a.mask_or(&b).is_err(), "mask_or of {n} and {m} bits succeeded");
    ck!(c, a.mask_xor(&b).is_err(), "mask_xor of {n} and {m} bits succeeded");
    ck!(c, a.mask_custom(&b, f).is_err(), "mask_custom of {n} and {m} bits succeeded");
    ck!(c, a.apply_mask_and(&b).is_err(), "apply_mask_and of {n} and {m} bits succeeded");
    observe_bitvec(c, &a, &ma, 2).map_err(|e| format!("changed by failing apply_mask_and: {e}"))?;
    ck!(c, a.apply_mask_or(&b).is_err(), "apply_mask_or of {n} and {m} bits succeeded");
    ck!(c, a.apply_mask_xor(&b).is_err(), "apply_mask_xor of {n} and {m} bits succeeded");
    ck!(c, a.apply_mask_custom(&b, f).is_err(), "apply_mask_custom of {n} and {m} bits succeeded");
    observe_bitvec(c, &a, &ma, 2).map_err(|e| format!("changed by a failing mask: {e}"))?;
    c.hit("different lengths");
    c.sig_bits(&ma);
    c.sig(m as u64);
    c.nontrivial();
    c.describe(format!("all masks of {n} bits with {m} bits"));
    Ok(())
}

/// every (position, width) of the lazily masked view
fn all_reads(c: &mut Ctx) -> R {
    let n = c.rng.range(1, 200);
    let (ma, _) = gen::bits(&mut c.rng, n);
    let (mb, _) = gen::bits(&mut c.rng, n);
    let a: BitVec = gen::bitvec(&mut c.rng, &ma);
    let b = gen::bitvec(&mut c.rng, &mb);
    let k = c.rng.below(9);
    let (name, f, g) = OPS[k];
    let want: Vec<bool> = ma.iter().zip(&mb).map(|(&x, &y)| f(x, y)).collect();
    let v = a.mask_custom(&b, g)?;
    for w in 1..=64.min(n) {
        for p in 0..=n - w {
            let e = window(&want, p, w);
            if v.get_bits(p, w) != Some(e) || v.get_bits_unchecked(p, w) != e {
                return Err(format!("mask {name}: get_bits({p},{w}) of {n} bits: got {:?}, expected {e:#x}", v.get_bits(p, w)));
            }
            c.n(2);
        }
    }
    c.hit("exhaustive read grids");
    c.sig_bits(&ma);
    c.sig_bits(&mb);
    c.nontrivial();
    c.describe(format!("every read of {name} on {n} bits"));
    Ok(())
}

/// long vectors, every bit of the view and of the result
fn large(c: &mut Ctx) -> R {
    let n = match c.rng.below(3) {
        0 => c.rng.range(1200, 20_000),
        1 => 64 * c.rng.range(20, 3000),
        _ => c.rng.range(60_000, 300_000),
    };
    let (ma, sa) = gen::bits(&mut c.rng, n);
    let (mb, sb) = gen::bits(&mut c.rng, n);
    let a = gen::bitvec(&mut c.rng, &ma);
    let b = gen::bitvec(&mut c.rng, &mb);
    let k = (c.idx % 9) as usize;
    let (name, f, g) = OPS[k];
    let want: Vec<bool> = ma.iter().zip(&mb).map(|(&x, &y)| f(x, y)).collect();
    match name {
        "and" => view(c, "mask_and", &a.mask_and(&b)?, &want)?,
        "or" => view(c, "mask_or", &a.mask_or(&b)?, &want)?,
        "xor" => view(c, "mask_xor", &a.mask_xor(&b)?, &want)?,
        _ => view(c, &format!("mask_custom({name})"), &a.mask_custom(&b, g)?, &want)?,
    }
    // a multi-bit read of the view at every position
    let (view, words) = (a.mask_custom(&b, g)?, Words::new(&want));
    for p in 0..n {
        let w = (1 + c.rng.below(64)).min(n - p);
        let e = words.read(p, w);
        if view.get_bits(p, w) != Some(e) || view.get_bits_unchecked(p, w) != e {
            return Err(format!("mask {name}: get_bits({p},{w}) of {n} bits: got {:?}, expected {e:#x}", view.get_bits(p, w)));
        }
    }
    c.n(2 * n as u64);
    let mut v = a.clone();
    v.apply_mask_custom(&b, g)?;
    observe_bitvec(c, &v, &want, 20).map_err(|e| format!("apply_mask_custom({name}): {e}"))?;
    let mut v = a.clone();
    match name {
        "and" => v.apply_mask_and(&b)?,
        "or" => v.apply_mask_or(&b)?,
        "xor" => v.apply_mask_xor(&b)?,
        _ => v.apply_mask_custom(&b, g)?,
    }
    observe_bitvec(c, &v, &want, 20).map_err(|e| format!("apply_mask_{name}: {e}"))?;
    c.hit("long masks");
    c.sig(k as u64);
    c.sig_bits(&ma);
    c.sig_bits(&mb);
    c.nontrivial();
    c.describe(format!("{name} of two {n}-bit vectors ({sa}, {sb})"));
    Ok(())
}

/// beyond 2^32 bits
fn giant(c: &mut Ctx) -> R {
    let ra = big::runs(&c.rng, c.idx + 1);
    let mut rb = big::runs(&c.rng, c.idx + 2 + c.idx % 2);
    if rb.len > ra.len {
        rb.runs.retain(|x| x.0 < ra.len);
    }
    rb.len = ra.len;
    let n = ra.len;
    let (a, b) = (ra.build(), rb.build());
    let (name, f, g) = OPS[c.rng.below(6)];
    let mut cuts: Vec<usize> = ra.runs.iter().chain(&rb.runs).map(|x| x.0).chain([n]).collect();
    cuts.sort_unstable();
    cuts.dedup();
    let ones: u64 = cuts.windows(2).filter(|w| f(ra.get(w[0]), rb.get(w[0]))).map(|w| (w[1] - w[0]) as u64).sum();
    let bit = |p: usize| f(ra.get(p), rb.get(p));
    let v = a.mask_custom(&b, g)?;
    eq!(c, (v.count_ones(), v.count_zeros()), (ones, n as u64 - ones), "counts of the {name} view of {n} bits");
    let t = if c.rng.bool() {
        v.to_bit_vec()
    } else {
        let mut t = a.clone();
        t.apply_mask_custom(&b, g)?;
        t
    };
    eq!(c, (t.len(), t.count_ones()), (n, ones), "length and ones of the {name} result of {n} bits");
    let mut ps: Vec<usize> = cuts.iter().flat_map(|&p| [p, p.saturating_sub(1), p.saturating_sub(33)]).filter(|&p| p < n).collect();
    ps.extend([n - 1, (1 << 32) - 1, 1 << 32, (1 << 32) - 13]);
    for _ in 0..2000 {
        ps.push(c.rng.below(n));
        ps.push(n - 1 - c.rng.below(70_000));
    }
    for p in ps {
        eq!(c, (v.get(p), t.get(p)), (Some(u64::from(bit(p))), Some(u64::from(bit(p)))), "{name}: bit {p} of {n} of the view and the result");
        let l = (1 + c.rng.below(64)).min(n - p);
        let w = (0..l).fold(0u64, |x, i| x | u64::from(bit(p + i)) << i);
        eq!(c, (v.get_bits(p, l), t.get_bits(p, l)), (Some(w), Some(w)), "{name}: get_bits({p},{l}) of {n} of the view and the result");
    }
    eq!(c, (v.get(n), v.get_bits(n - 3, 4)), (None, None), "{name}: reads past {n}");
    c.hit("masks beyond 2^32 bits");
    c.sig(n as u64);
    c.nontrivial();
    c.describe(format!("{name} of two vectors of {n} bits"));
    Ok(())
}


fn main() {
    run::main(
        "C04",
        &[
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 10, every_length),
            Scenario::new("giant", 1, 6, giant),
            Scenario::new("large", 540, 12_000, large),
            Scenario::new("equal_lengths", 30_000, 700_000, equal_lengths),
            Scenario::new("different_lengths", 5_000, 100_000, different_lengths),
            Scenario::new("all_reads", 1500, 30_000, all_reads),
        ],
    );
}
