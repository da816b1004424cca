//! C02: every constructor and packing function produces the bits its input describes.
use vers_vecs::BitVec;
use vh::model::*;
use vh::*;

fn value(c: &mut Ctx, bits: usize) -> u64 {
    let v = match c.rng.below(5) {
        0 => u64::MAX,
        1 => 0,
        2 => c.rng.log_u64(64),
        _ => c.rng.u64(),
    };
    v & mask64(bits)
}

fn packed_model(seq: &[u64], w: usize) -> Vec<bool> {
    seq.iter().flat_map(|&x| bits_of(x, w)).collect()
}

/// packing: element types x widths
fn packing(c: &mut Ctx) -> R {
    let ty = [8usize, 16, 32, 64][(c.idx % 4) as usize];
    let w = match (c.idx / 4) % 176 {
        // elements of no width, and of widths far beyond any element type
        140 | 141 => 0,
        x @ 142..150 => [150, 191, 192, 200, 256, 500, 513, 1000][x as usize - 142],
        x @ 150..156 => [2047, 4096, 8191, 8192, 65_535, 65_536][x as usize - 150],
        156.. => c.rng.range(150, 6000),
        x => 1 + x as usize,
    };
    let n = match c.rng.below(40) {
        0..=9 => c.rng.below(4),
        10..=19 => c.rng.below(200),
        20 => c.rng.below(3000),
        _ => c.rng.below(40),
    };
    let n = if w > 1000 { n.min(1 + 60_000 / w) } else { n };
    pack(c, ty, w, n)
}

/// long sequences, so that anything that works on whole groups of elements is exercised with complete and
/// incomplete groups
fn packing_long(c: &mut Ctx) -> R {
    let ty = [8usize, 16, 32, 64][(c.idx % 4) as usize];
    let w = match c.rng.below(4) {
        0 => ty,
        1 => *c.rng.pick(&[1usize, 2, 4, 8, 16, 32, 64]),
        2 => 1 + c.rng.below(130),
        _ => 1 + c.rng.below(ty),
    };
    let unit = *c.rng.pick(&[256usize, 1024, 1000, 4096, 10_000, 65_536, 100_000]);
    let n = gen::near(&mut c.rng, unit, (3_000_000 / w).min(4 * unit)).max(1);
    c.hit("long packing");
    pack(c, ty, w, n)
}

fn pack(c: &mut Ctx, ty: usize, w: usize, n: usize) -> R {
    let seq: Vec<u64> = (0..n).map(|_| value(c, ty)).collect();
    let want = packed_model(&seq, w);
    let (a, b) = match ty {
        8 => {
            let s: Vec<u8> = seq.iter().map(|&x| x as u8).collect();
            (BitVec::pack_sequence_u8(&s, w), BitVec::pack_from_iter_u8(s.iter().copied(), w))
        }
        16 => {
            let s: Vec<u16> = seq.iter().map(|&x| x as u16).collect();
            (BitVec::pack_sequence_u16(&s, w), BitVec::pack_from_iter_u16(s.iter().copied(), w))
        }
        32 => {
            let s: Vec<u32> = seq.iter().map(|&x| x as u32).collect();
            (BitVec::pack_sequence_u32(&s, w), BitVec::pack_from_iter_u32(s.iter().copied(), w))
        }
        _ => (BitVec::pack_sequence_u64(&seq, w), BitVec::pack_from_iter_u64(seq.iter().copied(), w)),
    };
    observe_bitvec(c, &a, &want, 10).map_err(|e| format!("pack_sequence_u{ty}, {w} bits per element, {n} elements: {e}"))?;
    observe_bitvec(c, &b, &want, 10).map_err(|e| format!("pack_from_iter_u{ty}, {w} bits per element, {n} elements: {e}"))?;
    if w == 0 {
        c.hit("elements of no width");
    } else if w <= 64 {
        for (i, &x) in seq.iter().enumerate() {
            eq!(c, a.unpack_element(i, w), Some(x & mask64(w)), "unpack_element({i},{w}) after pack_sequence_u{ty}");
            eq!(c, a.unpack_element_unchecked(i, w), x & mask64(w), "unpack_element_unchecked({i},{w}) after pack_sequence_u{ty}");
            eq!(c, b.unpack_element(i, w), Some(x & mask64(w)), "unpack_element({i},{w}) after pack_from_iter_u{ty}");
        }
        eq!(c, a.unpack_element(n, w), None, "unpack_element past the end");
    }
    // the packed vectors stay usable: append behind them
    let mut a = a;
    let x = c.rng.u64();
    let k = c.rng.below(65);
    a.append_bits(x, k);
    let mut want = want;
    want.extend(bits_of(x, k));
    observe_bitvec(c, &a, &want, 4).map_err(|e| format!("append after packing u{ty} with {w} bits: {e}"))?;
    c.hit(match ty {
        8 => "pack u8",
        16 => "pack u16",
        32 => "pack u32",
        _ => "pack u64",
    });
    c.sig(ty as u64 * 1000 + w as u64);
    c.sig_bits(&want);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("pack {n} u{ty} elements with {w} bits each"));
    Ok(())
}

/// all constructors from single bits and limbs
fn constructors(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 3000);
    construct(c, n)
}

fn constructors_long(c: &mut Ctx) -> R {
    let unit = *c.rng.pick(&[4096usize, 65_536, 100_000, 1 << 19]);
    let n = gen::near(&mut c.rng, unit, 1_200_000).max(1);
    c.hit("long constructors");
    construct(c, n)
}

fn construct(c: &mut Ctx, n: usize) -> R {
    let (m, style) = gen::bits(&mut c.rng, n);
    let junk: Vec<u64> = m.iter().map(|&b| (c.rng.u64() << 1) | u64::from(b)).collect();
    let u8s: Vec<u8> = junk.iter().map(|&x| x as u8).collect();
    let u16s: Vec<u16> = junk.iter().map(|&x| x as u16).collect();
    let u32s: Vec<u32> = junk.iter().map(|&x| x as u32).collect();
    let limbs = gen::to_limbs(&m);
    let mut aligned = m.clone();
    aligned.resize(limbs.len() * 64, false);
    let from_bits = [
        ("from_bits", BitVec::from_bits(&u8s)),
        ("from_bits_u16", BitVec::from_bits_u16(&u16s)),
        ("from_bits_u32", BitVec::from_bits_u32(&u32s)),
        ("from_bits_u64", BitVec::from_bits_u64(&junk)),
        ("from_bits_iter u8", BitVec::from_bits_iter(u8s.iter().copied())),
        ("from_bits_iter u64", BitVec::from_bits_iter(junk.iter().copied())),
        ("from_bits_iter bool", BitVec::from_bits_iter(m.iter().copied())),
        // an iterator without a useful size hint
        ("from_bits_iter filtered", BitVec::from_bits_iter(junk.iter().copied().filter(|_| true))),
        ("from_bools", BitVec::from_bools(&m)),
        ("from_bool_iter", BitVec::from_bool_iter(m.iter().copied())),
        ("from_bool_iter filtered", BitVec::from_bool_iter(m.iter().copied().filter(|_| true))),
    ];
    for (l, bv) in &from_bits {
        observe_bitvec(c, bv, &m, 6).map_err(|e| format!("{l} ({n} bits, {style}): {e}"))?;
    }
    let from_limbs = [
        ("from_limbs", BitVec::from_limbs(&limbs)),
        ("from_limbs_iter", BitVec::from_limbs_iter(limbs.iter().copied())),
        ("from_limbs_iter filtered", BitVec::from_limbs_iter(limbs.iter().copied().filter(|_| true))),
        ("from_vec", BitVec::from_vec(limbs.clone())),
        ("From<&[u64]>", BitVec::from(&limbs[..])),
        ("From<Vec<u64>>", BitVec::from(limbs.clone())),
        ("FromIterator<u64>", limbs.iter().copied().collect::<BitVec>()),
        (
            "from_limbs_iter u32",
            // only meaningful for limbs below 2^32: rebuild the model accordingly
            BitVec::from_limbs_iter(limbs.iter().map(|&x| x as u32)),
        ),
    ];
    let m32: Vec<bool> = limbs.iter().flat_map(|&x| bits_of(u64::from(x as u32), 64)).collect();
    for (l, bv) in &from_limbs {
        let want = if *l == "from_limbs_iter u32" { &m32 } else { &aligned };
        observe_bitvec(c, bv, want, 6).map_err(|e| format!("{l} ({} limbs): {e}", limbs.len()))?;
    }
    observe_bitvec(c, &BitVec::from_zeros(n), &vec![false; n], 4).map_err(|e| format!("from_zeros({n}): {e}"))?;
    observe_bitvec(c, &BitVec::from_ones(n), &vec![true; n], 4).map_err(|e| format!("from_ones({n}): {e}"))?;
    observe_bitvec(c, &BitVec::with_capacity(n), &[], 0).map_err(|e| format!("with_capacity({n}): {e}"))?;
    observe_bitvec(c, &BitVec::new(), &[], 0).map_err(|e| format!("new(): {e}"))?;
    observe_bitvec(c, &BitVec::default(), &[], 0).map_err(|e| format!("default(): {e}"))?;
    c.hit_n("constructor calls observed", 24);
    // whatever the constructor, editing behind it works
    let mut v = from_bits.into_iter().map(|x| x.1).chain([BitVec::from_ones(n), BitVec::from_zeros(n)]);
    let k = c.rng.below(13);
    let mut bv = v.nth(k).unwrap();
    let mut m2 = match k {
        11 => vec![true; n],
        12 => vec![false; n],
        _ => m.clone(),
    };
    let x = c.rng.u64();
    bv.append_word(x);
    m2.extend(bits_of(x, 64));
    observe_bitvec(c, &bv, &m2, 4).map_err(|e| format!("append_word after constructor #{k} of {n} bits: {e}"))?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("all constructors on {n} bits ({style})"));
    Ok(())
}

/// more than 2^32 bits: the contents are a function of the position, so samples can be judged without a copy
fn giant(c: &mut Ctx) -> R {
    let want = |i: usize, w: usize| (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23) & mask64(w);
    let over = (1usize << 32) + 64 * c.rng.below(5000);
    let (what, bv, w) = match c.idx % 6 {
        0 => {
            let n = over + c.rng.below(64);
            for one in [false, true] {
                let bv = if one { BitVec::from_ones(n) } else { BitVec::from_zeros(n) };
                eq!(c, bv.len(), n, "length of from_{}({n})", if one { "ones" } else { "zeros" });
                eq!(c, bv.count_ones(), if one { n as u64 } else { 0 }, "ones in from_{}({n})", u8::from(one));
                eq!(c, bv.count_zeros(), if one { 0 } else { n as u64 }, "zeros in from_{}({n})", u8::from(one));
                for k in 0..2000 {
                    let p = if k < 200 { n - 1 - k } else { c.rng.below(n) };
                    eq!(c, bv.get(p), Some(u64::from(one)), "bit {p} of {n} equal bits");
                }
                eq!(c, bv.get(n), None, "bit behind the end of {n} equal bits");
                eq!(c, bv.heap_size() >= n / 8, true, "heap size of {n} bits");
            }
            c.hit("more than 2^32 bits");
            c.sig(n as u64);
            c.nontrivial();
            c.describe(format!("{n} equal bits"));
            return Ok(());
        }
        1 => ("from_limbs_iter", BitVec::from_limbs_iter((0..over / 64).map(|i| want(i, 64))), 64),
        2 => {
            let w = 33 + c.rng.below(31);
            ("pack_from_iter_u64", BitVec::pack_from_iter_u64((0..over.div_ceil(w)).map(|i| want(i, 64)), w), w)
        }
        3 => ("pack_from_iter_u32", BitVec::pack_from_iter_u32((0..over.div_ceil(32)).map(|i| want(i, 32) as u32), 32), 32),
        4 => {
            let s: Vec<u64> = (0..over / 64).map(|i| want(i, 64)).collect();
            ("pack_sequence_u64", BitVec::pack_sequence_u64(&s, 64), 64)
        }
        _ => {
            let s: Vec<u8> = (0..over.div_ceil(5)).map(|i| want(i, 8) as u8).collect();
            ("pack_sequence_u8", BitVec::pack_sequence_u8(&s, 5), 5)
        }
    };
    let n = if c.idx % 6 == 1 || c.idx % 6 == 4 { over / 64 } else { over.div_ceil(w) };
    eq!(c, bv.len(), n * w, "length of {what} with {n} elements of {w} bits");
    for k in 0..4000 {
        let i = if k < 300 { n - 1 - k } else if k < 600 { ((1usize << 32) / w + 150 - (k - 300)).min(n - 1) } else { c.rng.below(n) };
        eq!(c, bv.unpack_element(i, w), Some(want(i, w)), "{what}: element {i} of {n} with {w} bits");
        let o = c.rng.below(w);
        eq!(c, bv.get(i * w + o), Some(want(i, w) >> o & 1), "{what}: bit {o} of element {i} with {w} bits");
    }
    eq!(c, bv.unpack_element(n, w), None, "{what}: element {n} of {n}");
    c.hit("more than 2^32 bits");
    c.sig(n as u64);
    c.nontrivial();
    c.describe(format!("{what}, {n} elements of {w} bits"));
    Ok(())
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    let n = gen::sweep(c.idx);
    c.hit("lengths swept");
    construct(c, n)?;
    let ty = *c.rng.pick(&[8usize, 16, 32, 64]);
    let w = if n > 2000 { 1 + c.rng.below(20) } else { 1 + c.rng.below(80) };
    pack(c, ty, w, n)
}

fn main() {
    run::main(
        "C02",
        &[
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 10, every_length),
            Scenario::new("giant", 6, 18, giant),
            Scenario::new("packing_long", 160, 4000, packing_long),
            Scenario::new("constructors_long", 24, 600, constructors_long),
            Scenario::new("packing", 40_000, 1_000_000, packing),
            Scenario::new("constructors", 12_000, 300_000, constructors),
        ],
    );
}
