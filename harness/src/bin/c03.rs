//! C03: equality, hashing and cloning of bit vectors depend on the contents only.
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, Hash, Hasher, RandomState};
use vers_vecs::BitVec;
use vh::model::*;
use vh::*;

fn h(bv: &BitVec) -> u64 {
    let mut s = DefaultHasher::new();
    bv.hash(&mut s);
    s.finish()
}

fn pairs(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 2500);
    pairs_of(c, n)
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    c.hit("lengths swept");
    pairs_of(c, gen::sweep(c.idx))
}

fn pairs_of(c: &mut Ctx, n: usize) -> R {
    let (m, style) = gen::bits(&mut c.rng, n);
    let a = gen::bitvec(&mut c.rng, &m);
    let rs = RandomState::new();
    // equal contents, several histories
    for _ in 0..4 {
        let b = gen::bitvec(&mut c.rng, &m);
        ck!(c, a == b && b == a, "vectors with the same {n} bits ({style}) compare unequal");
        ck!(c, !(a != b), "a != b for equal vectors of {n} bits");
        eq!(c, h(&a), h(&b), "hashes of equal vectors of {n} bits ({style})");
        eq!(c, rs.hash_one(&a), rs.hash_one(&b), "random-state hashes of equal vectors");
        c.hit("equal pairs with different histories");
    }
    ck!(c, a == a.clone(), "clone differs from the original");
    // one bit differs
    for i in 0..6 {
        if n == 0 {
            break;
        }
        let p = match i {
            0 => n - 1,
            1 => 0,
            2 => (n - 1) / 64 * 64,
            _ => read_pos(c, n, 1),
        };
        let mut m2 = m.clone();
        m2[p] = !m2[p];
        let b = gen::bitvec(&mut c.rng, &m2);
        ck!(c, a != b && b != a, "vectors of {n} bits differing at bit {p} compare equal");
        ck!(c, !(a == b), "a == b for vectors of {n} bits differing at {p}");
        let mut b2 = a.clone();
        b2.flip_bit(p);
        ck!(c, a != b2 && b2 == b, "clone with bit {p} of {n} flipped compares wrongly");
        eq!(c, h(&b2), h(&b), "hashes of equal vectors");
        c.hit("pairs differing in one bit");
    }
    // prefix / length differs
    let mut m3 = m.clone();
    m3.push(false);
    let b = gen::bitvec(&mut c.rng, &m3);
    ck!(c, a != b && b != a, "vector of {n} bits equals its extension by a zero");
    let z = c.rng.range(1, 130);
    m3.resize(n + z, false);
    let b = gen::bitvec(&mut c.rng, &m3);
    ck!(c, a != b && b != a, "vector of {n} bits equals its extension by {z} zeros");
    let mut t = b;
    t.drop_last(z);
    ck!(c, t == a && a == t, "extension by {z} zeros dropped again differs from the original");
    c.hit("pairs differing in length");
    // masked results and other derived vectors are compared by content as well
    if n > 0 {
        let zero = BitVec::from_zeros(n);
        let ones = BitVec::from_ones(n);
        let x = a.mask_xor(&ones).unwrap().to_bit_vec();
        let inv: Vec<bool> = m.iter().map(|b| !b).collect();
        let y = gen::bitvec(&mut c.rng, &inv);
        ck!(c, x == y && h(&x) == h(&y), "inverted vector of {n} bits compares or hashes wrongly");
        let x = a.mask_or(&zero).unwrap().to_bit_vec();
        ck!(c, x == a && h(&x) == h(&a), "or with zeros of {n} bits compares or hashes wrongly");
    }
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits ({style}): 4 equal pairs, up to 6 single-bit differences, length differences"));
    Ok(())
}

/// a family of vectors in hash sets/maps against a set of bool lists
fn sets(c: &mut Ctx) -> R {
    let mut set: HashSet<BitVec> = HashSet::new();
    let mut map: HashMap<BitVec, usize> = HashMap::new();
    let mut model: HashMap<Vec<bool>, usize> = HashMap::new();
    let base = gen::len(&mut c.rng, 400);
    let (m0, _) = gen::bits(&mut c.rng, base);
    let mut contents = HashSet::new();
    for i in 0..60 {
        let mut m = m0.clone();
        for _ in 0..c.rng.below(3) {
            if !m.is_empty() {
                let p = read_pos(c, m.len(), 1);
                m[p] = !m[p];
            }
        }
        match c.rng.below(4) {
            0 => m.truncate(m.len() - c.rng.below(m.len().min(70) + 1)),
            1 => {
                let k = c.rng.below(70);
                let b = c.rng.bool();
                m.extend((0..k).map(|_| b));
            }
            _ => {}
        }
        let bv = gen::bitvec(&mut c.rng, &m);
        contents.insert(m.clone());
        match c.rng.below(4) {
            0 => {
                eq!(c, set.remove(&bv), model.remove(&m).is_some(), "HashSet::remove of a vector of {} bits", m.len());
                map.remove(&bv);
            }
            1 => {
                eq!(c, set.contains(&bv), model.contains_key(&m), "HashSet::contains of a vector of {} bits", m.len());
                eq!(c, map.get(&bv).copied(), model.get(&m).copied(), "HashMap::get of a vector of {} bits", m.len());
            }
            _ => {
                eq!(c, set.insert(bv.clone()), !model.contains_key(&m), "HashSet::insert of a vector of {} bits", m.len());
                map.insert(bv, i);
                model.insert(m, i);
            }
        }
        eq!(c, set.len(), model.len(), "number of distinct vectors in the set");
        eq!(c, map.len(), model.len(), "number of distinct vectors in the map");
    }
    c.hit_n("hash set operations", 60);
    c.sig_bits(&m0);
    c.sig(set.len() as u64);
    c.nontrivial();
    c.describe(format!("60 set/map operations on variants of a {base}-bit vector, {} distinct contents", contents.len()));
    Ok(())
}

/// clones are independent in both directions
fn clones(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 1500);
    let (m, _) = gen::bits(&mut c.rng, n);
    let mut a = gen::bitvec(&mut c.rng, &m);
    let b = a.clone();
    let mut d = BitVec::from_ones(c.rng.below(300));
    d.clone_from(&a);
    ck!(c, b == a && d == a, "clone or clone_from differs from the original ({n} bits)");
    if n > 0 {
        a.flip_bit(n - 1);
        a.flip_bit(0);
    }
    a.append_word(77);
    a.drop_last(3);
    observe_bitvec(c, &b, &m, 4).map_err(|e| format!("clone changed with the original: {e}"))?;
    observe_bitvec(c, &d, &m, 4).map_err(|e| format!("clone_from copy changed with the original: {e}"))?;
    let mut m2 = m.clone();
    if n > 0 {
        m2[n - 1] = !m2[n - 1];
        m2[0] = !m2[0];
    }
    m2.extend(bits_of(77, 61));
    observe_bitvec(c, &a, &m2, 4)?;
    c.hit("clone independence");
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("clone of {n} bits, then edit the original"));
    Ok(())
}

/// long vectors: one difference anywhere makes them unequal
fn large(c: &mut Ctx) -> R {
    let n = match c.rng.below(3) {
        0 => c.rng.range(2500, 20_000),
        1 => 64 * c.rng.range(40, 5000),
        _ => c.rng.range(60_000, 700_000),
    };
    let (m, style) = gen::bits(&mut c.rng, n);
    let a = gen::bitvec(&mut c.rng, &m);
    let b = gen::bitvec(&mut c.rng, &m);
    ck!(c, a == b && b == a && !(a != b), "vectors with the same {n} bits ({style}) compare unequal");
    eq!(c, h(&a), h(&b), "hashes of equal vectors of {n} bits ({style})");
    let mut d = b;
    for i in 0..24 {
        let p = match i {
            0 => n - 1,
            1 => 0,
            2 => (n - 1) / 64 * 64,
            3 => ((n - 1) / 64 * 64).saturating_sub(1),
            4 => 1 << c.rng.below(20),
            _ => read_pos(c, n, 1),
        };
        let p = p.min(n - 1);
        d.flip_bit(p);
        ck!(c, a != d && d != a && !(a == d), "vectors of {n} bits ({style}) differing at bit {p} compare equal");
        // two bits exchanged, counts unchanged
        let q = read_pos(c, n, 1);
        if q != p {
            d.flip_bit(q);
            ck!(c, a != d && d != a, "vectors of {n} bits ({style}) differing at bits {p} and {q} compare equal");
            d.flip_bit(q);
        }
        d.flip_bit(p);
    }
    ck!(c, a == d && h(&a) == h(&d), "flipping bits twice changed a vector of {n} bits");
    // limbs exchanged
    if n > 256 {
        let (x, y) = (c.rng.below(n / 64), c.rng.below(n / 64));
        let mut m2 = m.clone();
        for i in 0..64 {
            m2.swap(64 * x + i, 64 * y + i);
        }
        let e = gen::bitvec(&mut c.rng, &m2);
        eq!(c, a == e, m == m2, "vectors of {n} bits with limbs {x} and {y} exchanged: ==");
    }
    let z = c.rng.range(1, 200);
    d.append_bits(0, z.min(64));
    ck!(c, a != d && d != a, "vector of {n} bits equals its extension by zeros");
    let mut set = HashSet::new();
    set.insert(a.clone());
    ck!(c, set.contains(&a) && !set.contains(&d), "set membership of a vector of {n} bits");
    d.drop_last(z.min(64));
    ck!(c, a == d && set.contains(&d), "extension by zeros dropped again is not the original ({n} bits)");
    c.hit("long pairs");
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("{n} bits ({style}): equal pair, 48 small differences"));
    Ok(())
}

/// beyond 2^32 bits
fn giant(c: &mut Ctx) -> R {
    let r = big::runs(&c.rng, c.idx + 1);
    let n = r.len;
    let a = r.build();
    let mut b = a.clone();
    ck!(c, a == b, "clone of {n} bits differs");
    for p in [n - 1, n - 2, 0, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, n / 2, (1 << 32) + c.rng.below(n - (1 << 32)), c.rng.below(n)] {
        b.flip_bit(p);
        ck!(c, a != b && b != a, "vectors of {n} bits differing at bit {p} compare equal");
        b.flip_bit(p);
    }
    b.append_bits(0, 40);
    ck!(c, a != b, "vector of {n} bits equals its extension by zeros");
    b.append_bits(u64::MAX, 50);
    b.drop_last(90);
    ck!(c, a == b, "vector of {n} bits differs after append and drop");
    eq!(c, h(&a), h(&b), "hashes of equal vectors of {n} bits");
    c.hit("pairs beyond 2^32 bits");
    c.sig(n as u64);
    c.nontrivial();
    c.describe(format!("{n} bits"));
    Ok(())
}

/// a difference at any single position of a vector of more than 2^16 bits
fn every_position(c: &mut Ctx) -> R {
    let n = gen::dense(&mut c.rng);
    let (m, style) = gen::bits(&mut c.rng, n);
    let a = gen::bitvec(&mut c.rng, &m);
    let mut b = gen::bitvec(&mut c.rng, &m);
    for p in 0..n {
        b.flip_bit(p);
        if a == b || b == a {
            return Err(format!("vectors of {n} bits ({style}) differing at bit {p} compare equal"));
        }
        b.flip_bit(p);
    }
    ck!(c, a == b && h(&a) == h(&b), "vector of {n} bits ({style}) with every bit flipped and flipped back differs");
    c.n(2 * n as u64);
    c.hit("vectors with every position changed");
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("every single-bit difference of {n} bits ({style})"));
    Ok(())
}

fn main() {
    run::main(
        "C03",
        &[
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 10, every_length),
            Scenario::new("every-position", 20, 400, every_position),
            Scenario::new("giant", 1, 6, giant),
            Scenario::new("large", 800, 20_000, large),
            Scenario::new("pairs", 40_000, 1_000_000, pairs),
            Scenario::new("sets", 6_000, 150_000, sets),
            Scenario::new("clones", 8_000, 200_000, clones),
        ],
    );
}
