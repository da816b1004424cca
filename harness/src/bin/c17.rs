//! C17: excess search on arbitrary bit sequences.
use vers_vecs::trees::{IsAncestor, LevelTree, SubtreeSize, Tree as _};
use vers_vecs::BpTree;
use vh::treemodel::{Profile, BLOCKS, SMALL_BLOCKS};
use vh::*;

fn exact<const B: usize>(c: &mut Ctx, bp: &BpTree<B>, p: &Profile, i: usize, r: i64) -> R {
    let g = (bp.fwd_search(i, r), bp.bwd_search(i, r));
    let w = (p.fwd(i, r), p.bwd(i, r));
    if g != w {
        return Err(format!("fwd/bwd_search({i},{r}) on {} bits, block {B}: got {g:?}, expected {w:?}", p.len()));
    }
    if w.0.is_some_and(|x| x / B != i / B) || w.1.is_some_and(|x| x / B != i / B) {
        c.hit("found in another block");
    } else if w.0.is_some() || w.1.is_some() {
        c.hit("found in the same block");
    } else {
        c.hit("not found");
    }
    c.n(2);
    Ok(())
}

/// no navigation call on a node of an arbitrary sequence panics (its answer is not specified when unbalanced)
fn total<const B: usize>(c: &mut Ctx, bp: &BpTree<B>, bits: &[bool], i: usize) -> R {
    let r = run::guard(|| {
        let _ = (bp.close(i), bp.open(i), bp.enclose(i), bp.excess(i), bp.root(), bp.size(), bp.is_empty());
        if i < bits.len() && bits[i] {
            let _ = (bp.parent(i), bp.first_child(i), bp.last_child(i), bp.next_sibling(i), bp.previous_sibling(i));
            let _ = (bp.is_leaf(i), bp.depth(i), bp.node_index(i), bp.subtree_size(i), bp.is_ancestor(i, i));
            let _ = (bp.level_next(i), bp.level_prev(i), bp.level_ancestor(i, 1), bp.level_ancestor(i, 3), bp.level_ancestor(i, 1 << 63), bp.level_ancestor(i, u64::MAX));
            let n = bp.subtree_iter(i).take(50).count() + bp.children(i).take(50).count() + bp.rev_children(i).take(50).count();
            let _ = n;
        }
        let _ = (bp.level_leftmost(i as u64), bp.level_rightmost(i as u64), bp.node_handle(i));
        let _ = (bp.level_leftmost(!(i as u64)), bp.level_rightmost(!(i as u64)), bp.level_leftmost(1 << 63), bp.level_rightmost(1 << 63));
    });
    c.n(1);
    c.hit("navigation calls on arbitrary sequences");
    r.map_err(|m| format!("navigation at position {i} of {} bits, block {B}: {m}", bits.len()))
}

fn rels(c: &mut Ctx, p: &Profile, i: usize) -> Vec<i64> {
    let (lo, hi) = (p.lo, p.hi);
    let here = p.e[i.min(p.len())];
    let mut v = vec![0, 1, -1, 2, -2, lo - here, hi - here, lo - here - 1, hi - here + 1];
    for _ in 0..4 {
        v.push(c.rng.range64(0, (hi - lo) as u64 + 2) as i64 + lo - here - 1);
    }
    v.push(*c.rng.pick(&[1 << 20, -(1 << 20), 1 << 40, -(1 << 40), 1 << 62, -(1 << 62), i64::from(i32::MAX), i64::from(i32::MIN)]));
    let near = c.rng.below64((hi - lo) as u64 + 4) as i64;
    v.push(*c.rng.pick(&[i64::MAX - near, i64::MIN + near, (1 << 32) + near, (1 << 32) - near, near - (1 << 32), -near - (1 << 32)]));
    v
}

fn exhaustive<const B: usize>(c: &mut Ctx, bits: &[bool], p: &Profile) -> R {
    let bv = gen::bitvec(&mut c.rng, bits);
    let bp = BpTree::<B>::from_bit_vector(bv);
    let n = bits.len();
    for i in 0..n + 2 {
        for r in -(n as i64) - 2..=n as i64 + 2 {
            exact(c, &bp, p, i, r)?;
        }
        total(c, &bp, bits, i)?;
        for r in [1 << 62, -(1 << 62), 1 << 33, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1] {
            exact(c, &bp, p, i, r)?;
        }
    }
    exact(c, &bp, p, usize::MAX, 0)?;
    exact(c, &bp, p, usize::MAX - 1, 1)
}

fn enumerated(c: &mut Ctx) -> R {
    // every bit sequence of up to 9 bits
    let mut k = c.idx % 1023;
    let mut n = 0;
    while k >= 1 << n {
        k -= 1 << n;
        n += 1;
    }
    let bits = model::bits_of(k, n);
    let p = Profile::new(&bits);
    c.sig_bits(&bits);
    if n > 1 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits {k:b}, all starts and all relative excesses, blocks {SMALL_BLOCKS:?}"));
    for b in SMALL_BLOCKS {
        with_block!(b, exhaustive(c, &bits, &p))?;
    }
    Ok(())
}

fn sampled<const B: usize>(c: &mut Ctx, bits: &[bool], p: &Profile, starts: usize) -> R {
    let bv = gen::bitvec(&mut c.rng, bits);
    let bp = BpTree::<B>::from_bit_vector(bv);
    let n = bits.len();
    for k in 0..starts {
        let i = match c.rng.below(5) {
            0 => c.rng.below(n + 2),
            1 => (gen::near(&mut c.rng, B, n)).min(n + 1),
            2 => gen::near(&mut c.rng, 8, n).min(n + 1),
            3 => n.saturating_sub(c.rng.below(20)),
            _ => c.rng.below(n + 1),
        };
        for r in rels(c, p, i) {
            exact(c, &bp, p, i, r)?;
        }
        if k % 3 == 0 {
            total(c, &bp, bits, i)?;
        }
    }
    Ok(())
}

fn sequence(c: &mut Ctx, n: usize) -> (Vec<bool>, &'static str) {
    match c.rng.below(5) {
        0 => {
            let (mut b, _) = gen::tree(&mut c.rng, n / 2 + 1);
            b.truncate(n.max(1));
            (b, "tree prefix")
        }
        1 => {
            // a tree with a few flipped parentheses
            let (mut b, _) = gen::tree(&mut c.rng, n / 2 + 1);
            for _ in 0..1 + c.rng.below(4) {
                let i = c.rng.below(b.len());
                b[i] = !b[i];
            }
            (b, "damaged tree")
        }
        2 => {
            // a reversed tree: dips below zero
            let (mut b, _) = gen::tree(&mut c.rng, n / 2 + 1);
            for x in &mut b {
                *x = !*x;
            }
            (b, "mirrored tree")
        }
        _ => gen::bits(&mut c.rng, n),
    }
}

fn one(c: &mut Ctx, n: usize, blocks: &[usize], starts: usize) -> R {
    let (bits, style) = sequence(c, n);
    let p = Profile::new(&bits);
    c.sig_bits(&bits);
    if bits.len() > 1 {
        c.nontrivial();
    }
    c.describe(format!("{} bits ({style}), blocks {blocks:?}", bits.len()));
    for &b in blocks {
        with_block!(b, sampled(c, &bits, &p, starts)).map_err(|e| format!("{style}: {e}"))?;
    }
    Ok(())
}

fn small(c: &mut Ctx) -> R {
    let n = c.rng.below(120);
    one(c, n, &BLOCKS, 12)
}

fn medium(c: &mut Ctx) -> R {
    let n = c.rng.below(4000);
    let bs: Vec<usize> = (0..5).map(|_| *c.rng.pick(&BLOCKS)).collect();
    one(c, n, &bs, 100)
}

fn large(c: &mut Ctx) -> R {
    let n = c.rng.log_u64(18) as usize + c.rng.below(60_000);
    let bs = [*c.rng.pick(&BLOCKS), *c.rng.pick(&[512, 1024, 128])];
    one(c, n, &bs, 400)
}

fn huge(c: &mut Ctx) -> R {
    let n = 1_000_000 + c.rng.below(2_000_000);
    let b = *c.rng.pick(&[512, 64, 1024, 16, 4]);
    one(c, n, &[b], 600)
}

/// excess beyond 2^31
fn giant(c: &mut Ctx) -> R {
    let mut lens = vec![(1usize << 31) + c.rng.below(100_000)];
    for _ in 0..40 {
        lens.push(1 + c.rng.log_u64(17) as usize);
    }
    let r = big::from_lengths(c.idx % 2 == 0, &lens);
    let bp = BpTree::<512>::from_bit_vector(r.build());
    let mut pos: Vec<usize> = r.borders();
    for _ in 0..200 {
        pos.push(c.rng.below(r.len));
        pos.push(r.len - 1 - c.rng.below(500_000));
    }
    for i in pos {
        if i >= r.len {
            continue;
        }
        let (here, total) = (r.rank(true, i + 1) as i64 - r.rank(false, i + 1) as i64, r.rank(true, r.len) as i64 - r.rank(false, r.len) as i64);
        let mut rs = vec![1, -1, 0, 2, -2, -here, total - here, here, 1 - here, total - here - 1];
        for _ in 0..6 {
            rs.push(c.rng.log_u64(33) as i64);
            rs.push(-(c.rng.log_u64(33) as i64));
        }
        for x in rs {
            eq!(c, bp.fwd_search(i, x), r.fwd(i, x), "fwd_search({i},{x}) on {} bits", r.len);
            eq!(c, bp.bwd_search(i, x), r.bwd(i, x), "bwd_search({i},{x}) on {} bits", r.len);
        }
        eq!(c, bp.excess(i), here, "excess({i}) on {} bits", r.len);
    }
    c.hit("sequences with an excess beyond 2^31");
    c.sig(r.len as u64);
    c.nontrivial();
    c.describe(format!("{} bits in {} runs", r.len, r.runs.len()));
    Ok(())
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    let n = gen::sweep(c.idx);
    let bs = [*c.rng.pick(&BLOCKS), 512];
    c.hit("lengths swept");
    one(c, n, &bs, 30)
}

/// searches from every position of sequences of more than 2^16 parentheses
fn every_position(c: &mut Ctx) -> R {
    let n = gen::dense(&mut c.rng);
    let (bits, style) = sequence(c, n);
    let p = Profile::new(&bits);
    c.sig_bits(&bits);
    c.nontrivial();
    let b = if c.rng.bool() { 512 } else { *c.rng.pick(&BLOCKS) };
    c.describe(format!("every position of {} bits ({style}), block {b}", bits.len()));
    fn all<const B: usize>(c: &mut Ctx, bits: &[bool], p: &Profile) -> R {
        let bp = BpTree::<B>::from_bit_vector(gen::bitvec(&mut c.rng, bits));
        for i in 0..bits.len() + 2 {
            for r in [-1, 1, 0, -2, 1 + c.rng.below64(40) as i64, -1 - c.rng.below64(40) as i64] {
                exact(c, &bp, p, i, r)?;
            }
        }
        Ok(())
    }
    with_block!(b, all(c, &bits, &p)).map_err(|e| format!("{style}: {e}"))?;
    c.hit("sequences searched from every position");
    Ok(())
}

fn main() {
    run::main(
        "C17",
        &[
            Scenario::new("every-position", 8, 200, every_position),
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 10, every_length),
            Scenario::new("giant", 1, 4, giant),
            Scenario::new("enumerated", 1023, 4092, enumerated),
            Scenario::new("small", 6000, 200_000, small),
            Scenario::new("medium", 2000, 60_000, medium),
            Scenario::new("large", 120, 5000, large),
            Scenario::new("huge", 8, 160, huge),
        ],
    );
}
