//! C15: level, ancestor and subtree queries equal those of the encoded tree.
use vers_vecs::trees::{IsAncestor, LevelTree, SubtreeSize};
use vers_vecs::BpTree;
use vh::treemodel::{Tree, BLOCKS, NONE, SMALL_BLOCKS};
use vh::*;

/// the ancestor k levels up is the last node at its depth that does not start behind v
fn ancestor(t: &Tree, v: usize, k: u64) -> Option<usize> {
    if k > t.depth[v] as u64 {
        return None;
    }
    let l = &t.levels[t.depth[v] - k as usize];
    Some(l[l.partition_point(|&x| x <= v) - 1])
}

/// a level far beyond any tree, near where narrower or signed types would wrap into the tree
fn extreme(c: &mut Ctx, d: u64) -> u64 {
    c.hit("levels beyond any tree");
    let base = *c.rng.pick(&[1u64 << 32, 1 << 31, 1 << 33, 1 << 48, 1 << 63, 3 << 62, 0]);
    let off = c.rng.below64(d + 4);
    let l = if c.rng.bool() { base.wrapping_add(off) } else { base.wrapping_sub(1 + off) };
    l.max(1 << 30)
}

fn check<const B: usize>(c: &mut Ctx, t: &Tree, nodes: usize) -> R {
    let bv = gen::bitvec(&mut c.rng, &t.bits);
    let bp = BpTree::<B>::from_bit_vector(bv);
    let len = t.bits.len();
    let h = t.levels.len();
    // levels: all of a flat tree, a sample of a deep one, and levels below the deepest node
    let mut lv: Vec<usize> = if h <= 200.max(nodes) { (0..h).collect() } else { (0..200).map(|_| c.rng.below(h)).collect() };
    lv.extend([0, 1, h.saturating_sub(1), h, h + 1, h + 2, h + 513, 1 << 20, 1 << 40, 1 << 62, 1 << 63, usize::MAX, usize::MAX - 1]);
    let wide = extreme(c, h as u64);
    lv.push(wide as usize);
    for l in lv {
        let w = t.levels.get(l).map(|v| (v[0], v[v.len() - 1]));
        let g = (bp.level_leftmost(l as u64), bp.level_rightmost(l as u64));
        let w = (w.map(|x| x.0), w.map(|x| x.1));
        eq!(c, g, w, "level_leftmost/level_rightmost({l}) of a tree of height {h}, {len} parentheses, block {B}");
        if w.0.is_none() {
            c.hit("levels below the deepest node");
        }
    }
    let sample = t.sample(&mut c.rng, nodes);
    for &v in &sample {
        let lvl = &t.levels[t.depth[v]];
        let k = t.lvl_idx[v];
        let w = (lvl.get(k + 1).copied(), if k == 0 { None } else { Some(lvl[k - 1]) });
        let g = (bp.level_next(v), bp.level_prev(v));
        if g != w {
            return Err(format!("level_next/level_prev of node {v} (depth {}) of {len}, block {B}: got {g:?}, expected {w:?}", t.depth[v]));
        }
        eq!(c, bp.subtree_size(v), Some(t.size[v]), "subtree_size({v}) of {len}, block {B}");
        let d = t.depth[v] as u64;
        let mut ks = vec![0, 1, 2, d, d + 1, d + 2, d + 1000, 1 << 40, 1 << 62, 1 << 63, u64::MAX, d.saturating_sub(1)];
        ks.push(extreme(c, d));
        for _ in 0..4 {
            ks.push(c.rng.below64(d + 1));
        }
        for k in ks {
            let g = bp.level_ancestor(v, k);
            let w = ancestor(t, v, k);
            if g != w {
                return Err(format!("level_ancestor({v},{k}) of {len}, depth {d}, block {B}: got {g:?}, expected {w:?}"));
            }
            c.n(1);
        }
        // ancestor relation: against itself, kin, and random nodes
        let mut us = vec![v, t.nodes[c.rng.below(t.nodes.len())], t.nodes[0]];
        for x in [t.parent[v], t.first[v], t.last[v], t.next[v], t.prev[v]] {
            if x != NONE {
                us.push(x);
            }
        }
        if t.size[v] > 1 {
            us.push(t.nodes[t.index[v] + c.rng.below(t.size[v])]);
            us.push(t.nodes[t.index[v] + t.size[v] - 1]);
        }
        if t.index[v] + t.size[v] < t.nodes.len() {
            us.push(t.nodes[t.index[v] + t.size[v]]);
        }
        for u in us {
            let w = t.index[u] >= t.index[v] && t.index[u] < t.index[v] + t.size[v];
            eq!(c, bp.is_ancestor(v, u), Some(w), "is_ancestor({v},{u}) of {len}, block {B}");
            let w = t.index[v] >= t.index[u] && t.index[v] < t.index[u] + t.size[u];
            eq!(c, bp.is_ancestor(u, v), Some(w), "is_ancestor({u},{v}) of {len}, block {B}");
        }
    }
    c.n(2 * sample.len() as u64);
    c.hit_n("nodes queried", sample.len() as u64);
    Ok(())
}

fn one(c: &mut Ctx, n: usize, blocks: &[usize], nodes: usize) -> R {
    let (bits, style) = gen::tree(&mut c.rng, n);
    let t = Tree::new(&bits);
    c.sig_bits(&bits);
    c.nontrivial();
    c.describe(format!("tree of {n} nodes ({style}), height {}, blocks {blocks:?}", t.levels.len()));
    for &b in blocks {
        with_block!(b, check(c, &t, nodes)).map_err(|e| format!("{style}: {e}"))?;
    }
    Ok(())
}

fn tiny(c: &mut Ctx) -> R {
    if c.idx == 0 {
        let t = Tree::new(&[]);
        for b in BLOCKS {
            with_block!(b, check_empty(c, &t))?;
        }
        c.hit("empty tree");
    }
    let n = 1 + (c.idx as usize) % 9;
    one(c, n, &SMALL_BLOCKS, 100)
}

fn check_empty<const B: usize>(c: &mut Ctx, t: &Tree) -> R {
    let bv = gen::bitvec(&mut c.rng, &t.bits);
    let bp = BpTree::<B>::from_bit_vector(bv);
    for l in [0, 1, 2, 3, 700, 1 << 40] {
        eq!(c, (bp.level_leftmost(l), bp.level_rightmost(l)), (None, None), "levels of the empty tree, level {l}, block {B}");
    }
    Ok(())
}

fn small(c: &mut Ctx) -> R {
    let n = 1 + c.rng.below(60);
    one(c, n, &BLOCKS, 60)
}

fn medium(c: &mut Ctx) -> R {
    let n = 1 + c.rng.below(2000);
    let bs: Vec<usize> = (0..4).map(|_| *c.rng.pick(&BLOCKS)).collect();
    one(c, n, &bs, 250)
}

fn large(c: &mut Ctx) -> R {
    let n = 1 + c.rng.log_u64(17) as usize + c.rng.below(30_000);
    let bs = [*c.rng.pick(&BLOCKS), *c.rng.pick(&[512, 1024, 128])];
    one(c, n, &bs, 500)
}

fn huge(c: &mut Ctx) -> R {
    let n = 400_000 + c.rng.below(1_500_000);
    let b = *c.rng.pick(&[512, 64, 1024, 16]);
    one(c, n, &[b], 2000)
}

/// a path deeper than 2^31 with a few leaves at its end
fn giant(c: &mut Ctx) -> R {
    let d = (1usize << 31) + 1 + c.rng.below(100_000);
    let r = big::from_lengths(true, &[d + 1, 1, 1, 1, 1, d + 1]);
    let bp = BpTree::<512>::from_bit_vector(r.build());
    let mut ps = vec![0, 1, 2, d - 1, d - 2, d / 2, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 511, 512, 513];
    for _ in 0..200 {
        ps.push(c.rng.below(d));
    }
    for &v in &ps {
        for _ in 0..4 {
            let l = if c.rng.one_in(4) { v } else { c.rng.below(v + 3) };
            eq!(c, bp.level_ancestor(v, l as u64), v.checked_sub(l), "level_ancestor({v},{l}) on a path of {d}");
            let u = *c.rng.pick(&ps);
            eq!(c, bp.is_ancestor(v, u), Some(v <= u), "is_ancestor({v},{u}) on a path of {d}");
        }
        eq!(c, (bp.level_next(v), bp.level_prev(v)), (None, None), "level neighbours of depth {v}");
        eq!(c, (bp.level_leftmost(v as u64), bp.level_rightmost(v as u64)), (Some(v), Some(v)), "level ends of depth {v}");
        eq!(c, bp.subtree_size(v), Some(d + 3 - v), "subtree size of depth {v}");
    }
    eq!(c, (bp.level_leftmost(d as u64), bp.level_rightmost(d as u64)), (Some(d), Some(d + 4)), "level ends of the leaves");
    eq!(c, (bp.level_leftmost(d as u64 + 1), bp.level_rightmost(d as u64 + 1)), (None, None), "level ends below the leaves");
    eq!(c, (bp.level_next(d), bp.level_prev(d + 4)), (Some(d + 2), Some(d + 2)), "level neighbours of the leaves");
    eq!(c, bp.level_ancestor(d + 4, d as u64), Some(0), "level_ancestor of the last leaf");
    c.hit("trees deeper than 2^31");
    c.sig(d as u64);
    c.nontrivial();
    c.describe(format!("path of {d} nodes with three leaves"));
    Ok(())
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    let n = gen::sweep(c.idx).max(1);
    let bs = [*c.rng.pick(&BLOCKS), 512];
    c.hit("lengths swept");
    one(c, n, &bs, 100)
}

/// every node and every level of trees of more than 2^16 nodes
fn every_position(c: &mut Ctx) -> R {
    let n = gen::dense(&mut c.rng);
    let b = if c.rng.bool() { 512 } else { *c.rng.pick(&BLOCKS) };
    c.hit("trees with every node visited");
    one(c, n, &[b], usize::MAX / 8)
}

fn main() {
    run::main(
        "C15",
        &[
            Scenario::new("every-position", 10, 200, every_position),
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 10, every_length),
            Scenario::new("giant", 1, 3, giant),
            Scenario::new("tiny", 900, 20_000, tiny),
            Scenario::new("small", 5000, 150_000, small),
            Scenario::new("medium", 2000, 50_000, medium),
            Scenario::new("large", 160, 5000, large),
            Scenario::new("huge", 8, 160, huge),
        ],
    );
}
