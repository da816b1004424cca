//! C16: traversals and the builder.
use vers_vecs::trees::TreeBuilder;
use vers_vecs::{BitVec, BpBuilder, BpTree, RsVec};
use vh::treemodel::{Tree, BLOCKS, NONE, SMALL_BLOCKS};
use vh::*;

fn seq(c: &mut Ctx, what: &str, it: impl Iterator<Item = usize>, want: &[usize]) -> R {
    let mut it = it;
    for (k, w) in want.iter().enumerate() {
        let g = it.next();
        if g != Some(*w) {
            return Err(format!("{what}: item {k} of {}: got {g:?}, expected {w}", want.len()));
        }
    }
    c.n(want.len() as u64 + 1);
    match it.next() {
        Some(x) => Err(format!("{what}: extra item {x} after {}", want.len())),
        None => Ok(()),
    }
}

fn check<const B: usize>(c: &mut Ctx, t: &Tree, nodes: usize) -> R {
    let bv = gen::bitvec(&mut c.rng, &t.bits);
    let bp = BpTree::<B>::from_bit_vector(bv);
    let len = t.bits.len();
    seq(c, "dfs_iter", bp.dfs_iter(), &t.nodes)?;
    seq(c, "iter", bp.iter(), &t.nodes)?;
    seq(c, "dfs_post_iter", bp.dfs_post_iter(), &t.post)?;
    // the widest node and the root in full, then a sample within a budget
    let mut widest = t.nodes[0];
    if t.nodes.len() > 20_000 {
        let mut kids = vec![0u32; len];
        let mut stack: Vec<usize> = Vec::new();
        for (p, &b) in t.bits.iter().enumerate() {
            if b {
                if let Some(&q) = stack.last() {
                    kids[q] += 1;
                    if kids[q] > kids[widest] {
                        widest = q;
                    }
                }
                stack.push(p);
            } else {
                stack.pop();
            }
        }
        if kids[widest] > 65_536 {
            c.hit("nodes with more than 65536 children");
        }
    }
    let every = nodes >= t.nodes.len();
    let mut budget = 4_000_000usize;
    let mut child_budget = if every { usize::MAX } else { 40_000 };
    for (k, v) in [widest, t.nodes[0]].into_iter().chain(t.sample(&mut c.rng, nodes)).enumerate() {
        if k == 2 {
            budget = 40_000;
        }
        let (i, s) = (t.index[v], t.size[v]);
        let mut ch = Vec::new();
        let mut x = t.first[v];
        while x != NONE && ch.len() <= 2_000_000 {
            ch.push(x);
            x = t.next[x];
        }
        if ch.len() <= 2_000_000 && (k < 2 || ch.len() <= child_budget) {
            child_budget -= ch.len().min(child_budget);
            seq(c, &format!("children({v}) of {len}, block {B}"), bp.children(v), &ch)?;
            ch.reverse();
            seq(c, &format!("rev_children({v}) of {len}, block {B}"), bp.rev_children(v), &ch)?;
            c.hit("children listed");
        }
        if s > budget {
            if every {
                // where the traversal starts is cheap to see
                let g: Vec<usize> = bp.subtree_iter(v).take(3).collect();
                eq!(c, g, t.nodes[i..i + s.min(3)].to_vec(), "start of subtree_iter({v}) of {len}, block {B}");
                if t.levels.len() < 2000 || c.rng.one_in(100) {
                    let g: Vec<usize> = bp.subtree_post_iter(v).take(3).collect();
                    eq!(c, g, t.post[v - i..v - i + s.min(3)].to_vec(), "start of subtree_post_iter({v}) of {len}, block {B}");
                }
            }
            continue;
        }
        budget -= s;
        seq(c, &format!("subtree_iter({v}) of {len}, block {B}"), bp.subtree_iter(v), &t.nodes[i..i + s])?;
        // the post-order of a subtree is a contiguous part of the post-order of the tree
        let closes_before = v - i;
        let sub: &[usize] = &t.post[closes_before..closes_before + s];
        seq(c, &format!("subtree_post_iter({v}) of {len}, block {B}"), bp.subtree_post_iter(v), sub)?;
        c.hit("subtrees traversed");
    }
    // consuming iteration and conversions back
    let rs: RsVec = bp.clone().into();
    eq!(c, rs.len(), len, "parentheses vector length");
    let bv: BitVec = bp.clone().into();
    eq!(c, bv.len(), len, "parentheses bit vector length");
    for (i, &b) in t.bits.iter().enumerate() {
        if rs.get(i) != Some(u64::from(b)) || bv.get(i) != Some(u64::from(b)) {
            return Err(format!("parenthesis {i} of {len} changed by the conversion back"));
        }
    }
    let v = bp.clone().into_parentheses_vec();
    ck!(c, v == rs, "into_parentheses_vec differs from From<BpTree>");
    seq(c, "into_iter", bp.into_iter(), &t.nodes)
}

fn one(c: &mut Ctx, n: usize, blocks: &[usize], nodes: usize) -> R {
    let (bits, style) = gen::tree(&mut c.rng, n);
    let t = Tree::new(&bits);
    c.sig_bits(&bits);
    c.nontrivial();
    c.describe(format!("tree of {n} nodes ({style}), height {}, blocks {blocks:?}", t.levels.len()));
    for &b in blocks {
        with_block!(b, check(c, &t, nodes)).map_err(|e| format!("{style}: {e}"))?;
    }
    Ok(())
}

fn history<const B: usize>(c: &mut Ctx, bits: &[bool], cap: Option<u64>) -> R {
    let mut b = match cap {
        None => {
            if c.rng.bool() {
                BpBuilder::<B>::new()
            } else {
                BpBuilder::<B>::default()
            }
        }
        Some(k) => BpBuilder::<B>::with_capacity(k),
    };
    let mut ex = 0i64;
    for &x in bits {
        if x {
            b.enter_node();
            ex += 1;
        } else {
            b.leave_node();
            ex -= 1;
        }
    }
    match b.build() {
        Err(e) => {
            c.hit("builder rejections");
            ck!(c, ex != 0, "a visit of {} steps with equally many entries and exits was rejected with surplus {e}", bits.len());
            eq!(c, e, ex, "surplus reported by the builder after {} steps", bits.len());
        }
        Ok(t) => {
            c.hit("builder acceptances");
            eq!(c, ex, 0, "a visit of {} steps with a surplus was accepted", bits.len());
            let bv: BitVec = t.clone().into();
            eq!(c, bv.len(), bits.len(), "length of the built tree");
            for (i, &x) in bits.iter().enumerate() {
                if bv.get(i) != Some(u64::from(x)) {
                    return Err(format!("built tree differs from the visit at step {i}"));
                }
            }
            let nodes: Vec<usize> = model::positions_of(bits, true);
            seq(c, "dfs_iter of the built tree", t.dfs_iter(), &nodes)?;
        }
    }
    Ok(())
}

fn builder(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 3000);
    let (mut bits, style) = gen::bits(&mut c.rng, n);
    let mode = c.rng.below(4);
    if mode == 0 {
        bits = if n == 0 { vec![] } else { gen::tree(&mut c.rng, n / 2 + 1).0 };
    } else if mode == 1 {
        // close the surplus so that the sequence balances in number, not necessarily in shape
        let ones = bits.iter().filter(|&&b| b).count() as i64;
        let mut ex = 2 * ones - bits.len() as i64;
        while ex != 0 {
            bits.push(ex < 0);
            ex -= ex.signum();
        }
        if c.rng.one_in(3) {
            let b = c.rng.bool();
            bits.push(b);
        }
    }
    c.sig_bits(&bits);
    if !bits.is_empty() {
        c.nontrivial();
    }
    c.describe(format!("builder history of {} steps ({style})", bits.len()));
    let cap = if c.rng.bool() { None } else { Some(c.rng.log_u64(14)) };
    let b = *c.rng.pick(&BLOCKS);
    with_block!(b, history(c, &bits, cap))
}

fn small(c: &mut Ctx) -> R {
    let n = 1 + c.rng.below(60);
    let bs: &[usize] = if c.rng.bool() { &BLOCKS } else { &SMALL_BLOCKS };
    one(c, n, bs, 60)
}

fn medium(c: &mut Ctx) -> R {
    let n = 1 + c.rng.below(2000);
    let bs: Vec<usize> = (0..4).map(|_| *c.rng.pick(&BLOCKS)).collect();
    one(c, n, &bs, 200)
}

fn large(c: &mut Ctx) -> R {
    let n = 1 + c.rng.log_u64(17) as usize + c.rng.below(30_000);
    let bs = [*c.rng.pick(&BLOCKS), *c.rng.pick(&[512, 1024, 128])];
    one(c, n, &bs, 400)
}

fn huge(c: &mut Ctx) -> R {
    let n = 300_000 + c.rng.below(700_000);
    let b = *c.rng.pick(&[512, 64, 1024, 16]);
    one(c, n, &[b], 1000)
}

/// more than 2^31 unmatched entries or exits
fn giant_builder(c: &mut Ctx) -> R {
    let n = if c.idx % 3 == 2 { 1u64 << 32 } else { (1 << 31) + 1 + c.rng.below64(1000) };
    let enter = c.rng.bool();
    let mut b = BpBuilder::<512>::with_capacity(n / 2);
    for _ in 0..n {
        if enter {
            b.enter_node();
        } else {
            b.leave_node();
        }
    }
    let want = if enter { n as i64 } else { -(n as i64) };
    eq!(c, b.build().err(), Some(want), "surplus after {n} {}", if enter { "entries" } else { "exits" });
    c.hit("builder histories of more than 2^31 steps");
    c.sig(n ^ u64::from(enter));
    c.nontrivial();
    c.describe(format!("builder history of {n} equal steps"));
    Ok(())
}

/// a path deeper than 2^31 with a few leaves at its end
fn giant(c: &mut Ctx) -> R {
    let d = (1usize << 31) + 1 + c.rng.below(100_000);
    let r = big::from_lengths(true, &[d + 1, 1, 1, 1, 1, d + 1]);
    let bp = BpTree::<512>::from_bit_vector(r.build());
    let leaves = [d, d + 2, d + 4];
    let mut vs = vec![0, 1, d - 1, d - 2, (1 << 31) - 1, 1 << 31, (1 << 31) + 1];
    for _ in 0..20 {
        vs.push(c.rng.below(d));
    }
    for v in vs {
        let mut pre: Vec<usize> = (v..d).take(6).collect();
        if pre.len() < 6 {
            pre.extend(leaves);
            pre.truncate(6);
        }
        let g: Vec<usize> = bp.subtree_iter(v).take(6).collect();
        eq!(c, g, pre, "start of subtree_iter({v}) in a path of {d}");
        let mut post = leaves.to_vec();
        post.extend((v..d).rev().take(5));
        let g: Vec<usize> = bp.subtree_post_iter(v).take(8).collect();
        eq!(c, g, post, "start of subtree_post_iter({v}) in a path of {d}");
        let mut ch = if v == d - 1 { leaves.to_vec() } else { vec![v + 1] };
        let g: Vec<usize> = bp.children(v).collect();
        eq!(c, g, ch.clone(), "children({v}) in a path of {d}");
        ch.reverse();
        let g: Vec<usize> = bp.rev_children(v).collect();
        eq!(c, g, ch, "rev_children({v}) in a path of {d}");
        let g: Vec<usize> = bp.dfs_iter().skip(v).take(2).collect();
        eq!(c, g, vec![v, v + 1], "dfs_iter from node {v} in a path of {d}");
    }
    let g: Vec<usize> = bp.dfs_post_iter().take(5).collect();
    eq!(c, g, vec![d, d + 2, d + 4, d - 1, d - 2], "start of dfs_post_iter in a path of {d}");
    c.hit("trees deeper than 2^31");
    c.sig(d as u64);
    c.nontrivial();
    c.describe(format!("path of {d} nodes with three leaves"));
    Ok(())
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    let n = gen::sweep(c.idx).max(1);
    let bs = [*c.rng.pick(&BLOCKS), 512];
    c.hit("lengths swept");
    one(c, n, &bs, 60)
}

/// every node of trees of more than 2^16 parentheses
fn every_position(c: &mut Ctx) -> R {
    let n = gen::dense(&mut c.rng) / 2;
    let b = if c.rng.bool() { 512 } else { *c.rng.pick(&BLOCKS) };
    c.hit("trees with every node visited");
    one(c, n, &[b], usize::MAX / 8)
}

fn main() {
    run::main(
        "C16",
        &[
            Scenario::new("every-position", 10, 200, every_position),
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 10, every_length),
            Scenario::new("giant", 1, 4, giant),
            Scenario::new("giant_builder", 1, 6, giant_builder),
            Scenario::new("builder", 20_000, 400_000, builder),
            Scenario::new("small", 4000, 100_000, small),
            Scenario::new("medium", 900, 40_000, medium),
            Scenario::new("large", 160, 4000, large),
            Scenario::new("huge", 8, 120, huge),
        ],
    );
}
