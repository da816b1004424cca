//! C14: tree navigation equals the navigation of the encoded tree.
use vers_vecs::trees::{Tree as _, TreeBuilder};
use vers_vecs::{BpBuilder, BpTree};
use vh::treemodel::{opt, Profile, Tree, BLOCKS, SMALL_BLOCKS};
use vh::*;

fn build<const B: usize>(c: &mut Ctx, bits: &[bool]) -> Result<BpTree<B>, String> {
    if c.rng.one_in(3) {
        c.hit("built by the builder");
        let mut b = if c.rng.bool() { BpBuilder::<B>::new() } else { BpBuilder::<B>::with_capacity(c.rng.log_u64(12)) };
        for &x in bits {
            if x {
                b.enter_node();
            } else {
                b.leave_node();
            }
        }
        b.build().map_err(|e| format!("builder rejects a balanced visit with surplus {e}"))
    } else {
        c.hit("built from a bit vector");
        let bv = gen::bitvec(&mut c.rng, bits);
        Ok(if c.rng.bool() { BpTree::<B>::from_bit_vector(bv) } else { BpTree::<B>::from(bv) })
    }
}

fn check<const B: usize>(c: &mut Ctx, t: &Tree, nodes: usize) -> R {
    let bp = build::<B>(c, &t.bits)?;
    let n = t.nodes.len();
    let len = t.bits.len();
    eq!(c, (bp.size(), bp.is_empty()), (n, n == 0), "size, block {B}");
    eq!(c, bp.root(), if n == 0 { None } else { Some(0) }, "root, block {B}");
    let p = Profile::new(&t.bits);
    let all = len <= 4 * nodes;
    for i in 0..(if all { len } else { 2 * nodes }) {
        let i = if all { i } else { c.rng.below(len) };
        let g = bp.excess(i);
        if g != p.e[i + 1] {
            return Err(format!("excess({i}), block {B}: got {g}, expected {}", p.e[i + 1]));
        }
    }
    c.n(len.min(2 * nodes) as u64);
    for i in [len, len + 1, len + 700, usize::MAX] {
        eq!(c, bp.excess(i), p.e[len], "excess beyond the end ({i}), block {B}");
    }
    let sample = t.sample(&mut c.rng, nodes);
    for &v in &sample {
        let m = t.mate[v];
        let g = (bp.close(v), bp.open(m), bp.enclose(v), bp.enclose(m));
        let w = (Some(m), Some(v), opt(t.parent[v]), opt(t.parent[v]));
        if g != w {
            return Err(format!("close/open/enclose(open)/enclose(close) of node {v}..{m} of {len}, block {B}: got {g:?}, expected {w:?}"));
        }
        let g = (bp.parent(v), bp.first_child(v), bp.last_child(v), bp.next_sibling(v), bp.previous_sibling(v));
        let w = (opt(t.parent[v]), opt(t.first[v]), opt(t.last[v]), opt(t.next[v]), opt(t.prev[v]));
        if g != w {
            return Err(format!(
                "parent/first_child/last_child/next_sibling/previous_sibling of node {v} of {len}, block {B}: got {g:?}, expected {w:?}"
            ));
        }
        let g = (bp.is_leaf(v), bp.depth(v), bp.node_index(v), bp.node_handle(t.index[v]));
        let w = (t.first[v] == treemodel::NONE, t.depth[v] as u64, t.index[v], v);
        if g != w {
            return Err(format!("is_leaf/depth/node_index/node_handle of node {v} of {len}, block {B}: got {g:?}, expected {w:?}"));
        }
        if m - v > B {
            c.hit("matching parenthesis in another block");
        }
    }
    c.n(13 * sample.len() as u64);
    c.hit_n("nodes navigated", sample.len() as u64);
    Ok(())
}

fn one(c: &mut Ctx, n: usize, blocks: &[usize], nodes: usize) -> R {
    let (bits, style) = gen::tree(&mut c.rng, n);
    let t = Tree::new(&bits);
    c.sig_bits(&bits);
    c.nontrivial();
    c.describe(format!("tree of {n} nodes ({style}), height {}, blocks {blocks:?}", t.levels.len()));
    for &b in blocks {
        with_block!(b, check(c, &t, nodes)).map_err(|e| format!("{style}: {e}"))?;
    }
    Ok(())
}

fn enumerated(c: &mut Ctx) -> R {
    // all balanced single-root sequences of up to 8 nodes, by index; the remaining indices repeat with new blocks
    let total: u64 = 1 + 1 + 2 + 5 + 14 + 42 + 132 + 429;
    let mut k = c.idx % total;
    let mut n = 1;
    for cat in [1u64, 1, 2, 5, 14, 42, 132, 429] {
        if k < cat {
            break;
        }
        k -= cat;
        n += 1;
    }
    let mut bits = vec![true];
    bits.extend(unrank(n - 1, k));
    bits.push(false);
    let t = Tree::new(&bits);
    c.sig_bits(&bits);
    c.nontrivial();
    c.describe(format!("tree {:?}", bits.iter().map(|&b| if b { '(' } else { ')' }).collect::<String>()));
    for b in SMALL_BLOCKS {
        with_block!(b, check(c, &t, 100))?;
    }
    if c.idx == 0 {
        let t = Tree::new(&[]);
        for b in BLOCKS {
            with_block!(b, check(c, &t, 100))?;
        }
        c.hit("empty tree");
    }
    Ok(())
}

/// the k-th balanced sequence of n pairs
fn unrank(n: usize, mut k: u64) -> Vec<bool> {
    // ways[o][c]: completions with o opens and c closes left
    let mut ways = vec![vec![0u64; n + 1]; n + 1];
    for o in 0..=n {
        for cl in o..=n {
            ways[o][cl] = if o == 0 { 1 } else { ways[o - 1][cl] + if cl > o { ways[o][cl - 1] } else { 0 } };
        }
    }
    let (mut o, mut cl) = (n, n);
    let mut v = Vec::new();
    while o + cl > 0 {
        let w = if o > 0 { ways[o - 1][cl] } else { 0 };
        if o > 0 && k < w {
            v.push(true);
            o -= 1;
        } else {
            k -= w;
            v.push(false);
            cl -= 1;
        }
    }
    v
}

fn small(c: &mut Ctx) -> R {
    let n = 1 + c.rng.below(60);
    one(c, n, &BLOCKS, 100)
}

fn medium(c: &mut Ctx) -> R {
    let n = 1 + c.rng.below(2000);
    let bs: Vec<usize> = (0..5).map(|_| *c.rng.pick(&BLOCKS)).collect();
    one(c, n, &bs, 600)
}

fn large(c: &mut Ctx) -> R {
    let n = 1 + c.rng.log_u64(17) as usize + c.rng.below(30_000);
    let bs = [*c.rng.pick(&BLOCKS), 512, *c.rng.pick(&[512, 1024, 128])];
    one(c, n, &bs, 1500)
}

fn huge(c: &mut Ctx) -> R {
    let n = 400_000 + c.rng.below(1_500_000);
    let b = *c.rng.pick(&[512, 64, 1024, 16]);
    one(c, n, &[b], 4000)
}

/// a path deeper than 2^31 with a few leaves at its end
fn giant(c: &mut Ctx) -> R {
    let d = (1usize << 31) + 1 + c.rng.below(100_000);
    let r = big::from_lengths(true, &[d + 1, 1, 1, 1, 1, d + 1]);
    let bp = BpTree::<512>::from_bit_vector(r.build());
    let n = d + 3;
    eq!(c, (bp.size(), bp.root()), (n, Some(0)), "size and root of a deep path");
    let mut ps = vec![0, 1, 2, d - 1, d - 2, d / 2, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 511, 512, 513];
    for _ in 0..300 {
        ps.push(c.rng.below(d));
    }
    for v in ps {
        let m = r.len - 1 - v;
        let parent = v.checked_sub(1);
        let g = (bp.close(v), bp.open(m), bp.enclose(v), bp.enclose(m), bp.parent(v));
        eq!(c, g, (Some(m), Some(v), parent, parent, parent), "close/open/enclose/enclose/parent of depth {v} of {d}");
        let last = if v == d - 1 { d + 4 } else { v + 1 };
        let g = (bp.first_child(v), bp.last_child(v), bp.next_sibling(v), bp.previous_sibling(v));
        eq!(c, g, (Some(v + 1), Some(last), None, None), "children and siblings of depth {v} of {d}");
        let g = (bp.is_leaf(v), bp.depth(v), bp.node_index(v), bp.node_handle(v), bp.excess(v), bp.excess(m));
        eq!(c, g, (false, v as u64, v, v, v as i64 + 1, v as i64), "leaf/depth/index/handle/excess of depth {v} of {d}");
    }
    for (k, v) in [d, d + 2, d + 4].into_iter().enumerate() {
        let g = (bp.is_leaf(v), bp.depth(v), bp.node_index(v), bp.node_handle(d + k), bp.parent(v));
        eq!(c, g, (true, d as u64, d + k, v, Some(d - 1)), "leaf {k} under depth {d}");
        let g = (bp.next_sibling(v), bp.previous_sibling(v));
        eq!(c, g, (if k < 2 { Some(v + 2) } else { None }, if k > 0 { Some(v - 2) } else { None }), "siblings of leaf {k}");
    }
    c.hit("trees deeper than 2^31");
    c.sig(d as u64);
    c.nontrivial();
    c.describe(format!("path of {d} nodes with three leaves"));
    Ok(())
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    let n = gen::sweep(c.idx).max(1);
    let bs = [*c.rng.pick(&BLOCKS), 512];
    c.hit("lengths swept");
    one(c, n, &bs, 200)
}

/// every node of trees of more than 2^16 parentheses
fn every_position(c: &mut Ctx) -> R {
    let n = gen::dense(&mut c.rng) / 1;
    let b = if c.rng.bool() { 512 } else { *c.rng.pick(&BLOCKS) };
    c.hit("trees with every node visited");
    one(c, n, &[b], usize::MAX / 8)
}

fn main() {
    run::main(
        "C14",
        &[
            Scenario::new("every-position", 10, 200, every_position),
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 10, every_length),
            Scenario::new("giant", 1, 3, giant),
            Scenario::new("enumerated", 626, 5000, enumerated),
            Scenario::new("small", 8000, 200_000, small),
            Scenario::new("medium", 3000, 60_000, medium),
            Scenario::new("large", 240, 6000, large),
            Scenario::new("huge", 8, 160, huge),
        ],
    );
}
