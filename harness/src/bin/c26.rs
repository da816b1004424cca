//! C26: instructions executed per query, measured by callgrind on structures of very different sizes.
//! Run under `valgrind --tool=callgrind --instr-atstart=no --collect-atstart=no --callgrind-out-file=$VH_CG`.
use std::hint::black_box;
use vers_vecs::trees::{IsAncestor, LevelTree, SubtreeSize, Tree};
use vers_vecs::{BinaryRmq, BitVec, BpTree, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};
use vh::meter::{bit_content, ef_content, request, tree_bits, Meter, CT};
use vh::rng::Rng;
use vh::*;

const PER_BATCH: usize = 8;

/// worst average cost per query over several batches; each batch gets queries of one style
fn worst(m: &mut Meter, batches: usize, mut q: impl FnMut(usize, usize)) -> Result<f64, String> {
    request(CT + 4, 0);
    m.count(&mut || {})?;
    let empty = m.count(&mut || {})?;
    if empty > 1000 {
        return Err(format!("harness: an empty batch counts {empty} instructions"));
    }
    let mut w = 0f64;
    for b in 0..batches {
        q(b, 0); // fault the code and the data in
        let n = m.count(&mut || {
            for i in 0..PER_BATCH {
                q(b, i);
            }
        })?;
        w = w.max(n.saturating_sub(empty) as f64 / PER_BATCH as f64);
    }
    request(CT + 5, 0);
    Ok(w)
}

/// cost of one operation on a small and on a large instance of the same kind of content
struct Cost {
    op: &'static str,
    small: f64,
    large: f64,
}

fn judge(c: &mut Ctx, what: &str, costs: &[Cost], ratio: f64, slack: f64) -> R {
    for k in costs {
        c.n(1);
        c.hit("operations measured on a small and a large structure");
        if std::env::var("VH_CAL").is_ok() {
            eprintln!("CAL {what} / {}: {:.0} -> {:.0}", k.op, k.small, k.large);
        }
        // logarithmic growth over this size ratio is below a factor of two; a linear or square-root cost is far above.
        // The slack covers work bounded by a constant that the small structure may not need yet, such as walking
        // through a whole block bit by bit.
        if k.large > 3.0 * k.small + slack {
            return Err(format!(
                "{what}: {} executes {:.0} instructions per query on the small and {:.0} on the {ratio:.0} times larger structure",
                k.op, k.small, k.large
            ));
        }
        c.sig(k.op.len() as u64 * 31 + k.small as u64);
    }
    Ok(())
}

fn ready(c: &mut Ctx, what: &str) -> Option<Meter> {
    c.describe(what.to_string());
    for b in what.bytes() {
        c.sig(u64::from(b));
    }
    if !Meter::on() {
        return None;
    }
    c.nontrivial();
    Some(Meter::new())
}

/// run all closures for a small and a large object
macro_rules! ops {
    ($m:expr, $batches:expr, $small:expr, $large:expr, $( $name:literal => |$o:ident, $b:ident, $i:ident| $e:expr ),* $(,)?) => {{
        let mut v = Vec::new();
        $(
            let s = { let $o = &$small; worst($m, $batches, |$b, $i| { black_box($e); })? };
            let l = { let $o = &$large; worst($m, $batches, |$b, $i| { black_box($e); })? };
            v.push(Cost { op: $name, small: s, large: l });
        )*
        v
    }};
}

struct Bits {
    n: usize,
    rs: RsVec,
    bv: BitVec,
    ones: usize,
    zeros: usize,
    pos: Vec<usize>,
    r0: Vec<usize>,
    r1: Vec<usize>,
}

const BATCHES: usize = 6;

/// one list of indices per batch, in styles that hit starts, ends, borders and random places
fn picks(r: &Rng, n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let n1 = n.max(1);
    for b in 0..BATCHES {
        for i in 0..PER_BATCH {
            let x = match b {
                0 => i % n1,
                1 => n1 - 1 - i % n1,
                2 => (n1 / 2 + i) % n1,
                3 => (r.below(n1 / 8192 + 1) * 8192 + 8191).min(n1 - 1),
                4 => r.below(n1),
                _ => (n1 / PER_BATCH * i + r.below(n1 / PER_BATCH + 1)).min(n1 - 1),
            };
            v.push(x);
        }
    }
    v
}


impl Bits {
    fn new(r: &Rng, n: usize, style: usize) -> Self {
        let bv = bit_content(r, n, style);
        let rs = RsVec::from_bit_vec(bv.clone());
        let (ones, zeros) = (rs.rank1(n), rs.rank0(n));
        Bits { n, pos: picks(r, n), r0: picks(r, zeros), r1: picks(r, ones), ones, zeros, rs, bv }
    }
}

fn rs(c: &mut Ctx) -> R {
    let style = (c.idx % 6) as usize;
    let Some(mut m) = ready(c, &format!("rank/select vector, content {style}")) else { return Ok(()) };
    let m = &mut m;
    let (ns, nl) = (1 << 15, 1 << 24);
    let (s, l) = (Bits::new(&c.rng, ns, style), Bits::new(&c.rng, nl, style));
    let x = |v: &[usize], b: usize, i: usize| v[b * PER_BATCH + i];
    let costs = ops!(m, BATCHES, s, l,
        "rank0" => |o, b, i| o.rs.rank0(x(&o.pos, b, i)),
        "rank1" => |o, b, i| o.rs.rank1(x(&o.pos, b, i)),
        "rank1 past the end" => |o, _b, i| o.rs.rank1(o.n + i),
        "select0" => |o, b, i| o.rs.select0(x(&o.r0, b, i)),
        "select1" => |o, b, i| o.rs.select1(x(&o.r1, b, i)),
        "select past the end" => |o, _b, i| o.rs.select1(o.ones + i) + o.rs.select0(o.zeros + i),
        "get_bits" => |o, b, i| o.rs.get_bits(x(&o.pos, b, i), 1 + 7 * i),
        "get" => |o, b, i| o.rs.get(x(&o.pos, b, i)),
        "iter0 first" => |o, _b, _i| o.rs.iter0().next(),
        "iter1 first" => |o, _b, _i| o.rs.iter1().next(),
        "iter1 last" => |o, _b, _i| o.rs.iter1().next_back(),
        "iter1.nth" => |o, b, i| o.rs.iter1().nth(x(&o.r1, b, i)),
        "iter0.nth_back" => |o, b, i| o.rs.iter0().nth_back(x(&o.r0, b, i)),
        "iter1.nth_back" => |o, b, i| o.rs.iter1().nth_back(x(&o.r1, b, i)),
        "iter0.nth" => |o, b, i| o.rs.iter0().nth(x(&o.r0, b, i)),
        "iter0 last" => |o, _b, _i| o.rs.iter0().next_back(),
        "iter.nth" => |o, b, i| o.rs.iter().nth(x(&o.pos, b, i)),
        "iter1.len" => |o, _b, _i| o.rs.iter1().count(),
        "BitVec get" => |o, b, i| o.bv.get(x(&o.pos, b, i)),
        "BitVec get_bits" => |o, b, i| o.bv.get_bits(x(&o.pos, b, i), 1 + 7 * i),
        "BitVec iter.nth" => |o, b, i| o.bv.iter().nth(x(&o.pos, b, i)),
        "BitVec iter.nth_back" => |o, b, i| o.bv.iter().nth_back(x(&o.pos, b, i)),
        "BitVec unpack_element" => |o, b, i| o.bv.unpack_element(x(&o.pos, b, i) / 64, 1 + 9 * i),
        "masked get_bits" => |o, b, i| o.bv.mask_xor(&o.bv).unwrap().get_bits(x(&o.pos, b, i), 1 + 7 * i),
    );
    judge(c, &format!("rank/select vector of {ns} and {nl} bits, content {style}"), &costs, (nl / ns) as f64, 1000.0)
}

/// edits cost the same on large vectors (amortised over many)
fn edits(c: &mut Ctx) -> R {
    let Some(mut m) = ready(c, "edits of bit vectors") else { return Ok(()) };
    let m = &mut m;
    let mut costs = Vec::new();
    let mut run = |n: usize, op: usize, r: &Rng| -> Result<f64, String> {
        let mut v = BitVec::from_zeros(n);
        // leave room so that a measured append never moves the whole vector
        for _ in 0..3 {
            v.append_word(r.u64());
        }
        let pos: Vec<usize> = (0..64).map(|_| r.below(n)).collect();
        request(CT + 4, 0);
        let k = m.count(&mut || {
            for i in 0..64 {
                match op {
                    0 => v.append(i % 2 == 0),
                    1 => v.append_bits(i as u64 * 77, 13),
                    2 => {
                        v.flip_bit(pos[i]);
                    }
                    3 => {
                        let _ = v.set(pos[i], 1);
                    }
                    _ => v.drop_last(3),
                }
            }
            black_box(&v);
        })?;
        request(CT + 5, 0);
        Ok(k as f64 / 64.0)
    };
    for (op, name) in ["append", "append_bits", "flip_bit", "set", "drop_last"].into_iter().enumerate() {
        let s = run(1 << 14, op, &c.rng)?;
        let l = run(1 << 24, op, &c.rng)?;
        costs.push(Cost { op: name, small: s, large: l });
    }
    judge(c, "bit vectors of 2^14 and 2^24 bits under edits", &costs, 1024.0, 1000.0)
}

struct Ef {
    n: usize,
    ef: EliasFanoVec,
    sp: SparseRSVec,
    at: Vec<usize>,
    vals: Vec<u64>,
    spn: usize,
}


impl Ef {
    fn new(r: &Rng, n: usize, style: usize) -> Self {
        let v = ef_content(r, n, style);
        let at = picks(r, n);
        // values asked for: stored, next to stored, inside the largest gap
        let gap = (1..n).max_by_key(|&i| v[i] - v[i - 1]).unwrap_or(0);
        let vals = at
            .iter()
            .enumerate()
            .map(|(k, &i)| match k % 8 {
                0 | 1 => v[i],
                2 => v[i].saturating_add(1),
                3 => v[i].saturating_sub(1),
                4 => v[gap].saturating_sub(1),
                5 => v[gap - 1].saturating_add(1),
                6 => v[gap - 1] + (v[gap] - v[gap - 1]) / 2,
                _ => v[0] + (v[n - 1] - v[0]) / 8 * (k as u64 % 7),
            })
            .collect();
        let mut w = v.clone();
        w.dedup();
        let sp = SparseRSVec::new(&w, w[w.len() - 1] + 1);
        Ef { n, ef: EliasFanoVec::from_slice(&v), spn: w.len(), sp, at, vals }
    }
}

fn ef(c: &mut Ctx) -> R {
    let style = (c.idx % 10) as usize;
    let Some(mut m) = ready(c, &format!("Elias-Fano and sparse vector, content {style}")) else { return Ok(()) };
    let m = &mut m;
    let (ns, nl) = (1 << 11, 1 << 19);
    let (s, l) = (Ef::new(&c.rng, ns, style), Ef::new(&c.rng, nl, style));
    let x = |b: usize, i: usize| b * PER_BATCH + i;
    let costs = ops!(m, BATCHES, s, l,
        "get" => |o, b, i| o.ef.get(o.at[x(b, i)]),
        "delta" => |o, b, i| o.ef.delta(o.at[x(b, i)]),
        "predecessor" => |o, b, i| o.ef.predecessor(o.vals[x(b, i)]),
        "successor" => |o, b, i| o.ef.successor(o.vals[x(b, i)]),
        "rank" => |o, b, i| o.ef.rank(o.vals[x(b, i)]),
        "iter.nth" => |o, b, i| o.ef.iter().nth(o.at[x(b, i)]),
        "iter.nth_back" => |o, b, i| o.ef.iter().nth_back(o.at[x(b, i)]),
        "iter.last" => |o, _b, _i| o.ef.iter().last(),
        "iter.max" => |o, _b, _i| o.ef.iter().max(),
        "iter.count" => |o, _b, _i| o.ef.iter().count() + o.n,
        "get past the end" => |o, _b, i| o.ef.get(o.n + i),
        "rank outside" => |o, _b, i| o.ef.rank(i as u64) + o.ef.rank(u64::MAX - i as u64),
        "sparse iter1 first" => |o, _b, _i| o.sp.iter1().next(),
        "sparse select1 past the end" => |o, _b, i| o.sp.select1(o.spn + i),
        "sparse rank1" => |o, b, i| o.sp.rank1(o.vals[x(b, i)]),
        "sparse rank0" => |o, b, i| o.sp.rank0(o.vals[x(b, i)]),
        "sparse get" => |o, b, i| o.sp.get(o.vals[x(b, i)]),
        "sparse select1" => |o, b, i| o.sp.select1(o.at[x(b, i)] % o.spn),
    );
    judge(c, &format!("Elias-Fano and sparse vectors of {ns} and {nl} elements, content {style}"), &costs, (nl / ns) as f64, 1000.0)
}

struct Rmq<T> {
    t: T,
    ab: Vec<(usize, usize)>,
}

fn rmq(c: &mut Ctx) -> R {
    let style = (c.idx % 5) as usize;
    let Some(mut m) = ready(c, &format!("range minimum, content {style}")) else { return Ok(()) };
    let m = &mut m;
    let make = |r: &Rng, n: usize| -> (Vec<u64>, Vec<(usize, usize)>) {
        let v = (0..n)
            .map(|i| match style {
                0 => r.u64(),
                1 => i as u64,
                2 => (n - i) as u64,
                3 => 5,
                _ => (i % 128) as u64,
            })
            .collect();
        let mut ab = Vec::new();
        for b in 0..BATCHES {
            for i in 0..PER_BATCH {
                let a = r.below(n);
                let (x, y) = match b {
                    0 => (i, n - 1 - i),
                    1 => (a / 128 * 128, (a / 128 * 128 + 127).min(n - 1)),
                    2 => (a.min(n - 300), a.min(n - 300) + 130 + i),
                    3 => (127, n - 128),
                    4 => (a, a),
                    _ => {
                        let z = r.below(n);
                        (a.min(z), a.max(z))
                    }
                };
                ab.push((x, y));
            }
        }
        (v, ab)
    };
    let (ns, nl) = (1 << 10, 1 << 19);
    let mk = |r: &Rng, n| {
        let (v, ab) = make(r, n);
        Rmq { t: FastRmq::from_vec(v), ab }
    };
    let (s, l) = (mk(&c.rng, ns), mk(&c.rng, nl));
    let mut costs = ops!(m, BATCHES, s, l,
        "FastRmq::range_min" => |o, b, i| { let (x, y) = o.ab[b * PER_BATCH + i]; o.t.range_min(x, y) },
        "FastRmq::range_min_with_range" => |o, b, i| { let (x, y) = o.ab[b * PER_BATCH + i]; o.t.range_min_with_range(x..=y) },
    );
    let nb = 1 << 17;
    let mk = |r: &Rng, n| {
        let (v, ab) = make(r, n);
        Rmq { t: BinaryRmq::from_vec(v), ab }
    };
    let (s, l) = (mk(&c.rng, ns), mk(&c.rng, nb));
    costs.extend(ops!(m, BATCHES, s, l,
        "BinaryRmq::range_min" => |o, b, i| { let (x, y) = o.ab[b * PER_BATCH + i]; o.t.range_min(x, y) },
        "BinaryRmq::range_min_with_range" => |o, b, i| { let (x, y) = o.ab[b * PER_BATCH + i]; o.t.range_min_with_range(x..=y) },
    ));
    judge(c, &format!("range minimum over {ns} and {nl} (BinaryRmq {nb}) values, content {style}"), &costs, (nl / ns) as f64, 1000.0)
}

struct Tr<const B: usize> {
    t: BpTree<B>,
    nodes: Vec<usize>,
    other: Vec<usize>,
    len: usize,
}


impl<const B: usize> Tr<B> {
    fn new(r: &Rng, n: usize, style: usize) -> Self {
        let bits = tree_bits(r, n, style);
        let t = BpTree::from_bit_vector(BitVec::from_bools(&bits));
        let sz = t.size();
        let nodes = picks(r, sz).into_iter().map(|i| t.node_handle(i)).collect();
        let other = picks(r, sz).into_iter().rev().map(|i| t.node_handle(i)).collect();
        Tr { t, nodes, other, len: bits.len() }
    }
}

fn tree_b<const B: usize>(c: &mut Ctx, m: &mut Meter, style: usize, ns: usize, nl: usize) -> R {
    let (s, l) = (Tr::<B>::new(&c.rng, ns, style), Tr::<B>::new(&c.rng, nl, style));
    let x = |b: usize, i: usize| b * PER_BATCH + i;
    let costs = ops!(m, BATCHES, s, l,
        "close" => |o, b, i| o.t.close(o.nodes[x(b, i)]),
        "open" => |o, b, i| o.t.close(o.nodes[x(b, i)]).and_then(|k| o.t.open(k)),
        "enclose" => |o, b, i| o.t.enclose(o.nodes[x(b, i)]),
        "parent" => |o, b, i| o.t.parent(o.nodes[x(b, i)]),
        "first_child" => |o, b, i| o.t.first_child(o.nodes[x(b, i)]),
        "last_child" => |o, b, i| o.t.last_child(o.nodes[x(b, i)]),
        "next_sibling" => |o, b, i| o.t.next_sibling(o.nodes[x(b, i)]),
        "previous_sibling" => |o, b, i| o.t.previous_sibling(o.nodes[x(b, i)]),
        "depth" => |o, b, i| o.t.depth(o.nodes[x(b, i)]),
        "excess" => |o, b, i| o.t.excess(o.nodes[x(b, i)]),
        "is_leaf" => |o, b, i| o.t.is_leaf(o.nodes[x(b, i)]),
        "node_index" => |o, b, i| o.t.node_index(o.nodes[x(b, i)]),
        "node_handle" => |o, b, i| o.t.node_handle(o.t.node_index(o.nodes[x(b, i)])),
        "subtree_size" => |o, b, i| o.t.subtree_size(o.nodes[x(b, i)]),
        "is_ancestor" => |o, b, i| o.t.is_ancestor(o.nodes[x(b, i)], o.other[x(b, i)]),
        "level_ancestor" => |o, b, i| o.t.level_ancestor(o.nodes[x(b, i)], o.t.depth(o.nodes[x(b, i)]) / 2),
        "level_next" => |o, b, i| o.t.level_next(o.nodes[x(b, i)]),
        "level_prev" => |o, b, i| o.t.level_prev(o.nodes[x(b, i)]),
        "level_leftmost" => |o, b, i| o.t.level_leftmost(o.t.depth(o.nodes[x(b, i)])),
        "level_rightmost" => |o, b, i| o.t.level_rightmost(o.t.depth(o.nodes[x(b, i)])),
        "fwd_search for nothing" => |o, b, i| o.t.fwd_search(o.nodes[x(b, i)], o.len as i64 + 5),
        "bwd_search for nothing" => |o, b, i| o.t.bwd_search(o.nodes[x(b, i)], -(o.len as i64) - 5),
        "fwd_search" => |o, b, i| o.t.fwd_search(o.nodes[x(b, i)], -1 - (i as i64)),
        "bwd_search" => |o, b, i| o.t.bwd_search(o.nodes[x(b, i)], -1 - (i as i64)),
        "size" => |o, _b, _i| o.t.size(),
        "root" => |o, _b, _i| o.t.root(),
        "level_ancestor beyond the root" => |o, b, i| o.t.level_ancestor(o.nodes[x(b, i)], o.t.depth(o.nodes[x(b, i)]) + 1),
        "level_leftmost of no level" => |o, _b, i| (o.t.level_leftmost(o.len as u64 + i as u64), o.t.level_rightmost(o.len as u64 + i as u64)),
        "fwd_search upwards" => |o, b, i| o.t.fwd_search(o.nodes[x(b, i)], 1 + i as i64),
        "bwd_search upwards" => |o, b, i| o.t.bwd_search(o.nodes[x(b, i)], 1 + i as i64),
        "fwd_search far" => |o, b, i| o.t.fwd_search(o.nodes[x(b, i)], -(o.t.depth(o.nodes[x(b, i)]) as i64)),
        "rev_children first" => |o, b, i| o.t.rev_children(o.nodes[x(b, i)]).next(),
        "dfs_iter first" => |o, _b, _i| o.t.dfs_iter().next(),
        "children first" => |o, b, i| o.t.children(o.nodes[x(b, i)]).next(),
        "subtree_iter first" => |o, b, i| o.t.subtree_iter(o.nodes[x(b, i)]).next(),
    );
    judge(c, &format!("BpTree<{B}> of {ns} and {nl} nodes, shape {style}"), &costs, (nl / ns) as f64, 1000.0 + 24.0 * B as f64)
}

fn tree(c: &mut Ctx) -> R {
    let style = (c.idx % 6) as usize;
    let Some(mut m) = ready(c, &format!("trees, shape {style}")) else { return Ok(()) };
    tree_b::<512>(c, &mut m, style, 1 << 13, 1 << 20)?;
    tree_b::<64>(c, &mut m, style, 1 << 12, 1 << 18)
}

struct Wm {
    w: WaveletMatrix,
    k: usize,
    at: Vec<usize>,
    sy: Vec<u64>,
    sb: Vec<BitVec>,
    rg: Vec<(usize, usize)>,
}

fn wavelet(c: &mut Ctx) -> R {
    let style = (c.idx % 8) as usize;
    let Some(mut m) = ready(c, &format!("wavelet matrix, content {style}")) else { return Ok(()) };
    let m = &mut m;
    let k = 6;
    let make = |r: &Rng, n: usize| {
        let v: Vec<u64> = (0..n)
            .map(|i| match style {
                0 => r.below64(64),
                1 => 21,
                2 => (i * 64 / n) as u64,
                // few distinct symbols with gaps between them: neighbour queries have to turn back to an earlier prefix
                4 => if i % 2 == 0 { r.below64(32) } else { 63 },
                5 => if i % 2 == 0 { 32 + r.below64(32) } else { 0 },
                6 => if i + 7 > n || i < 7 { [0, 16, 31, 32, 47, 63][i % 6] } else { *r.pick(&[7, 56]) },
                7 => *r.pick(&[0, 7, 8, 23, 40, 48, 63]),
                _ => {
                    if i + 20 > n {
                        r.below64(64)
                    } else {
                        63
                    }
                }
            })
            .collect();
        let w = WaveletMatrix::from_slice_pc(&v, k as u16);
        let at = picks(r, n);
        let sy = at.iter().enumerate().map(|(j, &i)| match j % 6 {
            0 | 3 => r.below64(64),
            1 => (v[i] + 1) & 63,
            2 => v[i].saturating_sub(1),
            _ => v[i],
        }).collect::<Vec<u64>>();
        let sb = sy.iter().map(|&y| BitVec::pack_sequence_u64(&[y], k)).collect();
        let rg = at.iter().map(|&a| {
            let b = r.below(n);
            (a.min(b), a.max(b) + 1)
        }).collect();
        Wm { w, k, at, sy, sb, rg }
    };
    let (ns, nl) = (1 << 11, 1 << 18);
    let (s, l) = (make(&c.rng, ns), make(&c.rng, nl));
    let x = |b: usize, i: usize| b * PER_BATCH + i;
    let costs = ops!(m, BATCHES, s, l,
        "get_u64" => |o, b, i| o.w.get_u64(o.at[x(b, i)]),
        "get_value" => |o, b, i| o.w.get_value(o.at[x(b, i)]).map(|v| v.len() + o.k),
        "get_sorted_u64" => |o, b, i| o.w.get_sorted_u64(o.at[x(b, i)]),
        "rank_u64" => |o, b, i| o.w.rank_u64(o.at[x(b, i)], o.sy[x(b, i)]),
        "rank_range_u64" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.rank_range_u64(p..q, o.sy[x(b, i)]) },
        "select_u64" => |o, b, i| o.w.select_u64(o.at[x(b, i)] / 64, o.sy[x(b, i)]),
        "select_offset_u64" => |o, b, i| o.w.select_offset_u64(o.at[x(b, i)], 3, o.sy[x(b, i)]),
        "quantile_u64" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.quantile_u64(p..q, (q - p) / 2) },
        "range_min_u64" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.range_min_u64(p..q) },
        "range_max_u64" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.range_max_u64(p..q) },
        "range_median_u64" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.range_median_u64(p..q) },
        "predecessor_u64" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.predecessor_u64(p..q, o.sy[x(b, i)]) },
        "successor_u64" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.successor_u64(p..q, o.sy[x(b, i)]) },
        "rank" => |o, b, i| o.w.rank(o.at[x(b, i)], &o.sb[x(b, i)]),
        "select" => |o, b, i| o.w.select(o.at[x(b, i)] / 64, &o.sb[x(b, i)]),
        "select_offset" => |o, b, i| o.w.select_offset(o.at[x(b, i)], 3, &o.sb[x(b, i)]),
        "quantile" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.quantile(p..q, (q - p) / 3) },
        "predecessor" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.predecessor(p..q, &o.sb[x(b, i)]) },
        "successor" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.successor(p..q, &o.sb[x(b, i)]) },
        "get_sorted" => |o, b, i| o.w.get_sorted(o.at[x(b, i)]),
        "rank_range" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.rank_range(p..q, &o.sb[x(b, i)]) },
        "rank_offset_u64" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.rank_offset_u64(p, q, o.sy[x(b, i)]) },
        "range_min" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.range_min(p..q) },
        "range_max" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.range_max(p..q) },
        "range_median" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.range_median(p..q) },
        "quantile_u64 of the largest" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.quantile_u64(p..q, q - p - 1) },
        "select_u64 of a missing occurrence" => |o, b, i| o.w.select_u64(usize::MAX / 2, o.sy[x(b, i)]),
        "iter.nth_back" => |o, b, i| o.w.iter().nth_back(o.at[x(b, i)]),
        "iter_u64.nth" => |o, b, i| o.w.iter_u64().unwrap().nth(o.at[x(b, i)]),
        "iter_sorted_u64.nth_back" => |o, b, i| o.w.iter_sorted_u64().unwrap().nth_back(o.at[x(b, i)]),
    );
    judge(c, &format!("wavelet matrix of {ns} and {nl} symbols, content {style}"), &costs, (nl / ns) as f64, 1000.0)
}

/// cost of a wavelet query is proportional to the symbol width
fn widths(c: &mut Ctx) -> R {
    let Some(mut m) = ready(c, "wavelet matrix, symbol width") else { return Ok(()) };
    let m = &mut m;
    let make = |r: &Rng, k: usize| {
        let n = 3000;
        let mask = if k == 64 { u64::MAX } else { (1 << k) - 1 };
        let v: Vec<u64> = (0..n).map(|_| r.u64() & mask).collect();
        let w = WaveletMatrix::from_slice(&v, k as u16);
        let at = picks(r, n);
        let sy = at.iter().map(|&i| v[i] ^ (i as u64 & 1)).collect();
        let rg = at.iter().map(|&a| (a / 2, n)).collect();
        Wm { w, k, at, sy, sb: Vec::new(), rg }
    };
    let (s, l) = (make(&c.rng, 8), make(&c.rng, 64));
    let x = |b: usize, i: usize| b * PER_BATCH + i;
    let costs = ops!(m, BATCHES, s, l,
        "get_u64" => |o, b, i| o.w.get_u64(o.at[x(b, i)]),
        "rank_u64" => |o, b, i| o.w.rank_u64(o.at[x(b, i)], o.sy[x(b, i)]),
        "select_u64" => |o, b, i| o.w.select_u64(0, o.sy[x(b, i)]),
        "quantile_u64" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.quantile_u64(p..q, (q - p) / 2) },
        "range_median_u64" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.range_median_u64(p..q) },
        "predecessor_u64" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.predecessor_u64(p..q, o.sy[x(b, i)]) },
        "successor_u64" => |o, b, i| { let (p, q) = o.rg[x(b, i)]; o.w.successor_u64(p..q, o.sy[x(b, i)]) },
    );
    for k in &costs {
        c.n(1);
        if std::env::var("VH_CAL").is_ok() {
            eprintln!("CAL width 8 -> 64 / {}: {:.0} -> {:.0}", k.op, k.small, k.large);
        }
        if k.large > 8.0 * 2.0 * k.small + 600.0 {
            return Err(format!("wavelet matrix: {} executes {:.0} instructions for 8-bit and {:.0} for 64-bit symbols", k.op, k.small, k.large));
        }
    }
    Ok(())
}

fn main() {
    run::main(
        "C26",
        &[
            Scenario::new("rs", 6, 24, rs),
            Scenario::new("edits", 1, 4, edits),
            Scenario::new("ef", 10, 40, ef),
            Scenario::new("rmq", 5, 20, rmq),
            Scenario::new("tree", 6, 24, tree),
            Scenario::new("wavelet", 8, 24, wavelet),
            Scenario::new("widths", 1, 4, widths),
        ],
    );
}
