//! C29: building, copying, comparing and traversing cost time about linear in the size, measured by callgrind.
//! Run under `valgrind --tool=callgrind --instr-atstart=no --collect-atstart=no --callgrind-out-file=$VH_CG`.
use std::alloc::{GlobalAlloc, Layout, System};
use std::hint::black_box;
use vers_vecs::trees::{Tree as _, TreeBuilder as _};
use vers_vecs::{BinaryRmq, BitVec, BpBuilder, BpTree, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};
use vh::meter::{bit_content, ef_content, request, tree_bits, Meter, CT};
use vh::*;

/// an allocator that cannot grow a block where it lies: every reallocation moves the contents, word by word, so that
/// callgrind sees the work a construction causes by asking for too little room too often
struct Moving;
unsafe impl GlobalAlloc for Moving {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if q.is_null() {
            return q;
        }
        let k = l.size().min(n);
        for i in 0..k / 8 {
            q.add(8 * i).cast::<u64>().write_unaligned(p.add(8 * i).cast::<u64>().read_unaligned());
            std::hint::black_box(i);
        }
        for i in k / 8 * 8..k {
            q.add(i).write(p.add(i).read());
        }
        System.dealloc(p, l);
        q
    }
}
#[global_allocator]
static A: Moving = Moving;

fn ready(c: &mut Ctx, what: &str) -> Option<Meter> {
    c.describe(what.to_string());
    for b in what.bytes() {
        c.sig(u64::from(b));
    }
    if !Meter::on() {
        return None;
    }
    c.nontrivial();
    Some(Meter::new())
}

struct Rec {
    what: String,
    ns: usize,
    nl: usize,
}

fn count(m: &mut Meter, f: &mut dyn FnMut()) -> Result<u64, String> {
    request(CT + 4, 0);
    m.count(&mut || {})?;
    let empty = m.count(&mut || {})?;
    let n = m.count(f)?;
    request(CT + 5, 0);
    Ok(n.saturating_sub(empty))
}

/// instructions per element on the small and the large input
fn judge(c: &mut Ctx, r: &Rec, op: &str, small: u64, large: u64) -> R {
    let (s, l) = (small as f64 / r.ns as f64, large as f64 / r.nl as f64);
    c.n(1);
    c.hit("operations measured on a small and a large input");
    c.sig(small);
    if std::env::var("VH_CAL").is_ok() {
        eprintln!("CAL {} / {op}: {s:.2} -> {l:.2} ratio {:.2}", r.what, l / (3.0 * s + 4.0));
    }
    // n log n construction grows by less than a factor of two here; anything quadratic by the size ratio
    if l > 3.0 * s + 4.0 {
        return Err(format!(
            "{}: {op} executes {s:.1} instructions per element for {} elements and {l:.1} for {} elements",
            r.what, r.ns, r.nl
        ));
    }
    Ok(())
}

macro_rules! costs {
    ($c:expr, $m:expr, $r:expr, $small:expr, $large:expr, $( $name:literal => |$o:ident| $e:expr ),* $(,)?) => {{
        $(
            let s = { let $o = &$small; count($m, &mut || { black_box($e); })? };
            let l = { let $o = &$large; count($m, &mut || { black_box($e); })? };
            judge($c, $r, $name, s, l)?;
        )*
    }};
}

const NS: usize = 1 << 13;
const NL: usize = 1 << 18;

fn bits(c: &mut Ctx) -> R {
    let style = (c.idx % 6) as usize;
    let what = format!("bit vectors, content {style}");
    let Some(mut m) = ready(c, &what) else { return Ok(()) };
    struct B {
        bools: Vec<bool>,
        bytes: Vec<u8>,
        limbs: Vec<u64>,
        bv: BitVec,
        twin: BitVec,
        odd: BitVec,
        rs: RsVec,
        rs2: RsVec,
    }
    let mk = |c: &mut Ctx, n: usize| {
        let bv = bit_content(&c.rng, n, style);
        let bools: Vec<bool> = bv.iter().map(|x| x == 1).collect();
        let mut odd = BitVec::from_zeros(13);
        odd.extend_bitvec(&bv);
        B {
            bytes: bools.iter().map(|&b| u8::from(b)).collect(),
            limbs: gen::to_limbs(&bools),
            rs: RsVec::from_bit_vec(bv.clone()),
            rs2: RsVec::from_bit_vec(bv.clone()),
            twin: bv.clone(),
            odd,
            bools,
            bv,
        }
    };
    let (s, l) = (mk(c, NS), mk(c, NL));
    let r = Rec { what, ns: NS, nl: NL };
    costs!(c, &mut m, &r, s, l,
        "BitVec::from_bits" => |o| BitVec::from_bits(&o.bytes),
        "BitVec::from_bools" => |o| BitVec::from_bools(&o.bools),
        "BitVec::from_limbs" => |o| BitVec::from_limbs(&o.limbs),
        "BitVec::from_bool_iter" => |o| BitVec::from_bool_iter(o.bools.iter().copied()),
        "BitVec::pack_sequence_u64" => |o| BitVec::pack_sequence_u64(&o.limbs, 23),
        "BitVec::append one by one" => |o| { let mut v = BitVec::new(); for &b in &o.bools { v.append(b); } v },
        "BitVec::append_bits" => |o| { let mut v = BitVec::new(); for &w in &o.limbs { v.append_bits(w, 41); } v },
        "BitVec::append_word unaligned" => |o| { let mut v = BitVec::from_ones(3); for &w in &o.limbs { v.append_word(w); } v },
        "BitVec::drop_last one by one" => |o| { let mut v = o.bv.clone(); while !v.is_empty() { v.drop_last(1); } v },
        "BitVec::extend_bitvec unaligned" => |o| { let mut v = BitVec::from_ones(5); v.extend_bitvec(&o.bv); v },
        "BitVec::extend_bitvec piecemeal" => |o| { let x = BitVec::from_ones(70); let mut v = BitVec::new(); while v.len() < o.bv.len() { v.extend_bitvec(&x); } v },
        "BitVec::append_bit" => |o| { let mut v = BitVec::new(); for &b in &o.bytes { v.append_bit_u8(b); } v },
        "BitVec drop and refill" => |o| { let mut v = o.odd.clone(); for &b in &o.bools { v.drop_last(1); v.append(b); } v },
        "BitVec::split_at" => |o| o.odd.clone().split_at(77).is_ok(),
        "BitVec clone, ==" => |o| o.bv.clone() == o.twin,
        "BitVec::count_ones" => |o| o.bv.count_ones() + o.odd.count_zeros(),
        "BitVec hash" => |o| { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); o.bv.hash(&mut h); h.finish() },
        "BitVec iterate" => |o| o.bv.iter().fold(0, |a, b| a ^ b),
        "BitVec iterate backwards" => |o| o.bv.iter().rev().fold(0, |a, b| a ^ b),
        "apply_mask_xor" => |o| { let mut v = o.bv.clone(); v.apply_mask_xor(&o.twin).unwrap(); v },
        "masked count and conversion" => |o| { let x = o.bv.mask_and(&o.twin).unwrap(); x.count_ones() + x.to_bit_vec().len() as u64 },
        "RsVec::from_bit_vec" => |o| RsVec::from_bit_vec(o.bv.clone()),
        "RsVec ==" => |o| o.rs == o.rs2,
        "RsVec::full_equals" => |o| o.rs.full_equals(&o.rs2),
        "RsVec::sparse_equals<false>" => |o| o.rs.sparse_equals::<false>(&o.rs2),
        "RsVec::sparse_equals<true>" => |o| o.rs.sparse_equals::<true>(&o.rs2),
        "RsVec iterate" => |o| o.rs.iter().fold(0, |a, b| a ^ b),
        "RsVec::iter0" => |o| o.rs.iter0().fold(0, |a, b| a ^ b),
        "RsVec::iter1" => |o| o.rs.iter1().fold(0, |a, b| a ^ b),
        "RsVec::iter0 backwards" => |o| o.rs.iter0().rev().fold(0, |a, b| a ^ b),
        "RsVec::iter1 backwards" => |o| o.rs.iter1().rev().fold(0, |a, b| a ^ b),
        "RsVec::into_bit_vec" => |o| o.rs.clone().into_bit_vec(),
        "SparseRSVec::from_bitvec" => |o| SparseRSVec::from_bitvec(&o.bv),
        "SparseRSVec::from_bitvec_inverted" => |o| SparseRSVec::from_bitvec_inverted(&o.bv),
    );
    Ok(())
}

fn ef(c: &mut Ctx) -> R {
    let style = (c.idx % 10) as usize;
    let what = format!("Elias-Fano and sparse vectors, content {style}");
    let Some(mut m) = ready(c, &what) else { return Ok(()) };
    struct E {
        v: Vec<u64>,
        u: Vec<u64>,
        ef: EliasFanoVec,
        sp: SparseRSVec,
    }
    let mk = |c: &mut Ctx, n: usize| {
        let v = ef_content(&c.rng, n, style);
        let mut u = v.clone();
        u.dedup();
        E { ef: EliasFanoVec::from_slice(&v), sp: SparseRSVec::new(&u, u[u.len() - 1].saturating_add(1)), v, u }
    };
    let (ns, nl) = (1 << 11, 1 << 16);
    let (s, l) = (mk(c, ns), mk(c, nl));
    let r = Rec { what, ns, nl };
    costs!(c, &mut m, &r, s, l,
        "EliasFanoVec::from_slice" => |o| EliasFanoVec::from_slice(&o.v),
        "EliasFanoVec iterate" => |o| o.ef.iter().fold(0, |a, b| a ^ b),
        "EliasFanoVec iterate backwards" => |o| o.ef.iter().rev().fold(0, |a, b| a ^ b),
        "EliasFanoVec differences" => |o| (0..o.v.len()).fold(0, |a, i| a ^ o.ef.delta(i).unwrap_or(0)),
        "EliasFanoVec clone and consume" => |o| o.ef.clone().into_iter().fold(0, |a, b| a ^ b),
    );
    // duplicates may leave few positions: measured against the elements that remain
    let r = Rec { what: r.what, ns: s.u.len().max(64), nl: l.u.len().max(64) };
    costs!(c, &mut m, &r, s, l,
        "SparseRSVec::new" => |o| SparseRSVec::new(&o.u, o.u[o.u.len() - 1].saturating_add(1)),
        "SparseRSVec::iter1" => |o| o.sp.iter1().fold(0, |a, b| a ^ b),
    );
    Ok(())
}

fn rmq(c: &mut Ctx) -> R {
    let style = (c.idx % 4) as usize;
    let what = format!("range minimum structures, content {style}");
    let Some(mut m) = ready(c, &what) else { return Ok(()) };
    let mk = |c: &mut Ctx, n: usize| -> Vec<u64> {
        (0..n as u64)
            .map(|i| match style {
                0 => c.rng.u64(),
                1 => i,
                2 => u64::MAX - i,
                _ => 7,
            })
            .collect()
    };
    let (ns, nl) = (1 << 11, 1 << 16);
    let (s, l) = (mk(c, ns), mk(c, nl));
    let r = Rec { what, ns, nl };
    costs!(c, &mut m, &r, s, l,
        "FastRmq from an iterator" => |o| o.iter().copied().collect::<FastRmq>(),
        "BinaryRmq from an iterator" => |o| o.iter().copied().collect::<BinaryRmq>(),
        "FastRmq::from_vec" => |o| FastRmq::from_vec(o.clone()),
        "BinaryRmq::from_vec" => |o| BinaryRmq::from_vec(o.clone()),
    );
    Ok(())
}

fn tree_b<const B: usize>(c: &mut Ctx, m: &mut Meter, style: usize) -> R {
    let what = format!("BpTree<{B}>, shape {style}");
    struct T<const B: usize> {
        p: Vec<bool>,
        bv: BitVec,
        t: BpTree<B>,
        leaves: Vec<usize>,
    }
    let mk = |c: &mut Ctx, n: usize| {
        let p = tree_bits(&c.rng, n, style);
        let bv = BitVec::from_bools(&p);
        let leaves = (1..p.len()).filter(|&i| p[i - 1] && !p[i]).map(|i| i - 1).step_by(7).collect();
        T::<B> { t: BpTree::from_bit_vector(bv.clone()), bv, p, leaves }
    };
    let (ns, nl) = (1 << 12, 1 << 16);
    let (s, l) = (mk(c, ns), mk(c, nl));
    let r = Rec { what, ns, nl };
    costs!(c, m, &r, s, l,
        "BpTree::from_bit_vector" => |o| BpTree::<B>::from_bit_vector(o.bv.clone()),
        "BpBuilder" => |o| {
            let mut b = BpBuilder::<B>::with_capacity(o.p.len() as u64 / 2);
            for &x in &o.p { if x { b.enter_node() } else { b.leave_node() } }
            b.build().is_ok()
        },
        "BpBuilder without capacity" => |o| {
            let mut b = BpBuilder::<B>::new();
            for &x in &o.p { if x { b.enter_node() } else { b.leave_node() } }
            b.build().is_ok()
        },
        "BpTree clone" => |o| o.t.clone(),
        "dfs_iter" => |o| o.t.dfs_iter().fold(0, |a, b| a ^ b),
        "dfs_post_iter" => |o| o.t.dfs_post_iter().fold(0, |a, b| a ^ b),
        "subtree_iter of the root" => |o| o.t.subtree_iter(0).fold(0, |a, b| a ^ b),
        "subtree_post_iter of the root" => |o| o.t.subtree_post_iter(0).fold(0, |a, b| a ^ b),
        "children of the root" => |o| o.t.children(0).fold(0, |a, b| a ^ b),
        "size and all leaves" => |o| o.t.size() + o.leaves.iter().filter(|&&x| o.t.is_leaf(x)).count(),
    );
    Ok(())
}

fn tree(c: &mut Ctx) -> R {
    let style = (c.idx % 6) as usize;
    let Some(mut m) = ready(c, &format!("trees, shape {style}")) else { return Ok(()) };
    tree_b::<512>(c, &mut m, style)?;
    if c.idx % 2 == 0 {
        tree_b::<64>(c, &mut m, style)
    } else {
        tree_b::<2048>(c, &mut m, style)
    }
}

fn wavelet(c: &mut Ctx) -> R {
    let style = (c.idx % 4) as usize;
    let what = format!("wavelet matrices, content {style}");
    let Some(mut m) = ready(c, &what) else { return Ok(()) };
    let k = [8u16, 4, 8, 6][style];
    struct W {
        v: Vec<u64>,
        bv: BitVec,
        w: WaveletMatrix,
    }
    let mk = |c: &mut Ctx, n: usize| {
        let v: Vec<u64> = (0..n)
            .map(|i| match style {
                0 => c.rng.u64() & 255,
                1 => 9,
                2 => (i * 256 / n) as u64,
                _ => (n - 1 - i) as u64 * 64 / n as u64,
            })
            .collect();
        let bv = BitVec::pack_sequence_u64(&v, k as usize);
        W { w: WaveletMatrix::from_slice(&v, k), v, bv }
    };
    let (ns, nl) = (1 << 11, 1 << 15);
    let (s, l) = (mk(c, ns), mk(c, nl));
    let r = Rec { what, ns, nl };
    costs!(c, &mut m, &r, s, l,
        "WaveletMatrix::from_slice" => |o| WaveletMatrix::from_slice(&o.v, k),
        "WaveletMatrix::from_bit_vec" => |o| WaveletMatrix::from_bit_vec(&o.bv, k),
        "WaveletMatrix::from_slice_pc" => |o| WaveletMatrix::from_slice_pc(&o.v, k),
        "WaveletMatrix::from_bit_vec_pc" => |o| WaveletMatrix::from_bit_vec_pc(&o.bv, k),
        "WaveletMatrix clone" => |o| o.w.clone(),
        "iter" => |o| o.w.iter().fold(0, |a, b| a ^ b.len()),
        "iter_sorted" => |o| o.w.iter_sorted().fold(0, |a, b| a ^ b.len()),
        "iter_u64 backwards" => |o| o.w.iter_u64().unwrap().rev().fold(0, |a, b| a ^ b),
        "iter_u64" => |o| o.w.iter_u64().unwrap().fold(0, |a, b| a ^ b),
        "iter_sorted_u64" => |o| o.w.iter_sorted_u64().unwrap().fold(0, |a, b| a ^ b),
    );
    Ok(())
}

fn main() {
    run::main(
        "C29",
        &[
            Scenario::new("bits", 6, 24, bits),
            Scenario::new("ef", 10, 40, ef),
            Scenario::new("rmq", 4, 16, rmq),
            Scenario::new("tree", 6, 24, tree),
            Scenario::new("wavelet", 4, 16, wavelet),
        ],
    );
}
