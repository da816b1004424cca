//! C30: copies are faithful and independent, and a query's answer depends on the contents only: not on what was asked
//! before, of whom, or on where the structure lies in memory.
use vers_vecs::{BinaryRmq, BitVec, BpTree, EliasFanoVec, FastRmq, RsVec, SparseRSVec};
use vh::objects::{Obj, KINDS};
use vh::probe::Dig;
use vh::rng::Rng;
use vh::wmodel::{self, Sym};
use vh::*;

/// what an instance is made of; twins differ in a few places only and have the same size and extremes, so that the
/// same queries are asked of both
#[derive(Clone)]
enum Raw {
    Bits(Vec<bool>),
    Nums(Vec<u64>),
    Syms(Vec<Sym>, usize),
}

fn raw(r: &mut Rng, kind: usize, max: usize) -> Raw {
    let len = |r: &mut Rng, max: usize| {
        if r.one_in(4) {
            gen::sweep(r.below64(gen::SWEEP)).min(max)
        } else {
            gen::len(r, max)
        }
    };
    match kind {
        0 | 1 | 2 => {
            let n = len(r, max).max(2);
            Raw::Bits(gen::bits(r, n).0)
        }
        3 if r.one_in(4) => {
            let n = len(r, max / 4 + 4);
            Raw::Nums(gen::sorted_exact(r, n).0)
        }
        3 => Raw::Nums(gen::sorted(r, max / 8 + 4).0),
        4 | 5 => {
            let n = len(r, max / 4).max(2);
            let al = r.range(1, 64) as u32;
            Raw::Nums((0..n).map(|_| r.log_u64(al)).collect())
        }
        6 => {
            let n = len(r, max / 2);
            Raw::Bits(gen::tree(r, n + 2).0)
        }
        _ => {
            let k = wmodel::width(r);
            let n = len(r, max / 8 + 2).max(2);
            Raw::Syms(wmodel::symbols(r, n, k).0, k)
        }
    }
}

fn twin(r: &mut Rng, kind: usize, x: &Raw) -> Raw {
    let mut x = x.clone();
    for _ in 0..1 + r.below(4) {
        match &mut x {
            Raw::Bits(b) if kind == 6 => {
                // )( becomes (): still a tree, with another shape
                let i = r.below(b.len());
                if let Some(i) = (i..b.len() - 1).chain(1..i).find(|&i| !b[i] && b[i + 1] && i + 2 < b.len()) {
                    b.swap(i, i + 1);
                }
            }
            Raw::Bits(b) => {
                // keep the number of ones in half of the twins
                let (i, j) = (r.below(b.len()), r.below(b.len()));
                if r.bool() {
                    b[i] = !b[i];
                } else {
                    b.swap(i, j);
                }
            }
            Raw::Nums(v) if kind == 3 => {
                if v.len() > 2 {
                    let i = 1 + r.below(v.len() - 2);
                    v[i] = r.range64(v[i - 1], v[i + 1]);
                }
            }
            Raw::Nums(v) => {
                let (i, j) = (r.below(v.len()), r.below(v.len()));
                v.swap(i, j);
            }
            Raw::Syms(v, k) => {
                let i = r.below(v.len());
                v[i] = if r.bool() { Sym::random(r, *k) } else { v[i].add(if r.bool() { 1 } else { -1 }, *k) };
            }
        }
    }
    x
}

fn build(r: &mut Rng, kind: usize, how: usize, x: &Raw) -> Obj {
    match (x, kind) {
        (Raw::Bits(b), 0) => Obj::Bits(gen::bitvec(r, b)),
        (Raw::Bits(b), 1) => Obj::Rs(RsVec::from_bit_vec(gen::bitvec(r, b))),
        (Raw::Bits(b), 2) => Obj::Sparse(SparseRSVec::from_bitvec(&gen::bitvec(r, b))),
        (Raw::Bits(b), _) => {
            let (v, n) = (gen::bitvec(r, b), b.len());
            match how {
                0 => Obj::Tree8(BpTree::from_bit_vector(v), n, true, true),
                1 => Obj::Tree64(BpTree::from_bit_vector(v), n, true, true),
                2 => Obj::Tree512(BpTree::from_bit_vector(v), n, true, true),
                _ => Obj::Tree1024(BpTree::from_bit_vector(v), n, true, true),
            }
        }
        (Raw::Nums(v), 3) => Obj::Ef(EliasFanoVec::from_slice(v)),
        (Raw::Nums(v), 4) => Obj::Binary(BinaryRmq::from_vec(v.clone())),
        (Raw::Nums(v), _) => Obj::Fast(FastRmq::from_vec(v.clone())),
        (Raw::Syms(v, k), _) => Obj::Wavelet(wmodel::build(r, v, *k).0, *k),
    }
}

/// None: a query panicked (whether it may is another property's business, only that it always does)
fn ask(o: &Obj, seed: u64, nq: usize) -> Option<Dig> {
    run::guard(|| {
        let mut d = Dig::default();
        o.probe(&mut d, &Rng::new(seed), nq);
        d
    })
    .ok()
}

fn clone_into(a: &mut Obj, b: &Obj) {
    match (a, b) {
        (Obj::Bits(x), Obj::Bits(y)) => x.clone_from(y),
        (Obj::Rs(x), Obj::Rs(y)) => x.clone_from(y),
        (Obj::Sparse(x), Obj::Sparse(y)) => x.clone_from(y),
        (Obj::Ef(x), Obj::Ef(y)) => x.clone_from(y),
        (Obj::Binary(x), Obj::Binary(y)) => x.clone_from(y),
        (Obj::Fast(x), Obj::Fast(y)) => x.clone_from(y),
        (Obj::Tree8(x, n, ..), Obj::Tree8(y, m, ..)) => (x.clone_from(y), *n = *m).0,
        (Obj::Tree64(x, n, ..), Obj::Tree64(y, m, ..)) => (x.clone_from(y), *n = *m).0,
        (Obj::Tree512(x, n, ..), Obj::Tree512(y, m, ..)) => (x.clone_from(y), *n = *m).0,
        (Obj::Tree1024(x, n, ..), Obj::Tree1024(y, m, ..)) => (x.clone_from(y), *n = *m).0,
        (Obj::Wavelet(x, k), Obj::Wavelet(y, l)) => (x.clone_from(y), *k = *l).0,
        (x, y) => x.clone_from(y),
    }
}

/// a random walk over a few twins and places: ask, swap places, copy, rebuild in the place of another
fn walk(c: &mut Ctx, kind: usize) -> R {
    let max = match c.idx % 16 {
        0 => 40_000,
        1..=4 => 6000,
        _ => 700,
    };
    let mut r = c.rng.clone();
    let how = r.below(4);
    let base = raw(&mut r, kind, max);
    let mut raws = vec![base.clone()];
    for _ in 0..2 {
        raws.push(twin(&mut r, kind, &base));
    }
    // one that is nothing like them
    let other = raw(&mut r, kind, 300);
    raws.push(match (&base, other) {
        (Raw::Syms(..), Raw::Syms(v, k)) => Raw::Syms(v, k),
        (_, o) => o,
    });
    let seeds: Vec<u64> = (0..5).map(|_| r.u64()).collect();
    let nq = 1 + r.below(3);
    let built = run::guard(|| {
        let mut r2 = r.clone();
        raws.iter().map(|x| build(&mut r2, kind, how, x)).collect::<Vec<Obj>>()
    });
    let Ok(fresh) = built else {
        c.hit("construction panicked: nothing to ask");
        return Ok(());
    };
    // what each answers when nobody was asked before: on a thread of its own, with the instance built there
    let want: Vec<Vec<Option<Dig>>> = raws
        .iter()
        .map(|x| {
            let mut r2 = r.clone();
            std::thread::scope(|s| {
                s.spawn(|| {
                    let Ok(o) = run::guard(|| build(&mut r2, kind, how, x)) else { return vec![None; seeds.len()] };
                    seeds.iter().map(|&q| ask(&o, q, nq)).collect()
                })
                .join()
                .unwrap_or_default()
            })
        })
        .collect();
    c.describe(format!("{}: {} twins, walk", KINDS[kind], raws.len() - 1));
    c.sig(want[0][0].as_ref().map_or(0, |d| d.h));
    c.sig(want[1][0].as_ref().map_or(0, |d| d.h));
    c.nontrivial();
    c.hit(KINDS[kind]);
    if want[0] != want[1] {
        c.hit("twins told apart by the queries");
    }
    // slots: (which raw, the object)
    let mut slots: Vec<(usize, Obj)> = fresh.into_iter().enumerate().collect();
    let mut trail = String::new();
    let steps = 60;
    for step in 0..steps {
        let (i, j) = (r.below(slots.len()), r.below(slots.len()));
        match r.below(12) {
            0 => {
                slots.swap(i, j);
                trail += &format!(" swap({i},{j})");
                c.hit("moved");
            }
            1 => {
                let o = slots[i].1.clone();
                slots[i].1 = o;
                trail += &format!(" replace({i}) by its clone");
                c.hit("replaced by its clone");
            }
            2 => {
                let (id, o) = (slots[j].0, slots[j].1.clone());
                slots[i] = (id, o);
                trail += &format!(" clone({j})->{i}");
                c.hit("cloned over another");
            }
            3 => {
                if i != j {
                    let (id, src) = (slots[j].0, slots[j].1.clone());
                    clone_into(&mut slots[i].1, &src);
                    slots[i].0 = id;
                    trail += &format!(" clone_from({j})->{i}");
                    c.hit("clone_from over another");
                }
            }
            4 => {
                // the memory of one instance is given back and taken by another
                let id = r.below(raws.len());
                slots[i].1 = Obj::Bits(BitVec::new());
                slots[i] = (id, build(&mut r, kind, how, &raws[id]));
                trail += &format!(" rebuild({id})->{i}");
                c.hit("built in the place of another");
            }
            5 => {
                if let Obj::Bits(v) = &slots[i].1 {
                    // edit a copy
                    let mut w = v.clone();
                    for _ in 0..4 {
                        match r.below(4) {
                            0 => w.append_bits(r.u64(), 17),
                            1 => w.drop_last(r.below(100)),
                            2 if w.len() > 0 => w.flip_bit(r.below(w.len())),
                            _ => w.append_word(r.u64()),
                        }
                    }
                    std::hint::black_box(&w);
                    trail += &format!(" edit a clone of {i}");
                    c.hit("copy edited");
                } else if let Obj::Rs(v) = &slots[i].1 {
                    std::hint::black_box(v.clone().into_bit_vec());
                    c.hit("copy consumed");
                }
            }
            _ => {
                // ask the same of one or of several in a row
                let q = r.below(seeds.len());
                let n = 1 + r.below(slots.len());
                for s in 0..n {
                    let k = (i + s) % slots.len();
                    let got = ask(&slots[k].1, seeds[q], nq);
                    c.n(got.as_ref().map_or(1, |d| d.n));
                    trail += &format!(" ask({k},{q})");
                    let w = &want[slots[k].0][q];
                    if got != *w {
                        return Err(format!(
                            "{}: queries {q} of instance {} answered {got:?} after{trail} (step {step}), {w:?} when asked first",
                            KINDS[kind], slots[k].0
                        ));
                    }
                }
                c.hit("asked again");
            }
        }
    }
    // the same contents compare equal wherever they came from
    for a in &slots {
        for b in &slots {
            let e = match (&a.1, &b.1) {
                (Obj::Bits(x), Obj::Bits(y)) => x == y,
                (Obj::Rs(x), Obj::Rs(y)) => x == y,
                _ => continue,
            };
            let w = matches!((&raws[a.0], &raws[b.0]), (Raw::Bits(x), Raw::Bits(y)) if x == y);
            eq!(c, e, w, "equality of instances {} and {} after{trail}", a.0, b.0);
        }
    }
    Ok(())
}

/// a partly consumed iterator is not disturbed by queries, by other iterators or by its own clones
fn cursors(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = 2 + gen::len(&mut r, 3000);
    let (b, st) = gen::bits(&mut r, n);
    let bv = gen::bitvec(&mut r, &b);
    let rs = RsVec::from_bit_vec(gen::bitvec(&mut r, &b));
    let (sv, _) = gen::sorted(&mut r, 300);
    let ef = EliasFanoVec::from_slice(&sv);
    let (tb, _) = gen::tree(&mut r, 300);
    let tree = BpTree::<64>::from_bit_vector(BitVec::from_bools(&tb));
    let k = 1 + r.below(12);
    let (sy, _) = gen::symbols(&mut r, 200, k);
    let wm = vers_vecs::WaveletMatrix::from_slice(&sy, k as u16);
    c.describe(format!("cursors over {n} bits ({st}), {} numbers, {} parentheses, 200 {k}-bit symbols", sv.len(), tb.len()));
    c.sig_bits(&b);
    c.nontrivial();
    let noise = |r: &Rng| {
        let mut d = Dig::default();
        let q = Rng::new(r.u64());
        let _ = run::guard(|| match q.below(5) {
            0 => vh::probe::bitvec(&mut d, &q, &bv, 1),
            1 => vh::probe::rsvec(&mut d, &q, &rs, 1),
            2 => vh::probe::ef(&mut d, &q, &ef, 1),
            3 => vh::probe::tree(&mut d, &q, &tree, tb.len(), true, true, 1),
            _ => vh::probe::wavelet(&mut d, &q, &wm, k, 1),
        });
    };
    macro_rules! run_one {
        ($name:literal, $it:expr) => {{
            let whole: Vec<_> = $it.collect();
            let mut a = $it;
            let (mut lo, mut hi) = (0, whole.len());
            let mut copies = Vec::new();
            let back = r.bool();
            while lo < hi {
                for _ in 0..1 + r.below(whole.len() / 6 + 2) {
                    if lo >= hi {
                        break;
                    }
                    if back && r.bool() {
                        hi -= 1;
                        ck!(c, a.next_back().as_ref() == whole.get(hi), "{}: item {hi} of the disturbed cursor, from the back", $name);
                    } else {
                        ck!(c, a.next().as_ref() == whole.get(lo), "{}: item {lo} of the disturbed cursor", $name);
                        lo += 1;
                    }
                }
                noise(&r);
                if r.one_in(2) {
                    copies.push((lo, hi, a.clone()));
                }
                // use a copy up now and then
                if r.one_in(3) && !copies.is_empty() {
                    let (from, to, it) = copies.swap_remove(r.below(copies.len()));
                    ck!(c, it.collect::<Vec<_>>() == whole[from..to], "{}: a clone taken with items {from}..{to} left yields others", $name);
                    c.hit("cloned cursor used up");
                }
                if copies.len() > 40 {
                    copies.clear();
                }
            }
            ck!(c, a.next().is_none() && a.next_back().is_none(), "{}: ends with its items", $name);
            for (from, to, it) in copies {
                let got: Vec<_> = if r.bool() {
                    it.collect()
                } else {
                    let mut v: Vec<_> = it.rev().collect();
                    v.reverse();
                    v
                };
                ck!(c, got == whole[from..to], "{}: a clone taken with items {from}..{to} left yields others", $name);
            }
            c.hit("disturbed cursor finished");
        }};
    }
    run_one!("BitVec::iter", bv.iter());
    run_one!("RsVec::iter", rs.iter());
    run_one!("RsVec::iter0", rs.iter0());
    run_one!("RsVec::iter1", rs.iter1());
    run_one!("EliasFanoVec::iter", ef.iter());
    run_one!("WaveletMatrix::iter_u64", wm.iter_u64().unwrap());
    run_one!("WaveletMatrix::iter_sorted_u64", wm.iter_sorted_u64().unwrap());
    run_one!("WaveletMatrix::iter", wm.iter());
    run_one!("BitVec::into_iter", bv.clone().into_iter());
    run_one!("RsVec::into_iter1", rs.clone().into_iter1());
    run_one!("EliasFanoVec::into_iter", ef.clone().into_iter());
    // these cannot be cloned: disturb them only
    macro_rules! plain {
        ($name:literal, $it:expr) => {{
            let whole: Vec<_> = $it.collect();
            let mut a = $it;
            let mut out = Vec::new();
            while let Some(x) = a.next() {
                out.push(x);
                if r.one_in(8) {
                    noise(&r);
                }
            }
            ck!(c, out == whole, "{}: the disturbed cursor yields other items", $name);
        }};
    }
    plain!("dfs_iter", tree.dfs_iter());
    plain!("dfs_post_iter", tree.dfs_post_iter());
    plain!("children", tree.children(0));
    plain!("rev_children", tree.rev_children(0));
    plain!("subtree_iter", tree.subtree_iter(0));
    plain!("subtree_post_iter", tree.subtree_post_iter(0));
    Ok(())
}

macro_rules! kinds {
    ($($i:ident $k:expr),*) => { $(fn $i(c: &mut Ctx) -> R { walk(c, $k) })* };
}
kinds!(k0 0, k1 1, k2 2, k3 3, k4 4, k5 5, k6 6, k7 7);

fn main() {
    run::main(
        "C30",
        &[
            Scenario::new("BitVec", 1200, 20_000, k0),
            Scenario::new("RsVec", 1200, 20_000, k1),
            Scenario::new("SparseRSVec", 1200, 20_000, k2),
            Scenario::new("EliasFanoVec", 1500, 25_000, k3),
            Scenario::new("BinaryRmq", 600, 10_000, k4),
            Scenario::new("FastRmq", 800, 10_000, k5),
            Scenario::new("BpTree", 1500, 25_000, k6),
            Scenario::new("WaveletMatrix", 1000, 15_000, k7),
            Scenario::new("cursors", 1500, 20_000, cursors),
        ],
    )
}
