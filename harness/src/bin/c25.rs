//! C25: heap sizes are what the allocator really handed out, and stay in the documented space class.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use vers_vecs::{BinaryRmq, BitVec, BpTree, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};
use vh::objects::{Obj, KINDS};
use vh::probe::Dig;
use vh::*;

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
thread_local! {
    static MINE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    /// highest number of live bytes since the last reset
    static PEAK: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    /// allocations and reallocations so far
    static CALLS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
fn count(d: i64) {
    LIVE.fetch_add(d, Relaxed);
    let _ = MINE.try_with(|m| {
        m.set(m.get() + d);
        let _ = PEAK.try_with(|p| p.set(p.get().max(m.get())));
    });
}
fn called() {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        called();
        let p = System.alloc(l);
        if !p.is_null() {
            count(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        called();
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            count(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        count(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        called();
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            count(n as i64 - l.size() as i64);
        }
        q
    }
}
#[global_allocator]
static A: Counting = Counting;

/// bytes currently allocated by this thread
fn live() -> i64 {
    MINE.with(std::cell::Cell::get)
}

/// result of `f`, number of (re)allocations it made, and by how much it raised the number of live bytes at its peak
fn watch<T>(f: impl FnOnce() -> T) -> (T, u64, i64) {
    let (a, n) = (live(), CALLS.with(std::cell::Cell::get));
    PEAK.with(|p| p.set(a));
    let t = f();
    (t, CALLS.with(std::cell::Cell::get) - n, PEAK.with(std::cell::Cell::get) - a)
}

/// bytes a clone of `x` occupies (clones have no spare capacity)
fn exact<T: Clone>(x: &T) -> (T, i64) {
    let a = live();
    let y = x.clone();
    let b = live();
    (y, b - a)
}

fn log2c(n: usize) -> f64 {
    (n.max(2) as f64).log2().ceil()
}

/// rank/select overhead: 28 bits per 512, plus partial blocks at the end
const RS: f64 = 1.0 + 28.0 / 512.0;

/// what the optional mem_dbg support says (when built with it)
#[cfg(feature = "memdbg")]
trait Sized2: mem_dbg::MemSize {}
#[cfg(feature = "memdbg")]
impl<T: mem_dbg::MemSize> Sized2 for T {}
#[cfg(not(feature = "memdbg"))]
trait Sized2 {}
#[cfg(not(feature = "memdbg"))]
impl<T> Sized2 for T {}

#[cfg(feature = "memdbg")]
fn third_party<T: Sized2>(c: &mut Ctx, what: &str, x: &T, reported: usize, orig: Option<i64>) -> R {
    use mem_dbg::SizeFlags;
    let own = std::mem::size_of::<T>();
    eq!(c, x.mem_size(SizeFlags::default()), own + reported, "{what}: mem_dbg size without spare capacity");
    if let Some(orig) = orig {
        eq!(c, x.mem_size(SizeFlags::CAPACITY) as i64, own as i64 + orig, "{what}: mem_dbg size with capacity against the allocator");
    }
    c.hit("sizes reported through mem_dbg");
    Ok(())
}
#[cfg(not(feature = "memdbg"))]
fn third_party<T: Sized2>(_: &mut Ctx, _: &str, _: &T, _: usize, _: Option<i64>) -> R {
    Ok(())
}

fn report<T: Clone + Sized2>(c: &mut Ctx, what: &str, x: &T, reported: usize, orig: i64, bound_bytes: f64, spare: f64) -> R {
    let (y, real) = exact(x);
    drop(y);
    eq!(c, reported as i64, real, "{what}: reported heap size against what the allocator handed out for a copy without spare capacity");
    ck!(c, orig >= reported as i64, "{what}: reports {reported} bytes but only {orig} were allocated");
    ck!(c, reported as f64 <= bound_bytes, "{what}: {reported} bytes exceed the documented space class ({bound_bytes:.0} bytes)");
    if spare > 0.0 {
        ck!(c, orig as f64 <= reported as f64 * spare + 512.0, "{what}: {orig} bytes allocated for {reported} bytes in use");
    }
    third_party(c, what, x, reported, Some(orig))?;
    if std::env::var("VH_CAL").is_ok() && reported > 4000 {
        eprintln!("CAL {} {:.4} {:.4}", what.split(' ').next().unwrap(), reported as f64 / bound_bytes, orig as f64 / reported as f64);
    }
    Ok(())
}

fn size(c: &mut Ctx) -> usize {
    match c.rng.below(12) {
        0 => c.rng.below(4),
        1 => 64 * c.rng.below(40) + c.rng.below(3),
        2 => 512 * c.rng.below(40) + c.rng.below(3),
        3 => (8192 * (1 + c.rng.below(12)) + c.rng.below(3)).saturating_sub(1),
        4 => c.rng.below(400_000),
        5 => (1 << c.rng.range(2, 17)) + c.rng.below(3) - 1,
        _ => c.rng.below(20_000),
    }
}

fn bits_case(c: &mut Ctx) -> R {
    let n = size(c);
    let (m, st) = gen::bits(&mut c.rng, n);
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("{n} bits {st}"));
    let a = live();
    let bv = gen::bitvec(&mut c.rng, &m);
    let orig = live() - a;
    let raw = (n.div_ceil(64) * 8) as f64;
    // the edit history may leave spare capacity, but no limb in use beyond the bits
    report(c, &format!("BitVec of {n} bits"), &bv, bv.heap_size(), orig, raw + 8.0, 0.0)?;
    c.hit("BitVec");
    // grown bit by bit or word by word: spare capacity stays within a doubling
    let a = live();
    let mut g = BitVec::new();
    let mut i = 0;
    while i < n {
        if c.rng.bool() || n - i < 64 {
            g.append(m[i]);
            i += 1;
        } else {
            let w = 1 + c.rng.below(64);
            g.append_bits(model::window(&m, i, w), w);
            i += w;
        }
    }
    let orig = live() - a;
    report(c, &format!("appended BitVec of {n} bits"), &g, g.heap_size(), orig, raw + 8.0, 2.5)?;
    ck!(c, g == bv, "grown vector differs");
    drop(g);
    let (tight, _) = exact(&bv);
    drop(bv);
    let a = live();
    let b2 = tight.clone();
    let rs = RsVec::from_bit_vec(b2);
    let orig = live() - a;
    report(c, &format!("RsVec of {n} bits ({st})"), &rs, rs.heap_size(), orig, raw * RS + 96.0, 2.5)?;
    c.hit("RsVec");
    // taking the bit vector back releases the index
    let a2 = live();
    let back = rs.into_bit_vec();
    let freed = a2 - live();
    ck!(c, freed >= 0, "into_bit_vec allocated memory and kept it");
    let (b3, real) = exact(&back);
    drop(b3);
    eq!(c, back.heap_size() as i64, real, "heap size of the vector taken back");
    ck!(c, back.heap_size() as f64 <= raw + 8.0, "vector taken back holds {} bytes for {n} bits", back.heap_size());
    drop(back);
    // derived vectors
    for (what, f) in [("from_zeros", BitVec::from_zeros as fn(usize) -> BitVec), ("from_ones", BitVec::from_ones)] {
        let a = live();
        let v = f(n);
        let orig = live() - a;
        report(c, &format!("{what}({n})"), &v, v.heap_size(), orig, raw + 8.0, 2.5)?;
    }
    let cut = c.rng.below(n + 1);
    if let Ok((l, r)) = tight.clone().split_at(cut) {
        for (what, v) in [("left", l), ("right", r)] {
            let k = v.len();
            let (w, real) = exact(&v);
            drop(w);
            eq!(c, v.heap_size() as i64, real, "{what} half of split_at({cut}) of {n}: heap size");
            ck!(c, v.heap_size() <= k.div_ceil(64) * 8 + 8, "{what} half of split_at({cut}) of {n} holds {} bytes for {k} bits", v.heap_size());
        }
    }
    let mut t = tight.clone();
    let k = c.rng.below(n + 1);
    t.drop_last(k);
    ck!(c, t.heap_size() <= (n - k).div_ceil(64) * 8 + 8, "after drop_last({k}) of {n}: {} bytes in use", t.heap_size());
    drop(t);
    drop(tight);
    Ok(())
}

fn sorted_case(c: &mut Ctx) -> R {
    let max = *c.rng.pick(&[20, 200, 3000, 30_000, 200_000]);
    let (v, st) = gen::sorted(&mut c.rng, max);
    let n = v.len();
    for &x in &v {
        c.sig(x);
    }
    c.nontrivial();
    c.describe(format!("{n} sorted values {st}"));
    let u = if n == 0 { 0.0 } else { (v[n - 1] - v[0]) as f64 };
    let bound = |n: usize, u: f64| {
        let nf = n as f64;
        let per = (u.max(1.0) / nf.max(1.0)).log2().max(0.0) + 1.0;
        (nf * per + 3.0 * nf * RS) / 8.0 + 136.0
    };
    let a = live();
    let ef = EliasFanoVec::from_slice(&v);
    let orig = live() - a;
    report(c, &format!("EliasFanoVec of {n} values over {u:.0} ({st})"), &ef, ef.heap_size(), orig, bound(n, u), 2.5)?;
    c.hit("EliasFanoVec");
    drop(ef);
    let mut w = v.clone();
    w.dedup();
    if w.last() == Some(&u64::MAX) {
        w.pop();
    }
    let len = w.last().map_or(0, |x| x + 1);
    let k = w.len();
    let a = live();
    let sp = SparseRSVec::new(&w, len);
    let orig = live() - a;
    report(c, &format!("SparseRSVec of {k} ones in {len}"), &sp, sp.heap_size(), orig, bound(k, len as f64), 2.5)?;
    c.hit("SparseRSVec");
    drop(sp);
    // through bit vectors: the cost follows the number of stored bits, not the length
    let n = size(c).min(300_000);
    let (m, st) = gen::bits(&mut c.rng, n);
    let bv = gen::bitvec(&mut c.rng, &m);
    let ones = m.iter().filter(|&&b| b).count();
    for (inv, k) in [(false, ones), (true, n - ones)] {
        let a = live();
        let sp = if inv { SparseRSVec::from_bitvec_inverted(&bv) } else { SparseRSVec::from_bitvec(&bv) };
        let orig = live() - a;
        report(c, &format!("SparseRSVec from {n} bits, {k} stored ({st})"), &sp, sp.heap_size(), orig, bound(k, n as f64), 2.5)?;
    }
    Ok(())
}

fn rmq_case(c: &mut Ctx) -> R {
    let n = size(c).min(200_000);
    let al = c.rng.range(1, 64) as u32;
    let v: Vec<u64> = (0..n).map(|_| c.rng.log_u64(al)).collect();
    for &x in &v {
        c.sig(x);
    }
    c.nontrivial();
    c.describe(format!("{n} values of up to {al} bits"));
    let nf = n as f64;
    let a = live();
    let b = BinaryRmq::from_vec(v.clone());
    let orig = live() - a;
    let bb = |n: f64| n * 8.0 + n * 4.0 * (log2c(n as usize) + 1.0) + 64.0;
    report(c, &format!("BinaryRmq of {n}"), &b, b.heap_size(), orig, bb(nf), 2.5)?;
    c.hit("BinaryRmq");
    drop(b);
    let a = live();
    let f = FastRmq::from_vec(v.clone());
    let orig = live() - a;
    let blocks = n.div_ceil(128) as f64;
    report(c, &format!("FastRmq of {n}"), &f, f.heap_size(), orig, nf * 8.0 + bb(blocks) + blocks * 40.0 + 64.0, 2.5)?;
    c.hit("FastRmq");
    Ok(())
}

fn tree_b<const B: usize>(c: &mut Ctx, bits: &[bool], st: &str) -> R {
    let n = bits.len();
    let bv = BitVec::from_bools(bits);
    let bv = bv.clone();
    let a = live();
    let t = BpTree::<B>::from_bit_vector(bv.clone());
    let orig = live() - a;
    let raw = (n.div_ceil(64) * 8) as f64;
    let blocks = n.div_ceil(B);
    // one leaf of three words per block, and inner nodes up to the next power of two
    let bound = raw * RS + 96.0 + 24.0 * (blocks + blocks.next_power_of_two()) as f64 + 48.0;
    report(c, &format!("BpTree<{B}> of {n} parentheses ({st})"), &t, t.heap_size(), orig, bound, 2.5)?;
    c.hit("BpTree");
    Ok(())
}

fn tree_case(c: &mut Ctx) -> R {
    let n = size(c).min(300_000);
    let (bits, st) = if c.rng.one_in(4) { gen::bits(&mut c.rng, n) } else { gen::tree(&mut c.rng, n / 2 + 1) };
    c.sig_bits(&bits);
    c.nontrivial();
    c.describe(format!("{} parentheses {st}", bits.len()));
    let b = *c.rng.pick(&[8, 16, 64, 100, 512, 1024]);
    with_block!(b, tree_b(c, &bits, st))?;
    tree_b::<512>(c, &bits, st)
}

fn wavelet_case(c: &mut Ctx) -> R {
    let k = wmodel::width(&mut c.rng);
    let n = size(c).min(if k > 16 { 4000 } else { 100_000 });
    let (v, st) = wmodel::symbols(&mut c.rng, n, k);
    for x in &v {
        c.sig(x.low());
    }
    c.nontrivial();
    c.describe(format!("{n} symbols of {k} bits {st}"));
    let mut r2 = c.rng.clone();
    let a = live();
    let (w, how) = wmodel::build(&mut r2, &v, k);
    let orig = live() - a;
    let bound = k as f64 * ((n.div_ceil(64) * 8) as f64 * RS + 96.0 + std::mem::size_of::<RsVec>() as f64) + 64.0;
    report(c, &format!("WaveletMatrix of {n} symbols of {k} bits ({how}, {st})"), &w, w.heap_size(), orig, bound, 2.5)?;
    c.hit("WaveletMatrix");
    let _: &WaveletMatrix = &w;
    Ok(())
}

/// querying keeps no memory, and dropping releases all of it
fn release(c: &mut Ctx) -> R {
    let k = (c.idx % 8) as usize;
    let start = live();
    let max = *c.rng.pick(&[100, 100, 3000, 3000, 30_000, 600_000]);
    {
        let (o, what) = Obj::generate(&mut c.rng, k, max);
        let a = live();
        let mut d = Dig::default();
        o.probe(&mut d, &c.rng, 60);
        let b = live();
        c.sig(d.h);
        c.nontrivial();
        eq!(c, b - a, 0, "{what}: bytes retained by {} queries", d.n);
        let p = o.clone();
        drop(o);
        let mut e = Dig::default();
        p.probe(&mut e, &c.rng, 10);
        drop(p);
        c.describe(what);
    }
    let desc = 4096;
    let kept = live() - start;
    // only the harness's own description and counters may remain
    ck!(c, kept.abs() < desc, "{}: {kept} bytes remain after everything was dropped", KINDS[k]);
    c.hit(KINDS[k]);
    Ok(())
}

/// documented allocation behaviour of the growable vector
fn growth(c: &mut Ctx) -> R {
    let cap = size(c);
    c.sig(cap as u64);
    c.nontrivial();
    let mut v = BitVec::with_capacity(cap);
    let words: Vec<(u64, usize)> = (0..cap).map(|_| (c.rng.u64(), 1 + c.rng.below(64))).take(cap.div_ceil(16)).collect();
    let mode = c.rng.below(3);
    c.sig(mode as u64);
    c.describe(format!("vector with capacity for {cap} bits, filled in mode {mode}"));
    let (_, calls, _) = watch(|| {
        let mut left = cap;
        for &(w, k) in words.iter().cycle() {
            if left == 0 {
                break;
            }
            match mode {
                0 => {
                    v.append_bit(w);
                    left -= 1;
                }
                1 if left >= 64 => {
                    v.append_word(w);
                    left -= 64;
                }
                _ => {
                    let k = k.min(left);
                    v.append_bits(w, k);
                    left -= k;
                }
            }
        }
    });
    eq!(c, v.len(), cap, "length of the filled vector");
    eq!(c, calls, 0, "reallocations while filling a vector created with capacity for {cap} bits (mode {mode})");
    c.hit("vectors filled to their capacity");
    // extending reallocates at most once, whatever the alignment
    let m = size(c);
    let ob = gen::bits(&mut c.rng, m).0;
    let other = gen::bitvec(&mut c.rng, &ob);
    let cut = c.rng.below(v.len().min(200) + 1);
    v.drop_last(cut);
    let before = v.len();
    let ((), calls, _) = watch(|| v.extend_bitvec(&other));
    ck!(c, calls <= 1, "extend_bitvec of {before} bits by {m} bits made {calls} allocations");
    eq!(c, v.len(), before + m, "length after extend_bitvec");
    c.hit(if calls == 0 { "extensions within the capacity" } else { "extensions with one reallocation" });
    Ok(())
}

/// memory at the peak of construction: linear in input and result (a few machine words per element of the input and a few
/// copies of the result are allowed), plus the prefix table where documented
fn peak(c: &mut Ctx) -> R {
    let n = 2000 + size(c) / 4;
    c.nontrivial();
    c.sig(n as u64);
    let kind = c.rng.below(7);
    c.sig(kind as u64);
    let (what, peak, bound): (&str, i64, f64) = match kind {
        0 => {
            let b = gen::bits(&mut c.rng, n).0;
            let bv = gen::bitvec(&mut c.rng, &b);
            let (rs, _, p) = watch(|| RsVec::from_bit_vec(bv));
            ("RsVec", p, 4.0 * rs.heap_size() as f64 + 16.0 * n as f64 + 16_384.0)
        }
        1 => {
            let v = gen::sorted(&mut c.rng, n).0;
            let (ef, _, p) = watch(|| EliasFanoVec::from_slice(&v));
            ("EliasFanoVec", p, 4.0 * ef.heap_size() as f64 + 64.0 * n as f64 + 16_384.0)
        }
        2 => {
            let v: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
            let (r, _, p) = watch(|| FastRmq::from_vec(v));
            ("FastRmq", p, 4.0 * r.heap_size() as f64 + 64.0 * n as f64 + 16_384.0)
        }
        3 => {
            let v: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
            let (r, _, p) = watch(|| BinaryRmq::from_vec(v));
            ("BinaryRmq", p, 4.0 * r.heap_size() as f64 + 64.0 * n as f64 + 16_384.0)
        }
        4 => {
            let bits = gen::tree(&mut c.rng, n / 2).0;
            let bv = gen::bitvec(&mut c.rng, &bits);
            let (t, _, p) = watch(|| BpTree::<512>::from_bit_vector(bv));
            ("BpTree", p, 4.0 * t.heap_size() as f64 + 16.0 * n as f64 + 16_384.0)
        }
        5 => {
            let k = 1 + c.rng.below(64);
            let v: Vec<u64> = (0..n).map(|_| c.rng.u64() >> (64 - k)).collect();
            let (w, _, p) = watch(|| WaveletMatrix::from_slice(&v, k as u16));
            ("WaveletMatrix", p, 4.0 * w.heap_size() as f64 + 64.0 * n as f64 + 16_384.0)
        }
        _ => {
            let k = 1 + c.rng.below(10);
            let v: Vec<u64> = (0..n).map(|_| c.rng.u64() >> (64 - k)).collect();
            let (w, _, p) = watch(|| WaveletMatrix::from_slice_pc(&v, k as u16));
            ("WaveletMatrix (prefix counting)", p, 4.0 * w.heap_size() as f64 + 64.0 * n as f64 + (64 << k) as f64 + 16_384.0)
        }
    };
    c.describe(format!("{what} over {n} bits or elements"));
    if std::env::var("VH_CAL").is_ok() {
        eprintln!("PEAK {} {:.3}", what.replace(' ', "_"), peak as f64 / bound);
    }
    ck!(c, peak as f64 <= bound, "building {what} over {n}: {peak} bytes at the peak, more than {bound:.0}");
    c.hit(what);
    Ok(())
}

fn main() {
    run::main(
        "C25",
        &[
            Scenario::new("bits", 3000, 40_000, bits_case),
            Scenario::new("sorted", 2500, 40_000, sorted_case),
            Scenario::new("rmq", 1500, 20_000, rmq_case),
            Scenario::new("tree", 2000, 30_000, tree_case),
            Scenario::new("wavelet", 600, 10_000, wavelet_case),
            Scenario::new("growth", 3000, 40_000, growth),
            Scenario::new("peak", 1500, 20_000, peak),
            Scenario::new("release", 3000, 30_000, release),
        ],
    );
}
