//! C22: serialised structures come back with the same contents and answers, in the same and in other builds.
//! VH_DUMP_DIR: store the bytes and the digest of each case; VH_LOAD_DIR: load what another build stored.
#[cfg(feature = "serde")]
mod real {
    use std::path::PathBuf;
    use vh::objects::{Obj, KINDS};
    use vh::probe::Dig;
    use vh::rng::Rng;
    use vh::*;

    /// None: a query panicked (whether it may is not this property's business, only that both copies agree)
    fn dig(o: &Obj, seed: u64) -> Option<Dig> {
        run::guard(|| {
            let mut d = Dig::default();
            o.probe(&mut d, &Rng::new(seed), 120);
            d
        })
        .ok()
    }

    fn same(c: &mut Ctx, a: &Obj, b: &Obj, how: &str, seed: u64) -> R {
        let x = dig(a, seed);
        let y = dig(b, seed);
        c.n(x.as_ref().map_or(1, |d| d.n));
        if x != y {
            return Err(format!("{how}: the structure read back gives other answers than the one written ({x:?} / {y:?})"));
        }
        eq!(c, b.heap_size() > 0 || a.heap_size() == 0, true, "{how}: heap size vanished");
        match (a, b) {
            (Obj::Bits(x), Obj::Bits(y)) => ck!(c, x == y && y == x, "{how}: bit vectors differ"),
            (Obj::Rs(x), Obj::Rs(y)) => {
                ck!(c, x == y && y == x, "{how}: rank/select vectors differ");
                ck!(c, x.clone().into_bit_vec() == y.clone().into_bit_vec(), "{how}: bit vectors inside differ");
            }
            _ => (),
        }
        Ok(())
    }

    /// continue editing what was read back, and build on it
    fn grow(c: &mut Ctx, a: &Obj, b: &Obj, how: &str) -> R {
        if let (Obj::Bits(x), Obj::Bits(y)) = (a, b) {
            let (mut x, mut y) = (x.clone(), y.clone());
            for _ in 0..20 {
                match c.rng.below(5) {
                    0 => {
                        let bit = c.rng.u64();
                        x.append_bit(bit);
                        y.append_bit(bit);
                    }
                    1 => {
                        let (w, l) = (c.rng.u64(), c.rng.below(65));
                        x.append_bits(w, l);
                        y.append_bits(w, l);
                    }
                    2 => {
                        let n = c.rng.below(80);
                        x.drop_last(n);
                        y.drop_last(n);
                    }
                    3 if x.len() > 0 => {
                        let p = c.rng.below(x.len());
                        x.flip_bit(p);
                        y.flip_bit(p);
                    }
                    _ => {
                        let z = x.clone();
                        x.extend_bitvec(&z);
                        y.extend_bitvec(&z);
                        let cut = x.len() / 2;
                        x.drop_last(cut);
                        y.drop_last(cut);
                    }
                }
                ck!(c, x == y, "{how}: edits after reading back diverge at length {}", x.len());
            }
            let n = x.len();
            let s = c.rng.u64();
            let a = Obj::Rs(vers_vecs::RsVec::from_bit_vec(x));
            let b = Obj::Rs(vers_vecs::RsVec::from_bit_vec(y));
            same(c, &a, &b, &format!("{how}, then edited and indexed ({n} bits)"), s)?;
            c.hit("edited after reading back");
        }
        Ok(())
    }

    fn case(c: &mut Ctx, k: usize) -> R {
        let max = match c.idx % 20 {
            0 if c.idx % 100 == 40 => 1_300_000,
            0 => 60_000,
            1..=4 => 10_000,
            _ => 2000,
        };
        let mut r2 = c.rng.clone();
        let Ok((o, what)) = run::guard(|| Obj::generate(&mut r2, k, max)) else {
            c.hit("construction panicked: nothing to serialise");
            return Ok(());
        };
        c.rng = r2;
        c.hit(KINDS[k]);
        let key = format!("{}-{}", KINDS[k], c.idx);
        there_and_back(c, o, what, key)
    }

    fn there_and_back(c: &mut Ctx, o: Obj, what: String, key: String) -> R {
        c.describe(what);
        let seed = c.rng.u64();
        c.sig(dig(&o, seed).map_or(0, |d| d.h));
        c.nontrivial();
        if let Ok(dir) = std::env::var("VH_LOAD_DIR") {
            let p = PathBuf::from(dir).join(&key);
            let Ok(bytes) = std::fs::read(&p) else { return Ok(()) };
            let jl = u64::from_le_bytes(bytes[..8].try_into().unwrap()) as usize;
            let (js, bin) = bytes[8..].split_at(jl);
            let x: Obj = bincode::deserialize(bin).map_err(|e| format!("bincode written by another build is rejected: {e}"))?;
            let y: Obj = serde_json::from_slice(js).map_err(|e| format!("json written by another build is rejected: {e}"))?;
            for (o2, how) in [(&x, "bincode from another build"), (&y, "json from another build")] {
                same(c, &o, o2, how, seed)?;
                grow(c, &o, o2, how)?;
                c.hit("read back in another build");
            }
            return Ok(());
        }
        let bin = bincode::serialize(&o).map_err(|e| format!("bincode: {e}"))?;
        let js = serde_json::to_vec(&o).map_err(|e| format!("json: {e}"))?;
        let x: Obj = bincode::deserialize(&bin).map_err(|e| format!("own bincode rejected: {e}"))?;
        let y: Obj = serde_json::from_slice(&js).map_err(|e| format!("own json rejected: {e}"))?;
        for (o2, how) in [(&x, "bincode"), (&y, "json")] {
            same(c, &o, o2, how, seed)?;
            // a second probe with other queries
            let s2 = c.rng.u64();
            same(c, &o, o2, how, s2)?;
            grow(c, &o, o2, how)?;
            c.hit("read back in the same build");
        }
        // writing what was read gives an equivalent structure again
        let b2 = bincode::serialize(&x).map_err(|e| format!("bincode again: {e}"))?;
        let z: Obj = bincode::deserialize(&b2).map_err(|e| format!("second-generation bincode rejected: {e}"))?;
        same(c, &o, &z, "second generation", seed)?;
        if let Ok(dir) = std::env::var("VH_DUMP_DIR") {
            let mut f = Vec::with_capacity(bin.len() + js.len() + 16);
            f.extend_from_slice(&(js.len() as u64).to_le_bytes());
            f.extend_from_slice(&js);
            f.extend_from_slice(&bin);
            std::fs::write(PathBuf::from(dir).join(&key), f).map_err(|e| format!("harness: cannot store: {e}"))?;
        }
        Ok(())
    }

    /// contents whose internal numbers are as large (or as negative) as they get: deep nesting, huge universes,
    /// one-sided vectors, wide symbols
    fn extremes(c: &mut Ctx) -> R {
        use vers_vecs::*;
        let r = &c.rng;
        let kind = c.idx % 20;
        let d = [300, 33_000, 70_000, 140_000][(c.idx / 20 % 4) as usize] + r.below(600);
        let nest = |parts: &[(bool, usize)]| {
            let mut b = BitVec::new();
            for &(open, n) in parts {
                b.extend_bitvec(&if open { BitVec::from_ones(n) } else { BitVec::from_zeros(n) });
            }
            b
        };
        let deep = |v: BitVec, bal: bool| {
            let n = v.len();
            match r.below(4) {
                0 => Obj::Tree8(BpTree::from_bit_vector(v), n, bal, bal),
                1 => Obj::Tree64(BpTree::from_bit_vector(v), n, bal, bal),
                2 => Obj::Tree512(BpTree::from_bit_vector(v), n, bal, bal),
                _ => Obj::Tree1024(BpTree::from_bit_vector(v), n, bal, bal),
            }
        };
        let top = u64::MAX - r.below64(3);
        let o = match kind {
            0 => deep(nest(&[(true, d), (false, d)]), true),
            1 => deep(nest(&[(true, d), (false, d / 2), (true, d / 2), (false, d)]), true),
            2 => deep(nest(&[(true, 1), (true, d), (false, d), (true, d), (false, d), (false, 1)]), true),
            3 => deep(nest(&[(false, d), (true, d / 2)]), false),
            4 => deep(nest(&[(false, d), (true, 2 * d), (false, d / 3)]), false),
            5 => deep(nest(&[(true, d), (false, 700), (true, 5)]), false),
            6 => {
                let mut b = BitVec::from_ones(1);
                for _ in 0..d {
                    b.append_bits(1, 2);
                }
                b.append(false);
                deep(b, true)
            }
            7 => Obj::Ef(EliasFanoVec::from_slice(&(0..d as u64 / 8).map(|i| top - d as u64 / 8 + 1 + i).collect::<Vec<_>>())),
            8 => Obj::Ef(EliasFanoVec::from_slice(&[0, 1, 1 << 31, 1 << 32, (1 << 53) + 1, 1 << 63, top - 1, top])),
            9 => {
                let mut v = vec![7; d];
                v.push(top);
                Obj::Ef(EliasFanoVec::from_slice(&v))
            }
            10 => {
                let mut v = vec![top; d];
                v[0] = (1 << 53) + 1;
                Obj::Ef(EliasFanoVec::from_slice(&v))
            }
            11 => Obj::Rs(RsVec::from_bit_vec(nest(&[(true, 3 * d), (false, 2 * d), (true, 3)]))),
            12 => Obj::Rs(RsVec::from_bit_vec(nest(&[(c.idx / 20 % 2 == 0, 5 * d)]))),
            13 => Obj::Sparse(SparseRSVec::new(&[0, 1, 5, 1 << 32, (1 << 53) + 1, top - 2], top - 1)),
            14 => Obj::Sparse(SparseRSVec::from_bitvec_inverted(&nest(&[(true, 3 * d), (false, 2), (true, d)]))),
            15 => Obj::Binary(BinaryRmq::from_vec((0..d as u64).map(|i| top - (i * 7919) % 5000).collect())),
            16 => Obj::Fast(FastRmq::from_vec((0..3 * d as u64).map(|i| top - (i * 7919) % 5000).collect())),
            17 => Obj::Wavelet(WaveletMatrix::from_slice(&(0..500).map(|i| top - i % 37).collect::<Vec<_>>(), 64), 64),
            18 => {
                let k = [65u16, 128, 1000, 5000][(c.idx / 20 % 4) as usize];
                let n = 12;
                let mut v = BitVec::new();
                for i in 0..n * k as usize {
                    v.append(i % 7 != 3 && r.below(9) != 0);
                }
                Obj::Wavelet(WaveletMatrix::from_bit_vec(&v, k), k as usize)
            }
            _ => Obj::Wavelet(WaveletMatrix::from_slice_pc(&(0..d as u64 / 2).map(|i| i * 31 % 4096).collect::<Vec<_>>(), 12), 12),
        };
        c.hit("extreme contents");
        let key = format!("extreme-{}", c.idx);
        there_and_back(c, o, format!("extreme content {kind}, magnitude {d}"), key)
    }

    /// structures over more than 2^32 bits (binary format only)
    fn giant(c: &mut Ctx) -> R {
        if std::env::var("VH_LOAD_DIR").is_ok() {
            return Ok(());
        }
        let r = big::runs(&c.rng, 1 + c.rng.below(3) as u64);
        let bv = r.build();
        let ps: Vec<usize> = r.borders().into_iter().chain((0..200).map(|_| c.rng.below(r.len))).filter(|&p| p < r.len).collect();
        fn again<T: serde::Serialize + serde::de::DeserializeOwned>(t: T) -> Result<T, String> {
            let b = bincode::serialize(&t).map_err(|e| format!("bincode: {e}"))?;
            drop(t);
            bincode::deserialize(&b).map_err(|e| format!("own bincode rejected: {e}"))
        }
        let what = match c.idx % 3 {
            0 => {
                let v = again(bv)?;
                eq!(c, v.len(), r.len, "length read back");
                eq!(c, v.count_ones(), r.rank(true, r.len) as u64, "ones read back");
                for &p in &ps {
                    eq!(c, v.get(p), Some(u64::from(r.get(p))), "bit {p} read back");
                }
                "BitVec"
            }
            1 => {
                let v = again(vers_vecs::RsVec::from_bit_vec(bv))?;
                eq!(c, v.len(), r.len, "length read back");
                for &p in &ps {
                    eq!(c, v.get(p), Some(u64::from(r.get(p))), "bit {p} read back");
                    eq!(c, (v.rank0(p), v.rank1(p)), (r.rank(false, p), r.rank(true, p)), "ranks of {p} read back");
                    for one in [false, true] {
                        let n = r.rank(one, r.len);
                        if n > 0 {
                            let k = c.rng.below(n);
                            let got = if one { v.select1(k) } else { v.select0(k) };
                            eq!(c, got, r.select(one, k), "select{}({k}) read back", u8::from(one));
                        }
                    }
                }
                "RsVec"
            }
            _ => {
                let v = again(vers_vecs::BpTree::<512>::from_bit_vector(bv))?;
                for &p in &ps {
                    eq!(c, v.excess(p), 2 * r.rank(true, p + 1) as i64 - (p + 1) as i64, "excess at {p} read back");
                    for e in [-1, 1, -3, 40] {
                        eq!(c, v.fwd_search(p, e), r.fwd(p, e), "fwd_search({p},{e}) read back");
                        eq!(c, v.bwd_search(p, e), r.bwd(p, e), "bwd_search({p},{e}) read back");
                    }
                }
                "BpTree"
            }
        };
        c.hit("more than 2^32 bits read back");
        c.sig(r.len as u64 * 3 + c.idx % 3);
        c.nontrivial();
        c.describe(format!("{what} over {} bits", r.len));
        Ok(())
    }

    macro_rules! kinds {
        ($($i:ident $k:expr),*) => { $(fn $i(c: &mut Ctx) -> R { case(c, $k) })* };
    }
    kinds!(k0 0, k1 1, k2 2, k3 3, k4 4, k5 5, k6 6, k7 7);

    pub fn main() {
        run::main(
            "C22",
            &[
                Scenario::new("giant", 2, 9, giant),
                Scenario::new("extremes", 160, 800, extremes),
                Scenario::new("BitVec", 900, 6000, k0),
                Scenario::new("RsVec", 600, 4000, k1),
                Scenario::new("SparseRSVec", 500, 3000, k2),
                Scenario::new("EliasFanoVec", 500, 3000, k3),
                Scenario::new("BinaryRmq", 300, 2000, k4),
                Scenario::new("FastRmq", 400, 3000, k5),
                Scenario::new("BpTree", 600, 4000, k6),
                Scenario::new("WaveletMatrix", 400, 2500, k7),
            ],
        );
    }
}

fn main() {
    #[cfg(feature = "serde")]
    real::main();
}
