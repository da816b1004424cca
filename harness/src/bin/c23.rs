//! C23: digests of every answer on a fixed workload; the driver compares them between builds.
use vh::objects::{Obj, KINDS};
use vh::probe::Dig;
use vh::*;

fn case(c: &mut Ctx, k: usize) -> R {
    let max = match c.idx % 40 {
        0 if c.idx % 200 == 80 => 1_300_000,
        0 => 150_000,
        1..=9 => 20_000,
        _ => 3000,
    };
    c.hit(KINDS[k]);
    let nq = if c.idx % 40 == 0 { 3000 } else { 300 };
    let mut r = c.rng.clone();
    // a panic is an answer like any other here: only a difference between builds counts
    let got = run::guard(|| {
        let (o, what) = Obj::generate(&mut r, k, max);
        let mut d = Dig::default();
        o.probe(&mut d, &r, nq);
        (d, what)
    });
    let d = match got {
        Ok((d, what)) => {
            c.describe(what);
            d
        }
        Err(_) => {
            c.hit("cases that panicked");
            Dig { h: 1, n: 1 }
        }
    };
    c.n(d.n);
    c.dig(d.h);
    c.sig(d.h);
    if d.n > 3 {
        c.nontrivial();
    }
    Ok(())
}

macro_rules! kinds {
    ($($i:ident $k:expr),*) => { $(fn $i(c: &mut Ctx) -> R { case(c, $k) })* };
}
kinds!(k0 0, k1 1, k2 2, k3 3, k4 4, k5 5, k6 6, k7 7);

fn main() {
    run::main(
        "C23",
        &[
            Scenario::new("BitVec", 2400, 24000, k0),
            Scenario::new("RsVec", 6000, 60000, k1),
            Scenario::new("SparseRSVec", 2400, 24000, k2),
            Scenario::new("EliasFanoVec", 2400, 24000, k3),
            Scenario::new("BinaryRmq", 1200, 12000, k4),
            Scenario::new("FastRmq", 2400, 24000, k5),
            Scenario::new("BpTree", 6000, 60000, k6),
            Scenario::new("WaveletMatrix", 2400, 24000, k7),
        ],
    );
}
