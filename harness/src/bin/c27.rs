//! C27: many threads read shared structures at the same time; answers are compared with those of a single thread, while
//! ThreadSanitizer or Miri watch for data races. That this file compiles shows that the structures can be shared and moved.
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use std::thread;
use vers_vecs::{BinaryRmq, BitVec, BpTree, EliasFanoVec, FastRmq, RsVec, SparseRSVec, WaveletMatrix};
use vh::objects::{Obj, KINDS};
use vh::probe::Dig;
use vh::rng::Rng;
use vh::*;

const TINY: bool = cfg!(miri);

fn shareable<T: Send + Sync + 'static>() -> usize {
    1
}

fn types(c: &mut Ctx) -> R {
    let n = shareable::<BitVec>()
        + shareable::<RsVec>()
        + shareable::<SparseRSVec>()
        + shareable::<EliasFanoVec>()
        + shareable::<BinaryRmq>()
        + shareable::<FastRmq>()
        + shareable::<BpTree<8>>()
        + shareable::<BpTree>()
        + shareable::<WaveletMatrix>();
    c.n(n as u64);
    c.sig(n as u64);
    c.nontrivial();
    c.describe(format!("{n} types are Send and Sync"));
    Ok(())
}

/// position in the global order of observed steps; relaxed, so that it orders nothing for the race detectors
static TICKET: AtomicUsize = AtomicUsize::new(0);

struct Log {
    tickets: Vec<usize>,
    digs: Vec<Dig>,
}

fn reader(o: &Obj, seed: u64, rounds: usize, nq: usize, me: usize, go: Option<&AtomicUsize>) -> Log {
    let mut log = Log { tickets: vec![], digs: vec![] };
    if let Some(go) = go {
        // meet without establishing an order between the threads
        go.fetch_add(1, Relaxed);
        let mut spins = 0;
        while go.load(Relaxed) < usize::MAX / 2 && spins < 2000 {
            spins += 1;
            thread::yield_now();
        }
    }
    let delay = Rng::new(seed ^ 0xde1a);
    for k in 0..rounds {
        if go.is_some() {
            log.tickets.push(TICKET.fetch_add(1, Relaxed));
            match delay.below(6) {
                0 => thread::yield_now(),
                1 => {
                    for _ in 0..delay.below(200) {
                        std::hint::spin_loop();
                    }
                }
                _ => {}
            }
        }
        let r = Rng::new(seed.wrapping_mul(31) ^ (k as u64) ^ ((me as u64) << 32));
        let mut d = Dig::default();
        o.probe(&mut d, &r, nq);
        log.digs.push(d);
    }
    log
}

/// how the steps of the threads were interleaved
fn order(logs: &[Log]) -> (u64, usize) {
    let mut v: Vec<(usize, usize)> = vec![];
    for (t, l) in logs.iter().enumerate() {
        v.extend(l.tickets.iter().map(|&x| (x, t)));
    }
    v.sort_unstable();
    let mut h = 0x1eaf;
    let mut switches = 0;
    for i in 0..v.len() {
        h = rng::mix(h, v[i].1 as u64);
        if i > 0 && v[i].1 != v[i - 1].1 {
            switches += 1;
        }
    }
    (h, switches)
}

fn params(c: &mut Ctx) -> (usize, usize, usize, usize) {
    if TINY {
        (2 + c.rng.below(2), 2, 1, [30, 120, 400][c.rng.below(3)])
    } else {
        (2 + c.rng.below(7), 6 + c.rng.below(20), 1 + c.rng.below(3), if c.rng.one_in(40) { 400_000 } else { [60, 700, 3000, 20_000][c.rng.below(4)] })
    }
}

fn compare(c: &mut Ctx, what: &str, logs: &[Log], want: &[Log]) -> R {
    let (h, switches) = order(logs);
    c.sig(h);
    c.nontrivial();
    c.hit_n("switches between threads observed", switches as u64);
    for (t, (g, w)) in logs.iter().zip(want).enumerate() {
        for (k, (a, b)) in g.digs.iter().zip(&w.digs).enumerate() {
            c.n(a.n);
            if a != b {
                return Err(format!("{what}: thread {t} of {} got other answers in round {k} than a single thread does", logs.len()));
            }
        }
    }
    Ok(())
}

/// all threads read one structure
fn shared(c: &mut Ctx, k: usize) -> R {
    let (threads, rounds, nq, max) = params(c);
    let (o, what) = Obj::generate(&mut c.rng, k, max);
    c.describe(format!("{what}, {threads} threads x {rounds} rounds"));
    let seed = c.rng.u64();
    let copy = o.clone();
    let o = Arc::new(o);
    let go = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (o, go) = (o.clone(), go.clone());
            thread::spawn(move || reader(&o, seed, rounds, nq, t, Some(&go)))
        })
        .collect();
    let mut spins = 0;
    while go.load(Relaxed) < threads && spins < 1000 {
        spins += 1;
        thread::yield_now();
    }
    go.store(usize::MAX - 100, Relaxed);
    let mut logs = vec![];
    let mut died = false;
    for h in hs {
        match h.join() {
            Ok(l) => logs.push(l),
            Err(_) => died = true,
        }
    }
    let alone = run::guard(|| (0..threads).map(|t| reader(&copy, seed, rounds, nq, t, None)).collect::<Vec<_>>());
    match alone {
        Err(_) => {
            // the same queries fail without any other thread: another property's concern
            c.hit("cases where a single thread panics as well");
            Ok(())
        }
        Ok(_) if died => Err(format!("{what}: a reader panicked although a single thread answers the same queries")),
        Ok(want) => {
            c.hit(KINDS[k]);
            compare(c, &what, &logs, &want)
        }
    }
}

/// every thread builds, queries, copies and drops structures of its own, or ones that were moved to it
fn separate(c: &mut Ctx) -> R {
    let (threads, rounds, nq, max) = params(c);
    let rounds = rounds.div_ceil(3);
    let seed = c.rng.u64();
    let kinds: Vec<usize> = (0..threads).map(|_| c.rng.below(KINDS.len())).collect();
    c.describe(format!("{threads} threads with structures of their own {kinds:?}"));
    let go = Arc::new(AtomicUsize::new(0));
    let mk = move |t: usize, k: usize| {
        let mut r = Rng::new(seed ^ (t as u64) << 7);
        Obj::generate(&mut r, k, max).0
    };
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let k = kinds[t];
            let go = go.clone();
            let moved = if t % 2 == 0 { Some(mk(t, k)) } else { None };
            thread::spawn(move || {
                let o = moved.unwrap_or_else(|| mk(t, k));
                let a = reader(&o, seed, rounds, nq, t, Some(&go));
                let b = o.clone();
                drop(o);
                let mut l = reader(&b, seed ^ 1, rounds, nq, t, Some(&go));
                l.tickets.splice(0..0, a.tickets);
                l.digs.splice(0..0, a.digs);
                (l, b)
            })
        })
        .collect();
    go.store(usize::MAX - 100, Relaxed);
    let mut logs = vec![];
    let mut died = false;
    for h in hs {
        match h.join() {
            // the structure comes back to this thread and is dropped here
            Ok((l, o)) => {
                drop(o);
                logs.push(l);
            }
            Err(_) => died = true,
        }
    }
    let alone = run::guard(|| {
        (0..threads)
            .map(|t| {
                let o = mk(t, kinds[t]);
                let mut a = reader(&o, seed, rounds, nq, t, None);
                a.digs.extend(reader(&o, seed ^ 1, rounds, nq, t, None).digs);
                a
            })
            .collect::<Vec<_>>()
    });
    match alone {
        Err(_) => {
            c.hit("cases where a single thread panics as well");
            Ok(())
        }
        Ok(_) if died => Err("a thread panicked although a single thread answers the same queries".into()),
        Ok(want) => compare(c, &format!("separate structures {kinds:?}"), &logs, &want),
    }
}

fn main() {
    run::main(
        "C27",
        &[
            Scenario::new("types", 1, 1, types),
            Scenario::new("bitvec", 320, 8000, |c| shared(c, 0)),
            Scenario::new("rsvec", 480, 12000, |c| shared(c, 1)),
            Scenario::new("sparse", 480, 12000, |c| shared(c, 2)),
            Scenario::new("ef", 480, 12000, |c| shared(c, 3)),
            Scenario::new("binary rmq", 320, 8000, |c| shared(c, 4)),
            Scenario::new("fast rmq", 320, 8000, |c| shared(c, 5)),
            Scenario::new("tree", 640, 16000, |c| shared(c, 6)),
            Scenario::new("wavelet", 480, 12000, |c| shared(c, 7)),
            Scenario::new("separate", 640, 16000, separate),
        ],
    );
}
