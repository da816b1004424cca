//! Online monitor for double-ended iterators: drives an iterator with a random interleaving of operations and
//! compares every observation with a window `lo..hi` into the model sequence.
use crate::run::short;
use crate::{Ctx, R};
use std::fmt::Debug;

fn skip_count(c: &mut Ctx, left: usize, gentle: bool) -> usize {
    if gentle {
        return match c.rng.below(5) {
            0 | 1 => c.rng.below(4),
            2 => c.rng.below(left / 8 + 2),
            3 => c.rng.below(600.min(left / 4 + 2)),
            _ => c.rng.below(70.min(left / 4 + 2)),
        };
    }
    match c.rng.below(12) {
        0..=3 => c.rng.below(4),
        4 => left,
        5 => left.saturating_sub(1),
        6 => left + 1,
        7 => c.rng.below(left + 2),
        8 => c.rng.below(left / 4 + 2),
        9 => c.rng.below(600.min(left + 2)),
        10 => 63 + c.rng.below(4),
        _ => *c.rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 63, (1 << 32) + 5]),
    }
}

/// Random operation history on a double-ended exact-size iterator.
pub fn history<T, I>(c: &mut Ctx, what: &str, mut it: I, model: &[T], max_ops: usize) -> R
where
    T: PartialEq + Debug + Clone,
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone,
{
    let (mut lo, mut hi) = (0usize, model.len());
    // a bias so that some histories consume from one side and some mix
    let mode = c.rng.below(6);
    let p_back = [0.0, 1.0, 0.5, 0.1, 0.9, 0.5][mode];
    let big = mode == 5; // mostly skips
    // most histories stay inside the sequence for long, the others run past its end
    let gentle = !c.rng.one_in(3);
    let mut log: Vec<String> = Vec::new();
    let mut after_end = 0;
    for _ in 0..max_ops {
        let left = hi - lo;
        let (l0, h0, total) = (lo, hi, model.len());
        let fail = move |log: &[String], got: &dyn Debug, want: &dyn Debug| {
            let k = log.len().saturating_sub(12);
            Err(format!(
                "{what}: iterator over {} elements, remaining model window {l0}..{h0}: ops ..{:?} got {} expected {}",
                total,
                &log[k..],
                short(&got),
                short(&want)
            ))
        };
        let back = c.rng.chance(p_back);
        let op = if big { [2, 2, 2, 0, 3, 4][c.rng.below(6)] } else { c.rng.below(9) };
        c.n(1);
        match op {
            0 | 1 | 5 | 6 => {
                let (g, w) = if back {
                    log.push("next_back".into());
                    let g = it.next_back();
                    let w = if left > 0 {
                        hi -= 1;
                        Some(&model[hi])
                    } else {
                        None
                    };
                    (g, w)
                } else {
                    log.push("next".into());
                    let g = it.next();
                    let w = if left > 0 {
                        lo += 1;
                        Some(&model[lo - 1])
                    } else {
                        None
                    };
                    (g, w)
                };
                if g.as_ref() != w {
                    return fail(&log, &g, &w);
                }
            }
            2 => {
                let n = skip_count(c, left, gentle);
                let (g, w) = if back {
                    log.push(format!("nth_back({n})"));
                    let g = it.nth_back(n);
                    let w = if n < left {
                        hi -= n + 1;
                        Some(&model[hi])
                    } else {
                        hi = lo;
                        None
                    };
                    (g, w)
                } else {
                    log.push(format!("nth({n})"));
                    let g = it.nth(n);
                    let w = if n < left {
                        lo += n + 1;
                        Some(&model[lo - 1])
                    } else {
                        lo = hi;
                        None
                    };
                    (g, w)
                };
                if g.as_ref() != w {
                    return fail(&log, &g, &w);
                }
            }
            3 => {
                log.push("len".into());
                let g = (it.len(), it.size_hint());
                let w = (left, (left, Some(left)));
                if g != w {
                    return fail(&log, &g, &w);
                }
            }
            4 => {
                // terminal operations on a clone; the original must be unaffected
                let cl = it.clone();
                match c.rng.below(5) {
                    0 => {
                        log.push("clone.count".into());
                        let g = cl.count();
                        if g != left {
                            return fail(&log, &g, &left);
                        }
                    }
                    1 | 2 => {
                        log.push("clone.last".into());
                        let g = cl.last();
                        let w = if left > 0 { Some(&model[hi - 1]) } else { None };
                        if g.as_ref() != w {
                            return fail(&log, &g, &w);
                        }
                    }
                    3 => {
                        if left <= 3000 {
                            log.push("clone.collect".into());
                            let g: Vec<T> = if c.rng.bool() {
                                cl.collect()
                            } else {
                                cl.fold(Vec::new(), |mut v, x| {
                                    v.push(x);
                                    v
                                })
                            };
                            if g[..] != model[lo..hi] {
                                return fail(&log, &g, &&model[lo..hi]);
                            }
                            c.n(left as u64);
                        }
                    }
                    _ => {
                        if left <= 3000 {
                            log.push("clone.rev.collect".into());
                            let mut g: Vec<T> = if c.rng.bool() {
                                cl.rev().collect()
                            } else {
                                cl.rfold(Vec::new(), |mut v, x| {
                                    v.push(x);
                                    v
                                })
                            };
                            g.reverse();
                            if g[..] != model[lo..hi] {
                                return fail(&log, &g, &&model[lo..hi]);
                            }
                            c.n(left as u64);
                        }
                    }
                }
            }
            7 => {
                // standard adaptors built on the same primitives
                let cl = it.clone();
                let s = 1 + c.rng.below(70);
                let k = c.rng.below(40);
                log.push(format!("clone.skip({k}).step_by({s}).take(5)"));
                let g: Vec<T> = cl.skip(k).step_by(s).take(5).collect();
                let w: Vec<T> = model[lo..hi].iter().skip(k).step_by(s).take(5).cloned().collect();
                if g != w {
                    return fail(&log, &g, &w);
                }
            }
            _ => {
                if c.rng.bool() {
                    // continue with a clone, dropping the original
                    log.push("replace by clone".into());
                    it = it.clone();
                } else {
                    log.push("by_ref.take(3)".into());
                    let g: Vec<T> = it.by_ref().take(3).collect();
                    let k = left.min(3);
                    let w = &model[lo..lo + k];
                    lo += k;
                    if g[..] != *w {
                        return fail(&log, &g, &w);
                    }
                }
            }
        }
        if lo == hi {
            after_end += 1;
            if after_end > 12 {
                break;
            }
        }
    }
    if after_end > 0 {
        c.hit("iterators driven past the end");
    }
    c.hit("iterator histories");
    c.sig(max_ops as u64 ^ (mode as u64) << 32 ^ (lo as u64) << 40 ^ hi as u64);
    Ok(())
}

/// Skips of every size from both ends, with what follows them.
pub fn every_skip<T, I>(c: &mut Ctx, what: &str, it: &I, model: &[T]) -> R
where
    T: PartialEq + Debug + Clone,
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone,
{
    let total = model.len();
    for n in 0..total + 3 {
        let (mut f, mut b) = (it.clone(), it.clone());
        let (mut lo, mut hi) = (0, total);
        if n % 2 == 1 && total > 1 {
            // one element consumed at each end
            f.next();
            f.next_back();
            b.next_back();
            b.next();
            lo += 1;
            hi -= 1;
        }
        let m = &model[lo..hi];
        let g = (f.nth(n), f.len(), f.next(), f.next_back());
        let left = m.len().saturating_sub(n.saturating_add(1));
        let want = (m.get(n).cloned(), left, if left > 0 { m.get(n + 1).cloned() } else { None }, if left > 1 { m.last().cloned() } else { None });
        if g != want {
            return Err(format!("{what}: {total} elements, window {lo}..{hi}: nth({n}), len, next, next_back: got {}, expected {}", short(&g), short(&want)));
        }
        let g = (b.nth_back(n), b.len(), b.next_back(), b.next());
        let at = |k: usize| m.len().checked_sub(k + 1).map(|i| m[i].clone());
        let want = (at(n), left, at(n + 1), if left > 1 { m.first().cloned() } else { None });
        if g != want {
            return Err(format!("{what}: {total} elements, window {lo}..{hi}: nth_back({n}), len, next_back, next: got {}, expected {}", short(&g), short(&want)));
        }
    }
    c.n(8 * total as u64);
    c.hit("iterators skipped by every distance");
    Ok(())
}

/// The complete sequence, forwards and backwards.
pub fn full<T, I>(c: &mut Ctx, what: &str, it: I, model: &[T]) -> R
where
    T: PartialEq + Debug + Clone,
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone,
{
    c.n(2 * model.len() as u64 + 2);
    let mut f = it.clone();
    for (i, w) in model.iter().enumerate() {
        let l = f.len();
        if l != model.len() - i {
            return Err(format!("{what}: len() {l} after {i} of {} elements", model.len()));
        }
        let g = f.next();
        if g.as_ref() != Some(w) {
            return Err(format!("{what}: forward element {i} of {}: got {g:?}, expected {w:?}", model.len()));
        }
    }
    for _ in 0..3 {
        if let Some(x) = f.next() {
            return Err(format!("{what}: extra element {x:?} after {} elements", model.len()));
        }
        if let Some(x) = f.next_back() {
            return Err(format!("{what}: extra back element {x:?} after {} elements", model.len()));
        }
    }
    let mut b = it;
    for (i, w) in model.iter().enumerate().rev() {
        let g = b.next_back();
        if g.as_ref() != Some(w) {
            return Err(format!("{what}: backward element {i} of {}: got {g:?}, expected {w:?}", model.len()));
        }
    }
    for _ in 0..3 {
        if let Some(x) = b.next_back() {
            return Err(format!("{what}: extra element {x:?} behind the first of {}", model.len()));
        }
        if let Some(x) = b.next() {
            return Err(format!("{what}: extra front element {x:?} after going backwards over {}", model.len()));
        }
    }
    if b.len() != 0 {
        return Err(format!("{what}: len() {} when exhausted", b.len()));
    }
    Ok(())
}

/// Jumps and single steps over a sequence given by a function, for sequences too long to keep twice.
pub fn giant<T, I>(c: &mut Ctx, what: &str, mut it: I, len: usize, at: impl Fn(usize) -> T, ops: usize) -> R
where
    T: PartialEq + Debug,
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone,
{
    let (mut lo, mut hi) = (0usize, len);
    for step in 0..ops {
        let left = hi - lo;
        if (it.len(), it.size_hint()) != (left, (left, Some(left))) {
            return Err(format!("{what}: len() {} size_hint() {:?} with {left} of {len} left", it.len(), it.size_hint()));
        }
        c.n(1);
        let back = c.rng.bool();
        let k = match c.rng.below(4) {
            0 => 0,
            1 => c.rng.below(300),
            2 => c.rng.below(left / 64 + 2),
            _ => c.rng.below(left / 8 + 2),
        };
        let w = if k >= left {
            lo = hi;
            None
        } else if back {
            hi -= k + 1;
            Some(at(hi))
        } else {
            lo += k + 1;
            Some(at(lo - 1))
        };
        let g = match (back, k) {
            (true, 0) => it.next_back(),
            (true, _) => it.nth_back(k),
            (false, 0) => it.next(),
            (false, _) => it.nth(k),
        };
        if g != w {
            return Err(format!("{what}: step {step}, skipping {k} {} of {len} elements, window now {lo}..{hi}: got {g:?}, expected {w:?}", if back { "from the back" } else { "from the front" }));
        }
        if step % 8 == 0 && hi > lo {
            let cl = it.clone();
            let g = if c.rng.bool() { (cl.clone().last(), hi - lo) } else { (cl.clone().next_back(), cl.count()) };
            if g != (Some(at(hi - 1)), hi - lo) {
                return Err(format!("{what}: last/count of a clone with {lo}..{hi} of {len} left: got {g:?}"));
            }
        }
    }
    if hi > lo && it.nth(hi - lo).is_some() {
        return Err(format!("{what}: skipping past the end of {len} elements yields one"));
    }
    if (it.next().is_some(), it.next_back().is_some(), it.len()) != (false, false, 0) {
        return Err(format!("{what}: exhausted iterator over {len} elements still yields"));
    }
    c.hit("iterators over very long sequences");
    Ok(())
}
