//! C05: rank and reads of rank/select vectors.
use vers_vecs::{BitVec, RsVec};
use vh::model::*;
use vh::*;

fn far(c: &mut Ctx, n: usize) -> usize {
    match c.rng.below(6) {
        0 => n,
        1 => n + 1,
        2 => n + c.rng.below(2000),
        3 => n.div_ceil(8192) * 8192 + c.rng.below(3),
        4 => usize::MAX - c.rng.below(3),
        _ => n + c.rng.log_u64(62) as usize,
    }
}

fn observe(c: &mut Ctx, rs: &RsVec, m: &[bool], pos: &[usize], what: &str) -> R {
    let n = m.len();
    let pre = prefix(m);
    eq!(c, (rs.len(), rs.is_empty()), (n, n == 0), "{what}: len");
    for &p in pos {
        let r1 = pre[p] as usize;
        let g = (rs.rank1(p), rs.rank0(p));
        if g != (r1, p - r1) {
            return Err(format!("{what}: (rank1,rank0)({p}) of {n} bits: got {g:?}, expected {:?}", (r1, p - r1)));
        }
        c.n(2);
        if p < n {
            let b = u64::from(m[p]);
            if rs.get(p) != Some(b) || rs.get_unchecked(p) != b {
                return Err(format!("{what}: get({p}) of {n} bits: got {:?}, expected {b}", rs.get(p)));
            }
            c.n(2);
        }
    }
    c.hit_n("rank positions", pos.len() as u64);
    let ones = pre[n] as usize;
    for _ in 0..12 {
        let p = far(c, n);
        eq!(c, (rs.rank1(p), rs.rank0(p)), (ones, n - ones), "{what}: (rank1,rank0)({p}) past the end of {n} bits");
        if p >= n {
            eq!(c, rs.get(p), None, "{what}: get({p}) past the end of {n} bits");
        }
        c.hit("ranks past the end");
    }
    for _ in 0..30 {
        if n == 0 {
            break;
        }
        let w = read_width(c).max(1).min(n);
        let p = read_pos(c, n, w);
        let e = window(m, p, w);
        eq!(c, rs.get_bits(p, w), Some(e), "{what}: get_bits({p},{w}) of {n} bits");
        eq!(c, rs.get_bits_unchecked(p, w), e, "{what}: get_bits_unchecked({p},{w}) of {n} bits");
        c.hit("multi-bit reads");
    }
    Ok(())
}

fn build(c: &mut Ctx, m: &[bool]) -> RsVec {
    let bv = gen::bitvec(&mut c.rng, m);
    if c.rng.bool() {
        RsVec::from(bv)
    } else {
        RsVec::from_bit_vec(bv)
    }
}

/// every position
fn small(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 3000);
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    let pos: Vec<usize> = (0..=n).collect();
    observe(c, &rs, &m, &pos, style)?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits ({style}), every position"));
    Ok(())
}

/// lengths around block and super-block borders, every position
fn borders(c: &mut Ctx) -> R {
    let n = gen::near(&mut c.rng, 8192, 40_000) + [0usize, 0, 64, 512, 448, 63, 511, 576][c.rng.below(8)];
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    let pos: Vec<usize> = (0..=n).collect();
    observe(c, &rs, &m, &pos, style)?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits ({style}), every position"));
    Ok(())
}

fn medium(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 400_000);
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    let pos = gen::positions(&mut c.rng, n, 3000);
    observe(c, &rs, &m, &pos, style)?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits ({style}), {} positions", pos.len()));
    Ok(())
}

fn large(c: &mut Ctx) -> R {
    let n = c.rng.range(1_000_000, 5_000_000);
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    let pos = gen::positions(&mut c.rng, n, 20_000);
    observe(c, &rs, &m, &pos, style)?;
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("{n} bits ({style}), {} positions", pos.len()));
    Ok(())
}

/// beyond 2^32 bits
fn huge(c: &mut Ctx) -> R {
    let r = big::runs(&c.rng, c.idx);
    let rs = RsVec::from_bit_vec(r.build());
    let mut pos = r.borders();
    for _ in 0..2000 {
        pos.push(c.rng.below(r.len));
    }
    eq!(c, rs.len(), r.len, "len");
    for p in pos {
        eq!(c, (rs.rank1(p), rs.rank0(p)), (r.rank(true, p), r.rank(false, p)), "(rank1,rank0)({p}) of {} bits", r.len);
        if p < r.len {
            eq!(c, rs.get(p), Some(u64::from(r.get(p))), "get({p}) of {} bits", r.len);
        }
    }
    eq!(c, rs.rank1(usize::MAX), r.rank(true, r.len), "rank1 past the end of {} bits", r.len);
    eq!(c, rs.rank0(usize::MAX), r.rank(false, r.len), "rank0 past the end of {} bits", r.len);
    c.hit("vectors beyond 2^32 bits");
    c.sig(r.len as u64);
    c.nontrivial();
    c.describe(format!("{} bits in {} runs", r.len, r.runs.len()));
    Ok(())
}

/// constructed corner cases
fn corners(c: &mut Ctx) -> R {
    let e = RsVec::from_bit_vec(BitVec::new());
    observe(c, &e, &[], &[0], "empty")?;
    for k in [1usize, 2, 3, 16, 17, 128, 129] {
        for d in [-1i64, 0, 1] {
            for unit in [64usize, 512, 8192] {
                let n = (k * unit) as i64 + d;
                if n > 300_000 {
                    continue;
                }
                let n = n as usize;
                for inv in [false, true] {
                    let mut m = vec![inv; n];
                    m[n - 1] = !inv;
                    let p = c.rng.below(n);
                    m[p] = !inv;
                    let rs = build(c, &m);
                    let pos = gen::positions(&mut c.rng, n, 300);
                    observe(c, &rs, &m, &pos, "corner")?;
                }
            }
        }
    }
    c.sig(c.rng.u64());
    c.nontrivial();
    c.describe("lengths k*unit+-1 for words, blocks and super-blocks, nearly constant contents".into());
    Ok(())
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    let n = gen::sweep(c.idx);
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    let pos: Vec<usize> = if n <= 1100 { (0..=n).collect() } else { gen::positions(&mut c.rng, n, 2000) };
    observe(c, &rs, &m, &pos, style)?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.hit("lengths swept");
    c.describe(format!("{n} bits ({style})"));
    Ok(())
}

/// every position of vectors of more than 2^16 bits
fn every_position(c: &mut Ctx) -> R {
    let n = gen::dense(&mut c.rng);
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    let pos: Vec<usize> = (0..=n).collect();
    observe(c, &rs, &m, &pos, style)?;
    let words = Words::new(&m);
    for p in 0..n {
        let w = (1 + c.rng.below(64)).min(n - p);
        let e = words.read(p, w);
        if rs.get_bits(p, w) != Some(e) || rs.get_bits_unchecked(p, w) != e {
            return Err(format!("{style}: get_bits({p},{w}) of {n} bits: got {:?}, expected {e:#x}", rs.get_bits(p, w)));
        }
    }
    c.n(2 * n as u64);
    c.hit("vectors with every position ranked");
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("every position of {n} bits ({style})"));
    Ok(())
}

fn main() {
    run::main(
        "C05",
        &[
            Scenario::new("every-position", 40, 1000, every_position),
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 20, every_length),
            Scenario::new("huge", 1, 6, huge),
            Scenario::new("large", 24, 600, large),
            Scenario::new("corners", 8, 100, corners),
            Scenario::new("small", 25_000, 600_000, small),
            Scenario::new("borders", 3000, 60_000, borders),
            Scenario::new("medium", 1500, 30_000, medium),
        ],
    );
}
