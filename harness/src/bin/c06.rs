//! C06: select is the exact inverse of rank.
use vers_vecs::{BitVec, RsVec};
use vh::model::*;
use vh::*;

fn ranks(c: &mut Ctx, total: usize, count: usize) -> Vec<usize> {
    if total <= count {
        return (0..total).collect();
    }
    let mut v = vec![0, 1, total - 1, total / 2];
    for _ in 0..count {
        let k = match c.rng.below(5) {
            0 => gen::near(&mut c.rng, 8192, total),
            1 => gen::near(&mut c.rng, 512, total),
            2 => gen::near(&mut c.rng, 64, total),
            _ => c.rng.below(total),
        };
        v.push(k.min(total - 1));
    }
    v
}

fn observe(c: &mut Ctx, rs: &RsVec, m: &[bool], count: usize, what: &str) -> R {
    let n = m.len();
    for bit in [true, false] {
        let pos = positions_of(m, bit);
        let ks = ranks(c, pos.len(), count);
        for &k in &ks {
            let g = if bit { rs.select1(k) } else { rs.select0(k) };
            if g != pos[k] {
                return Err(format!("{what}: select{}({k}) of {} such bits in {n}: got {g}, expected {}", u8::from(bit), pos.len(), pos[k]));
            }
            let r = if bit { rs.rank1(g) } else { rs.rank0(g) };
            if r != k {
                return Err(format!("{what}: rank{0}(select{0}({k})) = {r}", u8::from(bit)));
            }
        }
        c.n(2 * ks.len() as u64);
        c.hit_n(if bit { "select1 ranks" } else { "select0 ranks" }, ks.len() as u64);
        for k in [pos.len(), pos.len() + 1, pos.len() + 8192, usize::MAX, usize::MAX - 1, 1 << 63, pos.len() + c.rng.below(100_000)] {
            let g = if bit { rs.select1(k) } else { rs.select0(k) };
            eq!(c, g, n, "{what}: select{}({k}) with {} such bits in {n}", u8::from(bit), pos.len());
        }
        c.hit_n("select beyond the last", 7);
        // select of rank is the identity on positions holding the bit
        for _ in 0..20 {
            if pos.is_empty() {
                break;
            }
            let p = *c.rng.pick(&pos);
            let g = if bit { rs.select1(rs.rank1(p)) } else { rs.select0(rs.rank0(p)) };
            eq!(c, g, p, "{what}: select{0}(rank{0}({p})) of {n} bits", u8::from(bit));
        }
    }
    Ok(())
}

fn build(c: &mut Ctx, m: &[bool]) -> RsVec {
    let rs = RsVec::from_bit_vec(gen::bitvec(&mut c.rng, m));
    if c.rng.one_in(3) {
        // exact-capacity copy
        rs.clone()
    } else {
        rs
    }
}

fn small(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 4000);
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    observe(c, &rs, &m, usize::MAX, style)?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits ({style}), every rank"));
    Ok(())
}

/// a few super-blocks, every rank
fn blocks(c: &mut Ctx) -> R {
    let n = gen::near(&mut c.rng, 8192, 60_000) + [0usize, 64, 512, 1024, 7, 513][c.rng.below(6)];
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    observe(c, &rs, &m, usize::MAX, style)?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits ({style}), every rank"));
    Ok(())
}

fn medium(c: &mut Ctx) -> R {
    let n = gen::len(&mut c.rng, 500_000);
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    observe(c, &rs, &m, 4000, style)?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.describe(format!("{n} bits ({style}), 4000 ranks"));
    Ok(())
}

fn large(c: &mut Ctx) -> R {
    let n = c.rng.range(1_000_000, 6_000_000);
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    observe(c, &rs, &m, 20_000, style)?;
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("{n} bits ({style}), 20000 ranks"));
    Ok(())
}

/// samples far apart: dense islands in a sea of the other bit, so that one select sample spans many super-blocks
fn islands(c: &mut Ctx) -> R {
    let n = c.rng.range(200_000, 3_000_000);
    let sea = c.rng.bool();
    let mut m = vec![sea; n];
    for _ in 0..c.rng.range(1, 12) {
        let l = match c.rng.below(4) {
            0 => 1,
            1 => c.rng.range(1, 700),
            2 => c.rng.range(8000, 8400),
            _ => c.rng.range(1, 30_000),
        };
        let a = match c.rng.below(3) {
            0 => gen::near(&mut c.rng, 8192, n),
            1 => gen::near(&mut c.rng, 512, n),
            _ => c.rng.below(n),
        }
        .min(n - 1);
        let e = (a + l).min(n);
        m[a..e].fill(!sea);
    }
    // make the number of island bits hit a sample border exactly now and then
    let pos = positions_of(&m, !sea);
    if c.rng.bool() && pos.len() > 8192 {
        let surplus = pos.len() % 8192;
        for &p in pos.iter().rev().take(surplus + c.rng.below(2)) {
            m[p] = sea;
        }
    }
    let rs = build(c, &m);
    observe(c, &rs, &m, 12_000, "islands")?;
    c.hit("vectors with sparse islands");
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("{n} bits, islands of {} in a sea of {}", u8::from(!sea), u8::from(sea)));
    Ok(())
}

/// one super-block configuration after another: block counts at all fill levels, every rank of a vector
/// whose blocks have extreme populations
fn fill_levels(c: &mut Ctx) -> R {
    let nb = c.rng.range(1, 70);
    let mut m = Vec::new();
    for _ in 0..nb {
        let mut b = vec![false; 512];
        match c.rng.below(6) {
            0 => b.fill(true),
            1 => {}
            2 => b[511] = true,
            3 => b[0] = true,
            4 => {
                b.fill(true);
                let k = c.rng.below(512);
                b[k] = false;
            }
            _ => {
                let k = c.rng.below(512);
                for x in b.iter_mut().take(k) {
                    *x = true;
                }
            }
        }
        m.extend(b);
    }
    let cut = c.rng.below(600).min(m.len());
    m.truncate(m.len() - cut);
    let rs = build(c, &m);
    observe(c, &rs, &m, usize::MAX, "fill levels")?;
    c.sig_bits(&m);
    if !m.is_empty() {
        c.nontrivial();
    }
    c.describe(format!("{} bits in {nb} blocks of extreme population, every rank", m.len()));
    Ok(())
}

fn huge(c: &mut Ctx) -> R {
    let r = big::runs(&c.rng, c.idx);
    let rs = RsVec::from_bit_vec(r.build());
    for bit in [true, false] {
        let total = r.rank(bit, r.len);
        let mut ks: Vec<usize> = r.borders().iter().map(|&p| r.rank(bit, p)).collect();
        for _ in 0..1500 {
            ks.push(c.rng.below(total.max(1)));
        }
        ks.extend([total, total + 1, total.saturating_sub(1), usize::MAX]);
        for k in ks {
            let g = if bit { rs.select1(k) } else { rs.select0(k) };
            eq!(c, g, r.select(bit, k), "select{}({k}) of {total} such bits in {}", u8::from(bit), r.len);
        }
    }
    c.hit("vectors beyond 2^32 bits");
    c.sig(r.len as u64);
    c.nontrivial();
    c.describe(format!("{} bits in {} runs", r.len, r.runs.len()));
    Ok(())
}

fn corners(c: &mut Ctx) -> R {
    let e = RsVec::from_bit_vec(BitVec::new());
    observe(c, &e, &[], 10, "empty")?;
    for n in [1usize, 63, 64, 65, 511, 512, 513, 8191, 8192, 8193, 16384, 16385, 24576, 65536, 65537, 131_072] {
        for inv in [false, true] {
            let m = vec![inv; n];
            let rs = build(c, &m);
            observe(c, &rs, &m, 2000, "constant")?;
            let mut m = vec![inv; n];
            m[n - 1] = !inv;
            let rs = build(c, &m);
            observe(c, &rs, &m, 2000, "last differs")?;
        }
    }
    c.sig(c.rng.u64());
    c.nontrivial();
    c.describe("constant vectors at structural lengths".into());
    Ok(())
}

/// every length up to 1100, then lengths around powers of two
fn every_length(c: &mut Ctx) -> R {
    let n = gen::sweep(c.idx);
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    observe(c, &rs, &m, if n <= 1100 { usize::MAX } else { 2000 }, style)?;
    c.sig_bits(&m);
    if n > 0 {
        c.nontrivial();
    }
    c.hit("lengths swept");
    c.describe(format!("{n} bits ({style})"));
    Ok(())
}

/// every rank of vectors of more than 2^16 bits
fn every_position(c: &mut Ctx) -> R {
    let n = gen::dense(&mut c.rng);
    let (m, style) = gen::bits(&mut c.rng, n);
    let rs = build(c, &m);
    observe(c, &rs, &m, usize::MAX, style)?;
    c.hit("vectors with every rank selected");
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("every rank of {n} bits ({style})"));
    Ok(())
}

fn main() {
    run::main(
        "C06",
        &[
            Scenario::new("every-position", 40, 1000, every_position),
            Scenario::new("every-length", gen::SWEEP, gen::SWEEP * 20, every_length),
            Scenario::new("huge", 1, 6, huge),
            Scenario::new("large", 24, 500, large),
            Scenario::new("islands", 80, 2000, islands),
            Scenario::new("corners", 8, 80, corners),
            Scenario::new("small", 8_000, 200_000, small),
            Scenario::new("blocks", 1200, 25_000, blocks),
            Scenario::new("fill_levels", 1200, 25_000, fill_levels),
            Scenario::new("medium", 800, 16_000, medium),
        ],
    );
}
