//! C01: BitVec behaves as a growable list of bits under every edit history.
use vers_vecs::BitVec;
use vh::model::*;
use vh::rng::Rng;
use vh::*;

/// one vector under test with its model and the monitor's knowledge of whether padding bits may be set
struct V {
    bv: BitVec,
    m: Vec<bool>,
    clean: bool,
}

fn push_word(m: &mut Vec<bool>, w: u64, n: usize) {
    for k in 0..n {
        m.push((w >> k) & 1 == 1);
    }
}

fn fresh(r: &mut Rng) -> V {
    let n = match r.below(5) {
        0 => 0,
        1 => 64 * r.below(5),
        2 => 63 + r.below(3),
        _ => r.below(300),
    };
    match r.below(6) {
        0 => V { bv: BitVec::new(), m: vec![], clean: true },
        1 => V { bv: BitVec::with_capacity(n), m: vec![], clean: true },
        2 => V { bv: BitVec::from_zeros(n), m: vec![false; n], clean: false },
        3 => V { bv: BitVec::from_ones(n), m: vec![true; n], clean: false },
        4 => {
            let (m, _) = gen::bits(r, n);
            V { bv: BitVec::from_bools(&m), m, clean: false }
        }
        _ => {
            let (m, _) = gen::bits(r, n);
            V { bv: gen::bitvec(r, &m), m, clean: false }
        }
    }
}

fn step(c: &mut Ctx, vs: &mut Vec<V>, log: &mut Vec<String>, cap: usize) -> R {
    let k = c.rng.below(vs.len());
    let len = vs[k].m.len();
    let op = c.rng.below(26);
    match op {
        0..=3 => {
            let b = c.rng.bool();
            let v = &mut vs[k];
            let junk = c.rng.u64() << 1;
            match op {
                0 => v.bv.append(b),
                1 => v.bv.append_bit(u64::from(b) | junk),
                2 => v.bv.append_bit_u32((u64::from(b) | junk) as u32),
                _ => {
                    if c.rng.bool() {
                        v.bv.append_bit_u16((u64::from(b) | junk) as u16);
                    } else {
                        v.bv.append_bit_u8((u64::from(b) | junk) as u8);
                    }
                }
            }
            v.m.push(b);
            log.push(format!("v{k}.append#{op}({b})"));
            c.hit("append bit");
            v.clean = v.clean || v.m.len() % 64 == 0;
        }
        4 | 5 => {
            if len + 64 > cap {
                return Ok(());
            }
            let w = *c.rng.pick(&[0, u64::MAX, 1, 1 << 63, 0x5555_5555_5555_5555]) ^ if c.rng.bool() { c.rng.u64() } else { 0 };
            let v = &mut vs[k];
            v.bv.append_word(w);
            push_word(&mut v.m, w, 64);
            // the stale part of the old last limb is cleared by append_word, the new limb holds only word bits
            v.clean = true;
            log.push(format!("v{k}.append_word({w:#x})"));
            c.hit("append word");
        }
        6..=9 => {
            let n = read_width(c);
            if len + n > cap {
                return Ok(());
            }
            let w = c.rng.u64() & mask64(n);
            let full = gen::dirty(&mut c.rng, w, n);
            let garbage = full != w;
            let v = &mut vs[k];
            if op == 9 && v.clean {
                v.bv.append_bits_unchecked(w, n);
                log.push(format!("v{k}.append_bits_unchecked({w:#x},{n})"));
                c.hit("append_bits_unchecked");
                push_word(&mut v.m, w, n);
            } else {
                v.bv.append_bits(full, n);
                log.push(format!("v{k}.append_bits({full:#x},{n})"));
                c.hit("append_bits");
                push_word(&mut v.m, w, n);
                if n > 0 {
                    let crossed = len / 64 != v.m.len() / 64;
                    v.clean = v.m.len() % 64 == 0 || (!garbage && (v.clean || crossed));
                }
            }
        }
        10..=13 => {
            let n = match c.rng.below(8) {
                0 => len,
                1 => len % 64,
                2 => 64,
                3 => c.rng.below(4),
                4 => len.saturating_sub(1),
                5 => *c.rng.pick(&[len + 1, len + 64, usize::MAX, usize::MAX - 63, 1 << 63]),
                _ => c.rng.below(len / 2 + 1),
            };
            let v = &mut vs[k];
            v.bv.drop_last(n);
            v.m.truncate(len.saturating_sub(n));
            v.clean = v.m.len() % 64 == 0 || (n == 0 && v.clean);
            log.push(format!("v{k}.drop_last({n})"));
            c.hit("drop_last");
        }
        14 | 15 => {
            if len == 0 {
                return Ok(());
            }
            let p = read_pos(c, len, 1);
            let v = &mut vs[k];
            if c.rng.bool() {
                v.bv.flip_bit(p);
            } else {
                v.bv.flip_bit_unchecked(p);
            }
            v.m[p] = !v.m[p];
            log.push(format!("v{k}.flip({p})"));
            c.hit("flip");
        }
        16 | 17 => {
            if len == 0 {
                return Ok(());
            }
            let p = read_pos(c, len, 1);
            let b = c.rng.bool();
            // only the least significant bit of the value counts
            let x = if c.rng.one_in(3) { u64::from(b) | c.rng.u64() << 1 } else { u64::from(b) };
            let v = &mut vs[k];
            if c.rng.bool() {
                let ok = v.bv.set(p, x).is_ok();
                ck!(c, ok, "set({p}) in bounds failed");
            } else {
                v.bv.set_unchecked(p, x);
            }
            v.m[p] = b;
            log.push(format!("v{k}.set({p},{x})"));
            c.hit("set");
        }
        18 => {
            // out-of-bounds set reports an error and changes nothing
            let p = len + c.rng.below(130);
            let v = &mut vs[k];
            let ok = v.bv.set(p, 1).is_ok();
            ck!(c, !ok, "set({p}) beyond len {len} succeeded");
            log.push(format!("v{k}.set({p}) out of bounds"));
            c.hit("set out of bounds");
        }
        19 | 20 => {
            // extend with another vector (possibly a copy of itself), through all interfaces
            let j = c.rng.below(vs.len());
            if len + vs[j].m.len() > cap {
                return Ok(());
            }
            let other = vs[j].bv.clone();
            let om = vs[j].m.clone();
            let v = &mut vs[k];
            match c.rng.below(4) {
                0 | 1 => {
                    v.bv.extend_bitvec(&other);
                    v.m.extend(&om);
                }
                2 => {
                    v.bv.extend([other.clone()]);
                    v.m.extend(&om);
                }
                _ => {
                    if len + 2 * om.len() > cap {
                        return Ok(());
                    }
                    v.bv.extend([&other, &other]);
                    v.m.extend(&om);
                    v.m.extend(&om);
                }
            }
            v.clean = v.m.len() % 64 == 0;
            log.push(format!("v{k}.extend(v{j})"));
            c.hit("extend");
        }
        21..=23 => {
            // split, keep both halves
            let at = match c.rng.below(6) {
                0 => 0,
                1 => len,
                2 => (c.rng.below(len / 64 + 1) * 64).min(len),
                3 => (len / 64 * 64 + c.rng.below(len % 64 + 1)).min(len),
                4 => len.saturating_sub(1),
                _ => c.rng.below(len + 1),
            };
            let v = vs.swap_remove(k);
            let (a, b) = if c.rng.bool() {
                match v.bv.split_at(at) {
                    Ok(x) => x,
                    Err(_) => return Err(format!("split_at({at}) of {len} bits failed")),
                }
            } else {
                v.bv.split_at_unchecked(at)
            };
            log.push(format!("v{k}.split_at({at})"));
            c.hit("split");
            let right = v.m[at..].to_vec();
            let mut left = v.m;
            left.truncate(at);
            vs.push(V { bv: a, clean: at % 64 == 0, m: left });
            vs.push(V { bv: b, clean: right.len() % 64 == 0, m: right });
            let n = vs.len();
            for i in [n - 2, n - 1] {
                let m = std::mem::take(&mut vs[i].m);
                observe_bitvec(c, &vs[i].bv, &m, 6).map_err(|e| format!("after split_at({at}) of {len} bits, half {}: {e}", i + 2 - n))?;
                vs[i].m = m;
            }
            while vs.len() > 4 {
                let i = c.rng.below(vs.len());
                vs.swap_remove(i);
            }
            return Ok(());
        }
        24 => {
            // a split that must fail returns the vector unchanged
            let v = vs.swap_remove(k);
            let at = len + 1 + c.rng.below(100);
            match v.bv.split_at(at) {
                Ok(_) => return Err(format!("split_at({at}) of {len} bits succeeded")),
                Err(bv) => vs.push(V { bv, m: v.m, clean: v.clean }),
            }
            log.push(format!("v{k}.split_at({at}) beyond the end"));
            c.hit("split out of bounds");
            return Ok(());
        }
        _ => {
            // fork: clone must be independent
            if vs.len() < 4 {
                let v = V { bv: vs[k].bv.clone(), m: vs[k].m.clone(), clean: vs[k].clean };
                vs.push(v);
                log.push(format!("clone v{k}"));
                c.hit("clone");
            } else {
                vs[k] = fresh(&mut c.rng);
                log.push(format!("v{k}=fresh"));
            }
        }
    }
    Ok(())
}

fn history(c: &mut Ctx, steps: usize, cap: usize) -> R {
    let mut vs = vec![fresh(&mut c.rng), fresh(&mut c.rng)];
    let mut log: Vec<String> = vec![format!("v0:{} bits v1:{} bits", vs[0].m.len(), vs[1].m.len())];
    let tail = |log: &[String], e: String| format!("{e} after {:?}", &log[log.len().saturating_sub(8)..]);
    for s in 0..steps {
        step(c, &mut vs, &mut log, cap).map_err(|e| tail(&log, e))?;
        if vs.is_empty() {
            vs.push(fresh(&mut c.rng));
        }
        // light observation after each step, full one now and then
        let k = c.rng.below(vs.len());
        let m = std::mem::take(&mut vs[k].m);
        let r = if s % 4 == 3 || m.len() < 200 {
            observe_bitvec(c, &vs[k].bv, &m, 4)
        } else {
            eq!(c, vs[k].bv.len(), m.len(), "len");
            observe_reads(c, &vs[k].bv, &m, 4)
        };
        r.map_err(|e| tail(&log, e))?;
        vs[k].m = m;
    }
    for i in 0..vs.len() {
        let m = std::mem::take(&mut vs[i].m);
        observe_bitvec(c, &vs[i].bv, &m, 8).map_err(|e| tail(&log, e))?;
        c.sig_bits(&m);
    }
    c.sig(log.len() as u64);
    c.nontrivial();
    c.describe(format!("{} edits, ending with {}", log.len() - 1, log[log.len().saturating_sub(3)..].join("; ")));
    Ok(())
}

fn short_histories(c: &mut Ctx) -> R {
    history(c, 25, 900)
}
fn long_histories(c: &mut Ctx) -> R {
    history(c, 120, 6000)
}

/// histories on vectors of many words
fn large_histories(c: &mut Ctx) -> R {
    let n = c.rng.range(20_000, 200_000);
    let (m, _) = gen::bits(&mut c.rng, n);
    let mut vs = vec![V { bv: gen::bitvec(&mut c.rng, &m), m, clean: false }, fresh(&mut c.rng)];
    let mut log = vec![format!("v0:{n} bits")];
    for _ in 0..15 {
        step(c, &mut vs, &mut log, 400_000).map_err(|e| format!("{e} after {log:?}"))?;
        if vs.is_empty() {
            vs.push(fresh(&mut c.rng));
        }
    }
    for v in &mut vs {
        let m = std::mem::take(&mut v.m);
        observe_bitvec(c, &v.bv, &m, 200).map_err(|e| format!("{e} after {log:?}"))?;
        c.sig_bits(&m);
    }
    c.nontrivial();
    c.describe(format!("{n} bits, {} edits, ending with {}", log.len() - 1, log[log.len() - 1]));
    Ok(())
}

/// every alignment: base length x appended length x dirty tail, followed by appends and observation
fn alignments(c: &mut Ctx) -> R {
    let a = (c.idx % 65) as usize;
    let b = ((c.idx / 65) % 65) as usize;
    let words = c.rng.below(3) * 64;
    let (m0, _) = gen::bits(&mut c.rng, a + words);
    let mut bv = gen::bitvec(&mut c.rng, &m0);
    let mut m = m0;
    let w = c.rng.u64();
    bv.append_bits(w, b);
    push_word(&mut m, w, b);
    observe_bitvec(c, &bv, &m, 8)?;
    let d = c.rng.below(m.len() + 1);
    bv.drop_last(d);
    m.truncate(m.len() - d);
    let w = c.rng.u64();
    match c.rng.below(3) {
        0 => {
            bv.append_word(w);
            push_word(&mut m, w, 64);
        }
        1 => {
            bv.append(false);
            m.push(false);
        }
        _ => {
            let n = c.rng.below(65);
            bv.append_bits(w, n);
            push_word(&mut m, w, n);
        }
    }
    let mut o = BitVec::new();
    o.append_bits(c.rng.u64(), c.rng.clone().below(65));
    let om: Vec<bool> = o.iter().map(|x| x == 1).collect();
    bv.extend_bitvec(&o);
    m.extend(&om);
    observe_bitvec(c, &bv, &m, 8)?;
    let at = c.rng.below(m.len() + 1);
    let (l, r) = bv.split_at(at).map_err(|_| "split failed".to_string())?;
    observe_bitvec(c, &l, &m[..at], 4)?;
    observe_bitvec(c, &r, &m[at..], 4)?;
    // and put back together
    let mut l2 = l;
    l2.extend_bitvec(&r);
    observe_bitvec(c, &l2, &m, 4)?;
    c.sig(c.idx);
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("base length {} + {b} bits, drop {d}, split at {at}", a + words));
    Ok(())
}

/// every (position, width) read on vectors of a few words with hostile padding
fn all_reads(c: &mut Ctx) -> R {
    let n = c.rng.range(1, 200);
    let (m, _) = gen::bits(&mut c.rng, n);
    let bv = gen::bitvec(&mut c.rng, &m);
    for w in 1..=64.min(n) {
        for p in 0..=n - w {
            let e = window(&m, p, w);
            if bv.get_bits(p, w) != Some(e) || bv.get_bits_unchecked(p, w) != e {
                return Err(format!(
                    "get_bits({p},{w}) of {n} bits: got {:?}/{:#x}, expected {e:#x}",
                    bv.get_bits(p, w),
                    bv.get_bits_unchecked(p, w)
                ));
            }
            c.n(2);
        }
        for i in 0..n / w {
            let e = window(&m, i * w, w);
            if bv.unpack_element(i, w) != Some(e) {
                return Err(format!("unpack_element({i},{w}) of {n} bits: got {:?}, expected {e:#x}", bv.unpack_element(i, w)));
            }
            c.n(1);
        }
    }
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("all reads of a {n}-bit vector"));
    Ok(())
}

/// edits beyond position 2^32
fn giant(c: &mut Ctx) -> R {
    let r = big::runs(&c.rng, 1 + c.idx % 3);
    let mut b = r.build();
    let mut tail: Vec<bool> = Vec::new(); // bits appended behind the runs
    let mut flips: std::collections::BTreeSet<usize> = Default::default();
    fn bit(r: &big::Runs, tail: &[bool], flips: &std::collections::BTreeSet<usize>, p: usize) -> bool {
        (if p < r.len { r.get(p) } else { tail[p - r.len] }) != flips.contains(&p)
    }
    for step in 0..2000 {
        let len = r.len + tail.len();
        let p = if c.rng.bool() { c.rng.below(len) } else { len - 1 - c.rng.below(5000) };
        match c.rng.below(8) {
            0 => {
                let x = c.rng.bool();
                b.append(x);
                tail.push(x);
            }
            1 | 2 => {
                let (w, l) = (c.rng.u64(), 1 + c.rng.below(64));
                b.append_bits(w, l);
                tail.extend((0..l).map(|i| w >> i & 1 == 1));
            }
            3 => {
                b.flip_bit(p);
                if !flips.remove(&p) {
                    flips.insert(p);
                }
            }
            4 => {
                let x = c.rng.bool();
                b.set(p, u64::from(x) | c.rng.u64() << 1).map_err(|e| e.to_string())?;
                if bit(&r, &tail, &flips, p) != x && !flips.remove(&p) {
                    flips.insert(p);
                }
            }
            5 => {
                let k = c.rng.below(tail.len().min(200) + 1);
                b.drop_last(k);
                tail.truncate(tail.len() - k);
                flips.retain(|&f| f < r.len + tail.len());
            }
            6 => {
                let o = BitVec::from_limbs(&[c.rng.u64(), c.rng.u64()]);
                b.extend_bitvec(&o);
                tail.extend(o.iter().map(|x| x == 1));
            }
            _ => {
                eq!(c, b.get(p), Some(u64::from(bit(&r, &tail, &flips, p))), "step {step}: get({p}) of {len}");
                eq!(c, b.is_bit_set(p), Some(bit(&r, &tail, &flips, p)), "step {step}: is_bit_set({p}) of {len}");
                let l = (1 + c.rng.below(64)).min(len - p);
                let w = (0..l).fold(0u64, |a, i| a | u64::from(bit(&r, &tail, &flips, p + i)) << i);
                eq!(c, b.get_bits(p, l), Some(w), "step {step}: get_bits({p},{l}) of {len}");
                eq!(c, b.unpack_element(p / 7, 7).is_some(), (p / 7 + 1) * 7 <= len, "step {step}: unpack_element({},7) of {len}", p / 7);
            }
        }
        eq!(c, b.len(), r.len + tail.len(), "step {step}: len");
        eq!(c, b.get(b.len()), None, "step {step}: get(len)");
    }
    let len = b.len();
    let ones = (0..tail.len()).filter(|&i| tail[i]).count() + r.rank(true, r.len);
    let ones = flips.iter().fold(ones as i64, |a, &p| a + if bit(&r, &tail, &flips, p) { 1 } else { -1 });
    eq!(c, (b.count_ones(), b.count_zeros()), (ones as u64, len as u64 - ones as u64), "counts of {len} bits");
    let at = (1usize << 32) + c.rng.below(50_000);
    let (x, y) = b.split_at(at).map_err(|_| "split_at inside the vector fails".to_string())?;
    eq!(c, (x.len(), y.len()), (at, len - at), "lengths after split_at({at}) of {len}");
    for _ in 0..3000 {
        let p = c.rng.below(y.len());
        eq!(c, y.get(p), Some(u64::from(bit(&r, &tail, &flips, at + p))), "second part after split_at({at}): get({p})");
        let p = at - 1 - c.rng.below(1 << 20);
        eq!(c, x.get(p), Some(u64::from(bit(&r, &tail, &flips, p))), "first part after split_at({at}): get({p})");
    }
    c.hit("histories beyond 2^32 bits");
    c.sig(c.rng.u64());
    c.nontrivial();
    c.describe(format!("2000 edits behind {} bits", r.len));
    Ok(())
}

/// bits above the lowest one, to be ignored by single-bit edits: none, few or many
fn dirt(c: &mut Ctx) -> u64 {
    (match c.rng.below(6) {
        0 => c.rng.u64(),
        1 => c.rng.u64() & c.rng.u64() & c.rng.u64(),
        2 => 1 << c.rng.below(64),
        _ => 0,
    }) << 1
}

/// every position of vectors of more than 2^16 bits: reads of every kind, single-bit edits, growth and shrinking
fn every_position(c: &mut Ctx) -> R {
    let n = gen::dense(&mut c.rng);
    let (m, style) = gen::bits(&mut c.rng, n);
    let bv = gen::bitvec(&mut c.rng, &m);
    let words = Words::new(&m);
    for p in 0..n {
        let w = (1 + c.rng.below(64)).min(n - p);
        let e = words.read(p, w);
        if bv.get_bits(p, w) != Some(e) || bv.get_bits_unchecked(p, w) != e {
            return Err(format!("get_bits({p},{w}) of {n} bits: got {:?}/{:#x}, expected {e:#x}", bv.get_bits(p, w), bv.get_bits_unchecked(p, w)));
        }
    }
    for w in [1, 1 + c.rng.below(64)] {
        for i in 0..n / w {
            let e = words.read(i * w, w);
            if bv.unpack_element(i, w) != Some(e) || bv.unpack_element_unchecked(i, w) != e {
                return Err(format!("unpack_element({i},{w}) of {n} bits: got {:?}, expected {e:#x}", bv.unpack_element(i, w)));
            }
        }
    }
    // edits of every position, in place
    let mut v = bv.clone();
    for p in 0..n {
        if p % 2 == 0 {
            v.flip_bit(p);
        } else {
            v.flip_bit_unchecked(p);
        }
    }
    let flipped: Vec<bool> = m.iter().map(|b| !b).collect();
    observe_bitvec(c, &v, &flipped, 4).map_err(|e| format!("after flipping every bit: {e}"))?;
    let (m2, _) = gen::bits(&mut c.rng, n);
    for (p, &b) in m2.iter().enumerate() {
        let dirt = dirt(c);
        let r = if p % 2 == 0 { v.set(p, dirt | u64::from(b)) } else { Ok(v.set_unchecked(p, dirt | u64::from(b))) };
        ck!(c, r.is_ok(), "set({p}) of {n} bits refused");
    }
    observe_bitvec(c, &v, &m2, 4).map_err(|e| format!("after setting every bit: {e}"))?;
    // growth through every length, then shrinking through every length
    let mut g = BitVec::new();
    for (p, &b) in m.iter().enumerate() {
        if p % 2 == 0 {
            g.append(b);
        } else {
            g.append_bit(dirt(c) | u64::from(b));
        }
        if g.len() != p + 1 || g.get(p) != Some(u64::from(b)) {
            return Err(format!("bit {p} appended to {p} bits reads {:?}, expected {b}", g.get(p)));
        }
    }
    observe_bitvec(c, &g, &m, 4).map_err(|e| format!("grown bit by bit: {e}"))?;
    let low = c.rng.below(100);
    for l in (low..n).rev() {
        g.drop_last(1);
        if g.len() != l || g.get(l).is_some() || (l > 0 && g.get(l - 1) != Some(u64::from(m[l - 1]))) {
            return Err(format!("dropping to {l} bits: length {}, last bit {:?}", g.len(), g.get(l.saturating_sub(1))));
        }
    }
    observe_bitvec(c, &g, &m[..low], 4).map_err(|e| format!("shrunk bit by bit: {e}"))?;
    c.n(8 * n as u64);
    c.hit("vectors with every position read and edited");
    c.sig_bits(&m);
    c.nontrivial();
    c.describe(format!("every position of {n} bits ({style})"));
    Ok(())
}

fn main() {
    run::main(
        "C01",
        &[
            Scenario::new("every-position", 24, 600, every_position),
            Scenario::new("giant", 1, 6, giant),
            Scenario::new("short_histories", 120_000, 3_000_000, short_histories),
            Scenario::new("long_histories", 8000, 200_000, long_histories),
            Scenario::new("large_histories", 300, 6000, large_histories),
            Scenario::new("alignments", 65 * 65 * 3, 65 * 65 * 60, alignments),
            Scenario::new("all_reads", 2000, 40_000, all_reads),
        ],
    );
}
