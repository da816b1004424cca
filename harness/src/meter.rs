//! Counts executed instructions with callgrind client requests.
use crate::rng::Rng;
use std::hint::black_box;
use vers_vecs::BitVec;

/// valgrind client request
pub fn request(code: u64, a: u64) -> u64 {
    let args: [u64; 6] = [code, a, 0, 0, 0, 0];
    let mut r: u64 = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rdx") r, in("rax") args.as_ptr(), inout("rdi") 0u64 => _,
        );
    }
    black_box(&args);
    r
}
pub const CT: u64 = 0x4354_0000;

pub struct Meter {
    base: String,
    n: u64,
}
static mut DUMPS: u64 = 0;

impl Meter {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Meter { base: std::env::var("VH_CG").unwrap_or_default().replace("%p", &std::process::id().to_string()), n: unsafe { DUMPS } }
    }
    pub fn on() -> bool {
        request(0x1001, 0) > 0
    }
    /// instructions executed by `f`
    pub fn count(&mut self, f: &mut dyn FnMut()) -> Result<u64, String> {
        request(CT + 1, 0);
        request(CT + 2, 0);
        f();
        request(CT + 2, 0);
        request(CT, 0);
        self.n += 1;
        unsafe { DUMPS = self.n };
        let p = format!("{}.{}", self.base, self.n);
        let s = std::fs::read_to_string(&p).map_err(|e| format!("harness: no callgrind dump {p}: {e}"))?;
        let _ = std::fs::remove_file(&p);
        let l = s.lines().find(|l| l.starts_with("summary:") || l.starts_with("totals:")).ok_or("harness: no total in the dump")?;
        l.split(':').nth(1).and_then(|x| x.trim().parse().ok()).ok_or_else(|| "harness: bad total".to_string())
    }
}

pub fn bit_content(r: &Rng, n: usize, style: usize) -> BitVec {
    let mut b = BitVec::from_zeros(n);
    match style {
        0 => {
            for i in 0..n / 64 {
                let w = r.u64();
                for k in 0..8 {
                    if w >> k & 1 == 1 {
                        b.flip_bit(i * 64 + k * 7);
                    }
                }
            }
        }
        // a handful of ones spread over everything
        1 => {
            for i in 0..60 {
                b.flip_bit(n / 60 * i + r.below(n / 60));
            }
        }
        // all ones in a short region at the end
        2 => {
            for i in n - n / 64..n {
                b.flip_bit(i);
            }
        }
        // ones only, with a few zeros at both ends
        3 => {
            b = BitVec::from_ones(n);
            for i in 0..40 {
                b.flip_bit(i * 3);
                b.flip_bit(n - 1 - i * 3);
            }
        }
        // a few ones, a huge gap, then dense
        4 => {
            for i in 0..100 {
                b.flip_bit(i * 5);
            }
            for i in (n - n / 16..n).step_by(2) {
                b.flip_bit(i);
            }
        }
        // slightly fewer ones than a select sample covers
        _ => {
            for i in 0..8190.min(n / 3) {
                b.flip_bit(i * (n / 8190.min(n / 3)));
            }
        }
    }
    b
}

pub fn ef_content(r: &Rng, n: usize, style: usize) -> Vec<u64> {
    let mut v: Vec<u64> = match style {
        0 => (0..n).map(|_| r.below64(n as u64 * 50)).collect(),
        // everything in one bucket, one outlier
        1 => (0..n).map(|i| if i + 1 == n { 1 << 62 } else { 1000 + i as u64 }).collect(),
        // one outlier below, everything in one bucket at the top
        2 => (0..n).map(|i| if i == 0 { 0 } else { (1 << 62) + 2 * i as u64 }).collect(),
        // two clusters
        3 => (0..n).map(|i| if i < n / 2 { i as u64 } else { (1 << 60) + i as u64 }).collect(),
        // half of the elements equal
        4 => (0..n).map(|i| if i < n / 4 { i as u64 * 9 } else if i < 3 * n / 4 { n as u64 * 9 } else { n as u64 * 20 + i as u64 * 13 }).collect(),
        // all equal
        5 => vec![77; n],
        // geometric gaps
        6 => (0..n).map(|_| r.log_u64(62)).collect(),
        // dense
        7 => (0..n as u64).collect(),
        // a few distinct values, each stored many times, and one far outlier
        8 => (0..n).map(|i| if i + 1 == n { 1 << 61 } else { 5000 + (i * 6 / n) as u64 * 3 }).collect(),
        // far outlier below, the rest few distinct values at the top
        _ => (0..n).map(|i| if i == 0 { 3 } else { (1 << 61) + (i * 5 / n) as u64 * 1000 }).collect(),
    };
    v.sort_unstable();
    v
}

pub fn tree_bits(r: &Rng, n: usize, style: usize) -> Vec<bool> {
    let mut p = Vec::with_capacity(2 * n);
    match style {
        0 => {
            p.extend(std::iter::repeat(true).take(n));
            p.extend(std::iter::repeat(false).take(n));
        }
        1 => {
            p.push(true);
            for _ in 1..n {
                p.extend([true, false]);
            }
            p.push(false);
        }
        2 => {
            // a path with a leaf hanging off each node on the way down
            for _ in 0..n / 2 {
                p.extend([true, true, false]);
            }
            p.extend(std::iter::repeat(false).take(n / 2));
        }
        3 => {
            // two deep combs below one root
            p.push(true);
            for _ in 0..2 {
                p.extend(std::iter::repeat(true).take(n / 2));
                p.extend(std::iter::repeat(false).take(n / 2));
            }
            p.push(false);
        }
        4 => {
            // leaves hanging off each node on the way up
            p.extend(std::iter::repeat(true).take(n / 2));
            for _ in 0..n / 2 {
                p.extend([true, false, false]);
            }
        }
        _ => {
            p.push(true);
            let (mut open, mut d) = (1, 1);
            while open < n {
                if d == 1 || r.bool() {
                    p.push(true);
                    open += 1;
                    d += 1;
                } else {
                    p.push(false);
                    d -= 1;
                }
            }
            p.extend(std::iter::repeat(false).take(d));
        }
    }
    p
}
