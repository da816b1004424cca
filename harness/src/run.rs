//! Case runner: executes scenarios of one property monitor, records what the oracle observed, and reports
//! violations with the seed that replays them.
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// Everything one case may use and everything it reports.
pub struct Ctx {
    pub rng: Rng,
    /// 0 = quick, 1 = thorough
    pub tier: u32,
    /// index of the case within its scenario (drives systematic coverage: small cases enumerate)
    pub idx: u64,
    hits: BTreeMap<&'static str, u64>,
    checks: u64,
    sig: u64,
    nontrivial: bool,
    desc: String,
    known: Vec<String>,
    /// digest over all observed answers (compared between builds by C23)
    digest: u64,
}

impl Ctx {
    pub fn new(seed: u64, tier: u32, idx: u64) -> Self {
        Ctx {
            rng: Rng::new(seed),
            tier,
            idx,
            hits: BTreeMap::new(),
            checks: 0,
            sig: 0x1234_5678_9abc_def1,
            nontrivial: false,
            desc: String::new(),
            known: Vec::new(),
            digest: 0,
        }
    }
    /// count that a named operation or situation was observed
    #[inline]
    pub fn hit(&mut self, l: &'static str) {
        *self.hits.entry(l).or_insert(0) += 1;
    }
    #[inline]
    pub fn hit_n(&mut self, l: &'static str, n: u64) {
        *self.hits.entry(l).or_insert(0) += n;
    }
    /// mix case content into the case signature used to count distinct cases
    #[inline]
    pub fn sig(&mut self, x: u64) {
        self.sig = mix(self.sig, x);
    }
    pub fn sig_bits(&mut self, bits: &[bool]) {
        self.sig(bits.len() as u64);
        for c in bits.chunks(64) {
            let mut w = 0u64;
            for (i, &b) in c.iter().enumerate() {
                w |= u64::from(b) << i;
            }
            self.sig(w);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn describe(&mut self, s: String) {
        self.desc = s;
    }
    /// count `n` oracle comparisons
    #[inline]
    pub fn n(&mut self, n: u64) {
        self.checks += n;
    }
    pub fn known(&mut self, s: &str) {
        if !self.known.iter().any(|k| k == s) {
            self.known.push(s.to_string());
        }
    }
    /// record an observed answer in the digest
    #[inline]
    pub fn dig(&mut self, x: u64) {
        self.digest = mix(self.digest, x);
    }
    pub fn digest(&self) -> u64 {
        self.digest
    }
    #[inline]
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, got: T, want: T, what: &str) -> R {
        self.checks += 1;
        if got == want {
            Ok(())
        } else {
            Err(format!("{what}: got {}, expected {}", short(&got), short(&want)))
        }
    }
    #[inline]
    pub fn ok(&mut self, cond: bool, what: &str) -> R {
        self.checks += 1;
        if cond {
            Ok(())
        } else {
            Err(what.to_string())
        }
    }
}

pub fn short<T: std::fmt::Debug>(t: &T) -> String {
    let mut s = format!("{t:?}");
    if s.len() > 300 {
        let mut i = 300;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.truncate(i);
        s.push_str("...");
    }
    s
}

/// compare with a lazily formatted message
#[macro_export]
macro_rules! eq {
    ($c:expr, $got:expr, $want:expr, $($fmt:tt)+) => {{
        let g = $got;
        let w = $want;
        $c.n(1);
        if g != w {
            return Err(format!("{}: got {}, expected {}", format!($($fmt)+), $crate::run::short(&g), $crate::run::short(&w)));
        }
    }};
}
#[macro_export]
macro_rules! ck {
    ($c:expr, $cond:expr, $($fmt:tt)+) => {{
        $c.n(1);
        if !$cond {
            return Err(format!($($fmt)+));
        }
    }};
}

pub struct Scenario {
    pub name: &'static str,
    /// number of cases in the quick and thorough tiers
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Ctx) -> R,
}

impl Scenario {
    pub const fn new(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx) -> R) -> Self {
        Scenario { name, quick, thorough, f }
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("panic '{msg}' at {loc}"));
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}

/// run a closure, turning a panic into an error message
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

static CASE_START_MS: AtomicU64 = AtomicU64::new(u64::MAX);

fn cpu_ms() -> u64 {
    // utime + stime of this process from /proc/self/stat, in clock ticks of 10 ms
    let Ok(s) = std::fs::read_to_string("/proc/self/stat") else { return 0 };
    let Some(p) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[p + 1..].split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12)) * 10
}

pub struct Opts {
    pub seed: u64,
    pub tier: u32,
    pub shard: u64,
    pub nshards: u64,
    pub out: Option<String>,
    pub replay: Option<(String, u64)>,
    pub deadline: Duration,
    pub hang_ms: u64,
    pub only: Option<String>,
    /// comma-separated scenarios to leave out
    pub skip: String,
    pub scale: f64,
    pub digests: bool,
    pub list: bool,
}

pub fn opts() -> Opts {
    let mut o = Opts {
        seed: 1,
        tier: 0,
        shard: 0,
        nshards: 1,
        out: None,
        replay: None,
        deadline: Duration::from_secs(150),
        hang_ms: 90_000,
        only: None,
        skip: String::new(),
        scale: 1.0,
        digests: false,
        list: false,
    };
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("missing argument value");
        match k.as_str() {
            "--seed" => o.seed = v().parse().expect("seed"),
            "--tier" => o.tier = u32::from(v() == "thorough"),
            "--shard" => {
                let s = v();
                let (a, b) = s.split_once('/').expect("shard i/n");
                o.shard = a.parse().expect("shard");
                o.nshards = b.parse().expect("shards");
            }
            "--out" => o.out = Some(v()),
            "--replay" => {
                let s = v();
                let (a, b) = s.rsplit_once(':').expect("replay scenario:idx");
                o.replay = Some((a.to_string(), b.parse().expect("idx")));
            }
            "--deadline" => o.deadline = Duration::from_secs(v().parse().expect("deadline")),
            "--hang-ms" => o.hang_ms = v().parse().expect("hang-ms"),
            "--only" => o.only = Some(v()),
            "--skip" => o.skip = v(),
            "--scale" => o.scale = v().parse().expect("scale"),
            "--digests" => o.digests = true,
            "--list" => o.list = true,
            _ => panic!("unknown option {k}"),
        }
    }
    o
}

pub fn main(prop: &str, scenarios: &[Scenario]) {
    let o = opts();
    if o.list {
        for s in scenarios {
            println!("{} {} {}", s.name, s.quick, s.thorough);
        }
        return;
    }
    install_panic_hook();
    let t0 = Instant::now();
    let progress = o.out.as_ref().map(|p| format!("{p}.progress"));

    // watchdog: a single case that burns this much CPU time does not terminate in any useful sense
    if !cfg!(miri) {
        let progress = progress.clone();
        let hang = o.hang_ms;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = CASE_START_MS.load(Ordering::Relaxed);
            if s != u64::MAX && cpu_ms().saturating_sub(s) > hang {
                if let Some(p) = &progress {
                    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(p) {
                        let _ = writeln!(f, "HANG");
                    }
                }
                eprintln!("HANG");
                std::process::exit(77);
            }
        });
    }

    let mut sigs: HashSet<u64> = HashSet::new();
    let mut hits: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut cases, mut checks, mut trivial) = (0u64, 0u64, 0u64);
    let mut samples: Vec<String> = Vec::new();
    let mut violations: Vec<(String, u64, String, String)> = Vec::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut per: BTreeMap<&'static str, (u64, u64)> = BTreeMap::new();
    let mut digests = String::new();
    let mut truncated = false;
    let mut slowest = (0.0f64, String::new());

    'outer: for sc in scenarios {
        if let Some(only) = &o.only {
            if sc.name != only {
                continue;
            }
        }
        if o.skip.split(',').any(|s| s == sc.name) {
            continue;
        }
        let n = if o.tier == 0 { sc.quick } else { sc.thorough };
        let n = ((n as f64 * o.scale).ceil() as u64).max(1);
        let (lo, hi) = match &o.replay {
            Some((name, idx)) => {
                if name != sc.name {
                    continue;
                }
                (*idx, *idx + 1)
            }
            None => (0, n),
        };
        let e = per.entry(sc.name).or_insert((0, 0));
        for idx in lo..hi {
            if o.replay.is_none() && idx % o.nshards != o.shard {
                continue;
            }
            if t0.elapsed() > o.deadline {
                truncated = true;
                break 'outer;
            }
            let case_seed = mix(mix(o.seed, hash_str(prop)), mix(hash_str(sc.name), idx));
            if let Some(p) = &progress {
                let _ = std::fs::write(p, format!("{}:{}\n", sc.name, idx));
            }
            if !cfg!(miri) {
                CASE_START_MS.store(cpu_ms(), Ordering::Relaxed);
            }
            let tc = Instant::now();
            let mut c = Ctx::new(case_seed, o.tier, idx);
            let r = match catch_unwind(AssertUnwindSafe(|| (sc.f)(&mut c))) {
                Ok(r) => r,
                Err(_) => Err(last_panic()),
            };
            let dt = tc.elapsed().as_secs_f64();
            if dt > slowest.0 {
                slowest = (dt, format!("{}:{}", sc.name, idx));
            }
            cases += 1;
            e.0 += 1;
            checks += c.checks;
            e.1 += c.checks;
            for (k, v) in &c.hits {
                *hits.entry(k).or_insert(0) += v;
            }
            for k in &c.known {
                *known.entry(k.clone()).or_insert(0) += 1;
            }
            if c.nontrivial && c.checks > 0 {
                sigs.insert(mix(c.sig, hash_str(sc.name)));
            } else {
                trivial += 1;
            }
            if e.0 <= 2 && !c.desc.is_empty() {
                samples.push(format!("{}[{}]: {} ({} oracle comparisons)", sc.name, idx, c.desc, c.checks));
            }
            if o.digests {
                let _ = writeln!(digests, "{}:{} {:016x}", sc.name, idx, c.digest);
            }
            if o.replay.is_some() {
                println!("{} -> {:?} [{}] checks={} digest={:016x}", sc.name, r, c.desc, c.checks, c.digest);
            }
            if let Err(m) = r {
                violations.push((sc.name.to_string(), idx, m, c.desc.clone()));
                if violations.len() >= 3 {
                    break 'outer;
                }
            }
        }
    }
    CASE_START_MS.store(u64::MAX, Ordering::Relaxed);

    let mut j = String::new();
    let _ = write!(
        j,
        "{{\"prop\":\"{prop}\",\"cases\":{cases},\"checks\":{checks},\"trivial\":{trivial},\"truncated\":{truncated},\"wall_s\":{:.3},\"slowest\":[{:.3},\"{}\"]",
        t0.elapsed().as_secs_f64(),
        slowest.0,
        esc(&slowest.1)
    );
    let join = |v: Vec<String>| v.join(",");
    let _ = write!(j, ",\"hits\":{{{}}}", join(hits.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect()));
    let _ = write!(
        j,
        ",\"scenarios\":{{{}}}",
        join(per.iter().map(|(k, v)| format!("\"{}\":[{},{}]", esc(k), v.0, v.1)).collect())
    );
    let _ = write!(j, ",\"known\":{{{}}}", join(known.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect()));
    let _ = write!(j, ",\"samples\":[{}]", join(samples.iter().map(|s| format!("\"{}\"", esc(s))).collect()));
    let _ = write!(
        j,
        ",\"violations\":[{}]",
        join(
            violations
                .iter()
                .map(|(s, i, m, d)| format!(
                    "{{\"scenario\":\"{}\",\"idx\":{i},\"message\":\"{}\",\"case\":\"{}\"}}",
                    esc(s),
                    esc(m),
                    esc(d)
                ))
                .collect()
        )
    );
    let _ = write!(j, ",\"sigs\":[{}]", join(sigs.iter().map(|s| format!("\"{s:x}\"")).collect()));
    j.push('}');
    match &o.out {
        Some(p) => {
            std::fs::write(p, j).expect("write result");
            if o.digests {
                std::fs::write(format!("{p}.digests"), digests).expect("write digests");
            }
        }
        None => {
            for v in &violations {
                println!("FAIL {}:{} {} [{}]", v.0, v.1, v.2, v.3);
            }
            println!(
                "{prop}: cases={cases} checks={checks} distinct={} trivial={trivial} truncated={truncated} t={:.2}s slowest={:?}",
                sigs.len(),
                t0.elapsed().as_secs_f64(),
                slowest
            );
            for (k, v) in &per {
                println!("   {k}: {v:?}");
            }
            println!("   hits={hits:?}");
            if o.digests {
                println!("{digests}");
            }
        }
    }
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}
