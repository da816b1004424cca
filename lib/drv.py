"""Shared driver: builds the monitors against /repo's working tree, runs them in shards, merges what they observed."""
import json, os, resource, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
NCPU = min(8, os.cpu_count() or 8)
GB = 1 << 30


def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


FLAGS = cpu_flags()
V3 = {"avx2", "bmi1", "bmi2", "fma", "popcnt"} <= FLAGS
V4 = V3 and {"avx512f", "avx512bw", "avx512cd", "avx512dq", "avx512vl"} <= FLAGS

# name -> (target-cpu, features, cargo profile, usable here)
CONFIGS = {
    "fb-chk": ("x86-64", [], "chk", True),
    "fb-rel": ("x86-64", [], "release", True),
    "v3-rel": ("x86-64-v3", ["u16l"], "release", V3),
    "v3-chk": ("x86-64-v3", ["u16l"], "chk", V3),
    "v4-rel": ("x86-64-v4", ["simd", "u16l"], "release", V4),
    "v4-chk": ("x86-64-v4", ["simd"], "chk", V4),
    # unusual combinations: the features without the instructions they are made for, and the other way round
    "v1-opt": ("x86-64", ["simd", "u16l"], "release", True),
    "v2-rel": ("x86-64-v2", [], "release", {"popcnt", "sse4_2"} <= FLAGS),
    "v3-opt": ("x86-64-v3", ["simd"], "release", V3),
    "v4-pln": ("x86-64-v4", [], "release", V4),
}
MAIN = ["fb-chk", "fb-rel", "v3-rel", "v3-chk", "v4-rel", "v4-chk"]


class CheckError(Exception):
    """The check itself could not reach a verdict."""


def usable(names):
    out = [n for n in names if CONFIGS[n][3]]
    return out


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, env=None, cwd=None, mem=None):
    """run a command; returns (rc, stdout, stderr, timed_out)"""
    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim,
                         start_new_session=True, text=True, errors="replace")
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, er = p.communicate()
        return p.returncode, o, er, True


def cargo_build(bins, tdir, rustflags, features=(), profile="release", toolchain=None, target=None, extra=(),
                timeout=700, env=None):
    """build harness binaries; returns the directory that holds them"""
    cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + ["build", "--offline", "--profile", profile]
    for b in bins:
        cmd += ["--bin", b]
    if features:
        cmd += ["--features", ",".join(features)]
    if target:
        cmd += ["--target", target]
    cmd += list(extra)
    full = os.path.join(TARGET, tdir)
    e = {"CARGO_TARGET_DIR": full, "RUSTFLAGS": rustflags, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
         "CARGO_INCREMENTAL": "0"}
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    if env:
        e.update(env)
    rc, o, er, to = run(cmd, timeout, env=e, cwd=HARNESS)
    if rc != 0:
        raise CheckError(f"build failed ({tdir}{', timeout' if to else ''}):\n{er[-4000:]}")
    sub = os.path.join(full, target) if target else full
    return os.path.join(sub, profile)


def build_configs(bin_, names, features=()):
    """build one monitor in several configurations in parallel -> {config: path of binary}"""
    def one(n):
        cpu, feats, prof, _ = CONFIGS[n]
        d = cargo_build([bin_], n, f"-C target-cpu={cpu}", list(feats) + list(features), prof)
        return n, os.path.join(d, bin_)
    with ThreadPoolExecutor(len(names)) as ex:
        return dict(ex.map(one, names))


SIGNAMES = {-signal.SIGSEGV: "SIGSEGV", -signal.SIGBUS: "SIGBUS", -signal.SIGILL: "SIGILL", -signal.SIGABRT: "SIGABRT",
            -signal.SIGFPE: "SIGFPE", -signal.SIGTRAP: "SIGTRAP"}


class Merge:
    def __init__(self):
        self.cases = self.checks = self.trivial = 0
        self.sigs = set()
        self.hits = {}
        self.scen = {}
        self.known = {}
        self.samples = []
        self.violations = []  # dicts: config, seed, scenario, idx, message, case
        self.per_config = {}
        self.truncated = []
        self.errors = []
        self.notes = []
        self.digests = {}
        self.slowest = (0, "")
        self.lock = threading.Lock()

    def add(self, cfg, seed, j):
        with self.lock:
            self.cases += j["cases"]
            self.checks += j["checks"]
            self.trivial += j["trivial"]
            self.sigs.update(j["sigs"])
            for k, v in j["hits"].items():
                self.hits[k] = self.hits.get(k, 0) + v
            for k, (a, b) in j["scenarios"].items():
                x = self.scen.setdefault(k, [0, 0])
                x[0] += a
                x[1] += b
            for k, v in j["known"].items():
                self.known[k] = self.known.get(k, 0) + v
            pc = self.per_config.setdefault(cfg, {"cases": 0, "oracle_comparisons": 0})
            pc["cases"] += j["cases"]
            pc["oracle_comparisons"] += j["checks"]
            for s in j["samples"]:
                self.samples.append(f"[{cfg}] {s}")
            for v in j["violations"]:
                self.violations.append(dict(v, config=cfg, seed=seed))
            if j["truncated"]:
                self.truncated.append(cfg)
            if j["slowest"][0] > self.slowest[0]:
                self.slowest = (j["slowest"][0], f"{cfg} {j['slowest'][1]}")


    def merge(self, o):
        self.cases += o.cases
        self.checks += o.checks
        self.trivial += o.trivial
        self.sigs |= o.sigs
        for k, v in o.hits.items():
            self.hits[k] = self.hits.get(k, 0) + v
        for k, v in o.scen.items():
            x = self.scen.setdefault(k, [0, 0])
            x[0] += v[0]
            x[1] += v[1]
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v
        for k, v in o.per_config.items():
            x = self.per_config.setdefault(k, {"cases": 0, "oracle_comparisons": 0})
            for f in v:
                x[f] = x.get(f, 0) + v[f]
        self.samples += o.samples
        self.violations += o.violations
        self.truncated += o.truncated
        self.errors += o.errors
        self.notes += o.notes
        self.slowest = max(self.slowest, o.slowest)


def shard_job(m, prop, cfg, binary, seed, tier, i, n, deadline, extra, env, mem, wrapper, crash_is_violation, timeout, classify=None, cwd=None, tag=""):
    out = os.path.join(WORK, prop, f"{cfg}{tag}-{i}.json")
    for f in (out, out + ".progress", out + ".digests"):
        if os.path.exists(f):
            os.remove(f)
    cmd = list(wrapper) + [binary, "--seed", str(seed), "--tier", tier, "--shard", f"{i}/{n}", "--out", out,
                           "--deadline", str(deadline)] + list(extra)
    rc, o, er, to = run(cmd, timeout, env=env, mem=mem, cwd=cwd)
    prog = ""
    if os.path.exists(out + ".progress"):
        prog = open(out + ".progress").read().split("\n")[0]
    if rc in (0, 1) and os.path.exists(out):
        m.add(cfg, seed, json.load(open(out)))
        if os.path.exists(out + ".digests"):
            with m.lock:
                d = m.digests.setdefault(cfg, {})
                for l in open(out + ".digests"):
                    k, v = l.split()
                    d[k] = v
        return
    scen, _, idx = prog.rpartition(":")

    def viol(msg):
        with m.lock:
            m.violations.append({"config": cfg, "seed": seed, "scenario": scen, "idx": int(idx or 0), "message": msg, "case": ""})

    if to:
        with m.lock:
            m.errors.append(f"{cfg} shard {i}: wall-clock timeout at {prog}")
        return
    if classify:
        kind, msg = classify(rc, o + "\n" + er)
        if kind == "violation":
            viol(msg)
        elif kind == "note":
            with m.lock:
                m.notes.append(f"{cfg} shard {i} at {prog}: {msg}")
        else:
            with m.lock:
                m.errors.append(f"{cfg} shard {i}: rc={rc} at {prog or '?'}: {msg or er[-600:]}")
        return
    if rc == 77 and ("giant" in scen or "huge" in scen) and "--skip" not in extra:
        # very large inputs may just be slow on another implementation: no verdict on them, the rest goes on
        with m.lock:
            m.notes.append(f"{cfg} shard {i}: {prog} was given up after 90 s of CPU time; the shard was repeated without {scen}")
        return shard_job(m, prop, cfg, binary, seed, tier, i, n, deadline, list(extra) + ["--skip", "giant,giant_builder,bits-giant,bitvecs_giant,huge," + scen],
                         env, mem, wrapper, crash_is_violation, timeout, classify, cwd, tag)
    if rc == 77 and prog:
        # one case burnt more CPU time than any legitimate case: confirm alone with twice the allowance
        rc2, _, _, to2 = run(list(wrapper) + [binary, "--seed", str(seed), "--tier", tier, "--replay", prog, "--hang-ms", "150000"],
                             400, env=env, mem=mem)
        if rc2 == 77:
            viol("does not terminate: the case was stopped twice after 90 s and 150 s of CPU time (the slowest legitimate case takes a few seconds)")
        elif rc2 in (0, 1):
            with m.lock:
                m.errors.append(f"{cfg} shard {i}: case {prog} exceeded its CPU allowance once but not again")
        else:
            with m.lock:
                m.errors.append(f"{cfg} shard {i}: hang at {prog} not confirmed (rc={rc2} timeout={to2})")
        return
    if rc in SIGNAMES and crash_is_violation and prog:
        tail = " | ".join(er.strip().splitlines()[-4:])
        if rc == -signal.SIGABRT and "memory allocation of" in er:
            rc2, _, er2, to2 = run(list(wrapper) + [binary, "--seed", str(seed), "--tier", tier, "--replay", prog], 400, env=env, mem=14 * GB)
            if rc2 in SIGNAMES and "memory allocation of" in er2:
                viol(f"aborts on an allocation request out of all proportion: {tail}")
            elif rc2 == 1:
                viol("fails when replayed alone")
            else:
                with m.lock:
                    m.errors.append(f"{cfg} shard {i}: out of memory at {prog}, not reproduced alone")
            return
        viol(f"process died with {SIGNAMES[rc]}: {tail}")
        return
    with m.lock:
        m.errors.append(f"{cfg} shard {i}: rc={rc} at {prog or '?'}: {er[-600:]}")


def run_configs(prop, bins, seed, tier, shards=None, deadline=None, extra=(), env=None, mem=6 * GB, wrapper=(), same_seed=False,
                crash_is_violation=True, timeout=None, jobs=NCPU, merge=None, classify=None, cwd=None):
    """run every config's binary in shards on all cores"""
    m = merge or Merge()
    os.makedirs(os.path.join(WORK, prop), exist_ok=True)
    if deadline is None:
        deadline = 240 if tier == "quick" else 3000
    timeout = timeout or deadline + 300
    n = shards or NCPU
    tasks = []
    for k, (cfg, b) in enumerate(bins.items()):
        s = seed if same_seed else seed * 101 + k
        for i in range(n):
            tasks.append((i, cfg, b, s))
    tasks.sort(key=lambda t: t[0])
    with ThreadPoolExecutor(jobs) as ex:
        fs = [ex.submit(shard_job, m, prop, cfg, b, s, tier, i, n, deadline, extra, env, mem, wrapper, crash_is_violation, timeout, classify, cwd)
              for (i, cfg, b, s) in tasks]
        for f in fs:
            f.result()
    return m


def known_list(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p):
        l = l.strip()
        if l.startswith(f"known: property={prop} "):
            out.append(l[len(f"known: property={prop} "):].split(" :: ")[0].strip())
    return out


def finish(prop, tier, seed, level, m, rule, t0, assumptions=(), extra_cov=None, builds=None):
    """write evidence, print the verdict, return the exit code"""
    known = known_list(prop)
    reported = [k for k in m.known if k in known]
    for k, c in m.known.items():
        if k not in known:
            m.violations.append({"config": "-", "seed": seed, "scenario": "known-finding", "idx": 0, "message": k, "case": f"{c} cases"})
    seen, samples = {}, []
    for s in m.samples:  # a few written-out cases per scenario
        key = s.split("] ", 1)[1].split("[")[0] if "] " in s else s[:20]
        if seen.get(key, 0) < 2:
            seen[key] = seen.get(key, 0) + 1
            samples.append(s[:600])
    cov = {
        "evaluations": m.cases,
        "distinct_nontrivial": len(m.sigs),
        "rule": rule,
        "samples": samples[:24],
        "oracle_comparisons": m.checks,
        "trivial_cases": m.trivial,
        "per_build": m.per_config,
        "per_scenario_cases_and_comparisons": m.scen,
        "observed": dict(sorted(m.hits.items())),
        "known_findings_observed": {k: m.known[k] for k in reported},
        "truncated_by_deadline": m.truncated,
        "slowest_case": list(m.slowest),
    }
    if m.notes:
        cov["notes"] = m.notes[:20]
    if builds:
        cov["builds"] = builds
    if extra_cov:
        cov.update(extra_cov)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": list(assumptions),
          "wall_s": round(time.time() - t0, 2), "violations": len(m.violations)}
    if m.errors:
        ev["coverage"]["errors"] = m.errors
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in reported:
        log(f"KNOWN-FINDING: property={prop} {k}")
    if m.violations:
        rd = os.path.join(WORK, "replay")
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, f"{prop}.json")
        with open(p, "w") as f:
            json.dump({"property": prop, "tier": tier, "violations": m.violations,
                       "how": f"python3 run.py {prop} replay {p}"}, f, indent=1)
        for v in m.violations[:5]:
            log(f"  {v['config']} {v['scenario']}:{v['idx']} seed={v['seed']}: {v['message'][:700]}   [{v.get('case','')[:300]}]")
        log(f"VIOLATION property={prop} replay={p}")
        return 1
    if m.errors:
        for e in m.errors[:5]:
            log("ERROR", e)
        return 2
    if m.cases == 0 or m.checks == 0 or len(m.sigs) == 0:
        log("ERROR: nothing was observed")
        return 2
    log(f"OK property={prop} tier={tier} seed={seed} cases={m.cases} distinct={len(m.sigs)} comparisons={m.checks} wall={time.time()-t0:.1f}s")
    return 0
