"""Properties decided with a tool of their own."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import drv
from drv import CheckError, Merge, log

SPECIAL = {}
NOTES = {}


def special(pid, note):
    def deco(f):
        SPECIAL[pid] = f
        NOTES[pid] = note
        return f
    return deco


def scratch(pid, *names):
    base = os.path.join(drv.WORK, pid)
    out = []
    for n in names:
        d = os.path.join(base, n)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        out.append(d)
    return out


# ---------------------------------------------------------------------------------------------------------------------
@special("C22", "Exploration: every generated structure is written and read back with two serde formats in the same build, and the "
         "bytes are exchanged between a portable checked build and a vectorised release build in both directions; contents and "
         "thousands of query answers per structure are compared. Nothing is claimed for structures not generated.")
def c22(tier, seed, t0):
    names = drv.usable(["fb-chk", "v4-rel"] if tier == "quick" else ["fb-chk", "v3-rel", "v4-rel", "v4-chk"])
    if len(names) < 2:
        names = ["fb-chk", "fb-rel"]
    bins = drv.build_configs("c22", names, ["serde"])
    m = Merge()
    dirs = dict(zip(names, scratch("C22", *["dump-" + n for n in names])))
    for n in names:
        drv.run_configs("C22", {n: bins[n]}, seed, tier, shards=8, env={"VH_DUMP_DIR": dirs[n]}, same_seed=True, merge=m)
    pairs = 0
    stored = {n: len(os.listdir(dirs[n])) for n in names}
    if not m.violations:
        for w in names:
            for r in names:
                if w != r and (tier == "quick" or w == names[0] or r == names[0]):
                    m2 = Merge()
                    drv.run_configs("C22", {r: bins[r]}, seed, tier, shards=8, env={"VH_LOAD_DIR": dirs[w]}, same_seed=True, merge=m2)
                    if not m2.violations and m2.hits.get("read back in another build", 0) == 0:
                        raise CheckError(f"reader {r} found nothing written by {w}")
                    for v in m2.violations:
                        v["message"] = f"written by {w}, read by {r}: " + v["message"]
                    pairs += 1
                    m.merge(m2)
    for d in dirs.values():
        shutil.rmtree(d, ignore_errors=True)
    return drv.finish("C22", tier, seed, "exploration", m,
                      "a case generates one structure from a seeded style (with edit history and dirty padding), writes it with bincode and "
                      "JSON, reads it back, and compares contents and a digest over randomly chosen queries; non-trivial when at least one "
                      "answer was compared; distinct by the digest of its answers", t0,
                      builds={"configs": names, "files_written_per_build": stored, "writer_reader_pairs": pairs})


# ---------------------------------------------------------------------------------------------------------------------
@special("C23", "Exploration: the same seeded workload is recorded by differently built binaries and the answer digests are compared "
         "offline, case by case. Only builds this CPU can run are compared; a wrong answer common to all builds is not seen here "
         "(C01-C21 look for those).")
def c23(tier, seed, t0):
    names = drv.usable(["fb-chk", "fb-rel", "v1-opt", "v3-rel", "v4-rel"] if tier == "quick" else list(drv.CONFIGS))
    bins = drv.build_configs("c23", names)
    m = drv.run_configs("C23", bins, seed, tier, shards=4, extra=["--digests"], same_seed=True)
    keys = set().union(*[set(d) for d in m.digests.values()]) if m.digests else set()
    compared = 0
    for k in sorted(keys):
        vals = {n: m.digests[n][k] for n in m.digests if k in m.digests[n]}
        if len(vals) > 1:
            compared += 1
            if len(set(vals.values())) > 1 and len(m.violations) < 10:
                scen, _, idx = k.rpartition(":")
                # report the build that disagrees with the portable one
                ref = vals.get("fb-rel", next(iter(vals.values())))
                odd = [n for n in vals if vals[n] != ref]
                m.violations.append({"config": odd[0], "seed": seed, "scenario": scen, "idx": int(idx), "case": "",
                                     "message": f"answers differ between builds: {vals}"})
    if not compared and not m.violations:
        raise CheckError("no case was observed in two builds")
    return drv.finish("C23", tier, seed, "exploration", m,
                      "a case generates one structure and folds the answers to hundreds or thousands of queries into a digest; the same case "
                      "is run in every build and the digests are compared; non-trivial when more than three answers were folded; distinct by digest",
                      t0, extra_cov={"cases_compared_between_builds": compared}, builds={"configs": names})


# ---------------------------------------------------------------------------------------------------------------------
TRIPLE = "x86_64-unknown-linux-gnu"


def tail_report(text, marks):
    for mk in marks:
        i = text.find(mk)
        if i >= 0:
            lines = [l.strip() for l in text[i:].splitlines() if l.strip()]
            keep = [lines[0]] + [l for l in lines[1:60] if "/repo/" in l or "vers" in l][:4]
            return " | ".join(keep)[:700]
    return None


def classify_san(rc, text):
    """sanitizer reports and failed unsafe preconditions are violations; anything else is not a verdict"""
    r = tail_report(text, ["ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "WARNING: MemorySanitizer", "runtime error:",
                           "unsafe precondition(s) violated"])
    if r and "allocation-size-too-big" not in r and "out-of-memory" not in r:
        return "violation", r
    if rc in (-11, -7, -4):
        return "violation", f"process died with {drv.SIGNAMES[rc]}: " + " | ".join(text.strip().splitlines()[-3:])
    return "error", ""


def classify_miri(rc, text):
    if "unsupported operation" in text:
        return "note", "Miri: " + (tail_report(text, ["unsupported operation"]) or "")
    r = tail_report(text, ["Undefined Behavior"])
    if r:
        return "violation", "Miri: " + r
    return "error", ""


def classify_vg(rc, text):
    r = tail_report(text, ["Invalid read", "Invalid write", "Conditional jump or move depends", "Use of uninitialised", "Invalid free"])
    if rc == 98 and r:
        return "violation", "valgrind: " + r
    if "Unrecognised instruction" in text or "SIGILL" in text:
        return "note", "valgrind cannot run this build"
    return "error", ""


def asan_build(bins, name, cpu, feats, profile):
    return drv.cargo_build(bins, "asan-" + name, f"-Zsanitizer=address -C target-cpu={cpu}", feats, profile, toolchain="nightly",
                           target=TRIPLE)


def miri_prepare(bin_, name, cpu, feats):
    """compile for Miri; returns (command prefix, env)"""
    env = {"CARGO_TARGET_DIR": os.path.join(drv.TARGET, "miri-" + name), "RUSTFLAGS": f"-C target-cpu={cpu}",
           "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-deterministic-floats", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"}
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--bin", bin_] + (["--features", ",".join(feats)] if feats else []) + ["--"]
    rc, o, e, to = drv.run(cmd + ["--list"], 600, env=env, cwd=drv.HARNESS)
    if rc != 0:
        raise CheckError(f"Miri build failed: {e[-2000:]}")
    return cmd, env


@special("C24", "Exploration: hostile, safe API workloads run under AddressSanitizer (portable and AVX-512 builds, with and without debug "
         "assertions) and under Miri's undefined-behaviour interpreter (also the vectorised select), thorough also valgrind memcheck. "
         "Only executions that were generated are judged; the compress-store of the bit set iterator is outside Miri and is "
         "watched by AddressSanitizer alone.")
def c24(tier, seed, t0):
    quick = tier == "quick"
    builds = [("asan-v4-chk", "x86-64-v4", ["simd"], "chk", drv.V4), ("asan-v4-rel", "x86-64-v4", ["simd", "u16l"], "release", drv.V4),
              ("asan-fb-rel", "x86-64", [], "release", True)]
    builds = [b for b in builds if b[4]]
    miris = [("miri-fb", "x86-64", []), ("miri-v4", "x86-64-v4", ["simd"])]
    with ThreadPoolExecutor(len(builds) + len(miris)) as ex:
        fb = [ex.submit(asan_build, ["c24"], b[0], b[1], b[2], b[3]) for b in builds]
        fm = [ex.submit(miri_prepare, "c24", x[0], x[1], x[2]) for x in miris]
        bins = {b[0]: os.path.join(f.result(), "c24") for b, f in zip(builds, fb)}
        mcmd = [f.result() for f in fm]
    tb = time.time() - t0
    m = Merge()
    aenv = {"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1"}
    drv.run_configs("C24", bins, seed, tier, shards=8, env=aenv, mem=None, classify=classify_san, merge=m)
    for k, (x, (cmd, env)) in enumerate(zip(miris, mcmd)):
        drv.run_configs("C24", {x[0]: cmd[-1]}, seed + k, tier, shards=8, deadline=60 if quick else 900, env=env, mem=None,
                        wrapper=cmd[:-1], extra=["--scale", "0.02" if quick else "0.03"], classify=classify_miri, merge=m, cwd=drv.HARNESS,
                        timeout=400 if quick else 1500)
    if not quick:
        vb = drv.build_configs("c24", drv.usable(["v3-rel", "fb-rel"]))
        drv.run_configs("C24", vb, seed, tier, shards=8, deadline=600, mem=None, extra=["--scale", "0.02"], merge=m, timeout=2000,
                        wrapper=["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes"], classify=classify_vg)
    # functional failures are not this property's business
    m.violations = [v for v in m.violations if v["message"]]
    return drv.finish("C24", tier, seed, "exploration", m,
                      "a case builds one structure (a copy, so that its allocations have no slack) and queries it at ordinary, border and "
                      "hostile arguments while the instrumentation checks each memory access; comparisons counts the answers observed; "
                      "non-trivial when the structure was queried; distinct by a hash of the generated bits or of the answers",
                      t0, builds={"sanitized": [b[0] for b in builds], "miri": [x[0] for x in miris], "build_s": round(tb, 1)})


# ---------------------------------------------------------------------------------------------------------------------
@special("C26", "Exploration: callgrind counts the instructions each query executes on a small and on a 64 to 512 times larger structure of "
         "the same adversarial or random content; a query whose worst batch average grows by more than 3x + 1000 (plus 24 per bit of a tree block) instructions is reported. "
         "A slowdown that does not grow with the size is not this property; the AVX-512 build cannot run under callgrind.")
def c26(tier, seed, t0):
    return callgrind("C26", tier, seed, t0, {"rs": 6, "edits": 1, "ef": 10, "rmq": 5, "tree": 6, "wavelet": 8, "widths": 1},
                     "operations measured on a small and a large structure", 1000,
                     "a case builds a small and a large structure of one content style and counts the instructions of every query on both, in "
                     "batches aimed at starts, ends, borders, the largest gap and random places; non-trivial when callgrind counted; distinct by "
                     "operation and measured cost")


def callgrind(pid, tier, seed, t0, scen, hit, least, rule):
    names = drv.usable(["fb-rel", "v3-rel"])
    bins = drv.build_configs(pid.lower(), names)
    rounds = 1 if tier == "quick" else 4
    m = Merge()
    [d] = scratch(pid, "cg")
    out = os.path.join(d, "cg.%p")
    wrapper = ["valgrind", "-q", "--tool=callgrind", "--instr-atstart=no", "--collect-atstart=no", f"--callgrind-out-file={out}"]
    with ThreadPoolExecutor(drv.NCPU) as ex:
        fs = []
        # one case per process: callgrind slows down with everything it has translated before
        for s, n in sorted(scen.items(), key=lambda x: x[0] != "tree"):
            for k, cfg in enumerate(names):
                for i in range(n * rounds):
                    fs.append(ex.submit(drv.shard_job, m, pid, cfg, bins[cfg], seed * 101 + k, tier, i, n * rounds, 600, ["--only", s],
                                        {"VH_CG": out}, None, wrapper, True, 800, None, d, "-" + s))
        for f in fs:
            f.result()
    shutil.rmtree(d, ignore_errors=True)
    m.errors += [v["message"] for v in m.violations if v["message"].startswith("harness:")]
    m.violations = [v for v in m.violations if not v["message"].startswith("harness:")]
    if not m.violations and not m.errors and m.hits.get(hit, 0) < least:
        raise CheckError("callgrind counted nothing")
    return drv.finish(pid, tier, seed, "exploration", m, rule, t0, builds={"configs": names})


@special("C29", "Exploration: callgrind counts the instructions of every construction, full traversal, copy and comparison on a small and on a "
         "16 to 32 times larger input of the same content; an operation whose cost per element grows by more than 3x + 4 instructions is "
         "reported. A slowdown that does not grow with the size is not this property; the AVX-512 build cannot run under callgrind.")
def c29(tier, seed, t0):
    return callgrind("C29", tier, seed, t0, {"bits": 6, "ef": 10, "rmq": 4, "tree": 6, "wavelet": 4},
                     "operations measured on a small and a large input", 500,
                     "a case makes a small and a large input of one content style and counts the instructions of every construction, traversal, "
                     "copy and comparison on both; non-trivial when callgrind counted; distinct by measured cost")


# ---------------------------------------------------------------------------------------------------------------------
def not_shareable(text):
    """a compile error that says a structure is not Send or not Sync"""
    for l in text.splitlines():
        if re.search(r"cannot be (shared|sent) between threads safely", l):
            return l.strip()
    return None


@special("C27", "Exploration: up to eight threads read one shared structure (or build, copy and drop their own) at the same time, under "
         "ThreadSanitizer, under Miri's race detector with varying scheduling seeds, and uninstrumented at full speed; every answer is "
         "compared with a single thread's. The compiler decides that the structures are Send and Sync. Only the schedules that occurred "
         "are judged; the standard library itself is not instrumented for ThreadSanitizer.")
def c27(tier, seed, t0):
    quick = tier == "quick"
    tsan = [("tsan-fb", "x86-64", [], "release", True), ("tsan-v4", "x86-64-v4", ["simd", "u16l"], "release", drv.V4)]
    tsan = [b for b in tsan if b[4]]
    names = drv.usable(["fb-chk", "v4-rel"])
    m = Merge()

    def tb(b):
        d = drv.cargo_build(["c27"], b[0], f"-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer -C target-cpu={b[1]}", b[2], b[3],
                            toolchain="nightly", target=TRIPLE)
        return os.path.join(d, "c27")
    try:
        bins = drv.build_configs("c27", names)
    except CheckError as e:
        msg = not_shareable(str(e))
        if not msg:
            raise
        m.violations.append({"config": "compiler", "seed": seed, "scenario": "types", "idx": 0, "message": msg, "case": ""})
        return drv.finish("C27", tier, seed, "exploration", m, "compilation", t0)
    miris = [("miri-fb", "x86-64", [])] + ([] if quick else [("miri-v4", "x86-64-v4", ["simd"])])
    with ThreadPoolExecutor(4) as ex:
        ft = [ex.submit(tb, b) for b in tsan]
        fm = [ex.submit(miri_prepare, "c27", x[0], x[1], x[2]) for x in miris]
        tbins = {b[0]: f.result() for b, f in zip(tsan, ft)}
        mcmd = [f.result() for f in fm]
    drv.run_configs("C27", bins, seed, tier, shards=2, jobs=3, merge=m)
    drv.run_configs("C27", tbins, seed, tier, shards=2, jobs=3, mem=None, classify=classify_san, merge=m,
                    env={"TSAN_OPTIONS": "exitcode=66:halt_on_error=1:history_size=4"})
    for x, (cmd, env) in zip(miris, mcmd):
        for k in range(1 if quick else 4):
            e = dict(env, MIRIFLAGS=env["MIRIFLAGS"] + f" -Zmiri-seed={seed * 7 + k} -Zmiri-preemption-rate=0.05")
            drv.run_configs("C27", {x[0]: cmd[-1]}, seed + k, tier, shards=8, deadline=60 if quick else 500, env=e, mem=None, wrapper=cmd[:-1],
                            extra=["--scale", "0.02" if quick else "0.01"], classify=classify_miri, merge=m, cwd=drv.HARNESS,
                            timeout=400 if quick else 1500)
    return drv.finish("C27", tier, seed, "exploration", m,
                      "a case lets two to eight threads query one shared structure, or structures of their own, with random yields and "
                      "delays between rounds, and compares each round's answers with a single thread's; distinct by the observed order of the "
                      "threads' rounds", t0,
                      builds={"plain": names, "thread_sanitizer": [b[0] for b in tsan], "miri": [x[0] for x in miris]},
                      extra_cov={"distinct_interleavings": len(m.sigs)})
