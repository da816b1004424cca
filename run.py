#!/usr/bin/env python3
"""python3 run.py <property> [quick|thorough]     decide one property
   python3 run.py <property> replay <file>         run the recorded failing cases again"""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import drv, props, special


def simple(pid, tier, seed, t0):
    p = props.SIMPLE[pid]
    names = drv.usable(p["configs"] if tier == "quick" else p.get("thorough_configs", drv.MAIN))
    bins = drv.build_configs(p["bin"], names, p.get("features", ()))
    tb = time.time() - t0
    m = drv.run_configs(pid, bins, seed, tier, extra=p.get("args", ()))
    skipped = [n for n in p["configs"] if n not in names]
    return drv.finish(pid, tier, seed, "exploration", m, p["rule"], t0, assumptions=p.get("assumptions", ()),
                      builds={"configs": names, "skipped_unsupported_by_cpu": skipped, "build_s": round(tb, 1)})


def replay(pid, path):
    p = props.SIMPLE.get(pid)
    j = json.load(open(path))
    rc = 0
    for v in j["violations"]:
        if p is None or v["config"] not in drv.CONFIGS:
            print(v)
            continue
        b = drv.build_configs(p["bin"], [v["config"]], p.get("features", ()))[v["config"]]
        r = drv.run([b, "--seed", str(v["seed"]), "--tier", j["tier"], "--replay", f"{v['scenario']}:{v['idx']}"], 600)
        print(v["config"], v["scenario"], v["idx"], "rc", r[0], r[1][-1500:], r[2][-500:])
        rc = rc or (1 if r[0] else 0)
    return rc


def selfcheck():
    import subprocess
    for t in (["cargo", "--version"], ["rustc", "--version"]):
        subprocess.run(t, check=True)
    print("cpu: v3", drv.V3, "v4", drv.V4)
    return 0


def main():
    pid = sys.argv[1]
    if pid == "--selfcheck":
        return selfcheck()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier == "replay":
        return replay(pid, sys.argv[3])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        if pid in props.SIMPLE:
            return simple(pid, tier, seed, t0)
        return special.SPECIAL[pid](tier, seed, t0)
    except drv.CheckError as e:
        print("ERROR", e, flush=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
