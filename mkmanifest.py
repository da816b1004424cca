#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
import props, special
TECH = {
    "C22": "runtime monitor over recorded dump/load histories across builds and processes",
    "C23": "offline trace comparison of answer digests recorded by differently built binaries",
    "C24": "AddressSanitizer, Miri and valgrind on hostile in-contract workloads",
    "C25": "counting-allocator monitor against analytic space bounds",
    "C26": "callgrind instruction-count monitor over adversarial scaling workloads",
    "C30": "online monitor over random histories of queries, moves, copies and rebuilds of near-identical instances, against fresh instances on fresh threads",
    "C29": "callgrind instruction-count monitor over constructions and traversals of growing inputs",
    "C27": "ThreadSanitizer and Miri race detection, concurrent-reader linearity monitor",
}
DEF = "runtime monitor: model-based online checker over stress workloads in several instrumented builds"
NOTE = {
    "C23": "Answers compared across builds by per-case digests; a divergence pins the case and builds.",
}
DEFNOTE = ("Exploration: every answer of the real code on seeded stress, adversarial and enumerated small cases is compared with an "
           "independent naive model in overflow/debug-assert-checked and release builds (portable and AVX-512/BMI2). "
           "Nothing is claimed for inputs not generated; the model in /verif/harness is trusted.")
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in props.SIMPLE or i in special.SPECIAL:
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, DEF), "level": "exploration",
                       "level_note": special.NOTES.get(i, DEFNOTE) if hasattr(special, "NOTES") else DEFNOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --selfcheck", "checks": checks, "not_applicable": na,
     "notes": "No hooks are compiled into /repo: every monitor observes the public API of the real crate. fix: commits are listed in known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
