"""Monitors that are one binary run in several builds of the library."""
BASE = ["fb-chk", "v4-rel"]
GEN = ("cases come from seeded generators (structured, adversarial around block boundaries, and enumerated small inputs); "
       "each case drives the real API and every answer is compared with an independent model; "
       "a case is non-trivial when the generated object is non-degenerate and at least one answer was compared; "
       "distinct by a hash of the generated input and operation sequence")
SIMPLE = {}


def add(pid, configs=None, **kw):
    d = {"bin": pid.lower(), "configs": configs or BASE, "rule": GEN}
    d.update(kw)
    SIMPLE[pid] = d


for i in range(1, 22):
    add(f"C{i:02d}")
add("C25", features=["memdbg"])
add("C30")
add("C28", configs=["fb-chk", "fb-rel", "v4-rel"])
for i in ("C05", "C06", "C14", "C16", "C17"):
    SIMPLE[i]["configs"] = ["fb-chk", "v3-rel", "v4-rel"]
SIMPLE["C21"]["configs"] = ["fb-chk", "fb-rel", "v4-rel"]
SIMPLE["C07"]["configs"] = ["fb-chk", "v4-rel", "v4-chk"]
