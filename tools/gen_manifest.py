#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (level and note come from the check classes)."""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "checks")]
T = {
 "fault_enumeration": "explicit enumeration of all fault/crash points of controlled executions of the real binary",
 "model_checking": "stateless model checking of the real binary: all schedules/histories within bounds, against an executable reference model",
 "exploration": "bounded exhaustive enumeration of inputs/configurations on the real binary, against an executable reference model",
}
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    try:
        c = importlib.import_module(pid.lower()).CHECK
    except ModuleNotFoundError:
        na.append(dict(property=pid, reason="no check built yet"))
        continue
    checks.append(dict(property=pid, quick_cmd="python3 check.py " + pid, thorough_cmd="VERIF_TIER=thorough python3 check.py %s --thorough" % pid,
                       evidence_file="evidence/%s.json" % pid, technique=getattr(c, "technique", T[c.level]), level=c.level,
                       level_note=c.rule + ". Assumes: " + ("; ".join(c.assumptions) or "nothing beyond the bounds") +
                       ". Trusted: the fake cargo, the LD_PRELOAD shim and the Python reference model in /verif."))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="All checks run the unmodified cargo-mutants binary built from /repo's working tree; no hooks in /repo.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=True)
    f.write("\n")
print(len(checks), len(na))
