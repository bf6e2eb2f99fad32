#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.tmpl, the check classes and the last evidence (cost), and seeded/RESULTS.md."""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "checks")]
ORACLE = {
 "C01": "snapshot (names, types, bytes, modes, link targets) of the tree and of a surrounding directory before the run",
 "C02": "the same snapshot, taken after the tool has exited",
 "C03": "the original tree with the span of exactly one listed mutant replaced, computed independently from the JSON listing",
 "C04": "a reference of lists, totals, logs and diffs computed from the listing and from the children the controller really saw",
 "C05": "a ten-line reference of outcome and recorded phases as a function of the endings chosen",
 "C06": "a reference of the exit status as a function of the outcome multiset",
 "C07": "a monitor over the sequence of children and of writes to the tree",
 "C08": "a reference of every limit as a function of options and baseline durations; kill times read from the virtual clock",
 "C09": "monitors: processes alive, virtual time to exit, status, temporary directory, tree, recorded results",
 "C10": "listing of the (private) temporary directory at exit; with --leak-dirs the copies equal the source snapshot",
 "C11": "results expected from the children that had ended at the instant of observation or kill",
 "C12": "reference set: names ever recorded caught or unviable since the last run without --iterate",
 "C13": "snapshots of both output directories before and after, and while the second invocation waits",
 "C14": "position modulo n in the unsharded listing",
 "C15": "line sets computed from the edit script itself, not from the diff text",
 "C16": "the generator knows which mutants it planted in unmarked code",
 "C17": "spans known to the generator; independent patch routine",
 "C18": "the first JSON listing of the tree",
 "C19": "reference matcher for globs (own implementation) and Python re",
 "C20": "reference command lines and environments",
 "C21": "reference selection over the workspace description; real cargo metadata in part of the cases",
 "C22": "os.walk of the source, the exclusion rules of the property and `git check-ignore`",
 "C23": "textual path resolution and tomllib comparison of originals and copies",
 "C24": "monitors over the set of live children and their directories; outcomes compared with those chosen",
 "C25": "generator with the documented rules",
 "C26": "`rustc --emit dep-info` on the same tree and an own resolver",
 "C28": "the recorded outcomes and what the children really printed; a small terminal emulator gives the lines that stay on the screen",
 "C29": "none of the tool's answers is predicted: monitors for panics, signals, hangs, silent failures, output together with failure, children run after a failed preparation, and spans",
 "C27": "exit status, message, recorded results versus children that really ran, watchdog in virtual time",
}
out = []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    c = importlib.import_module(p["id"].lower()).CHECK
    q, t = c.bounds_for("quick"), c.bounds_for("thorough")
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("* Level: %s. Enumerated: %s." % (c.level, c.rule))
    out.append("* Oracle: %s." % ORACLE[p["id"]])
    out.append("* Bounds (quick): %s.%s" % (json.dumps(q, ensure_ascii=True), "" if t == q else " Thorough: %s." % json.dumps(t, ensure_ascii=True)))
    out.append("* Assumes: %s." % ("; ".join(c.assumptions) or "nothing beyond the bounds"))
    cost = os.path.join(here, "tools", "costs.json")
    costs = json.load(open(cost)) if os.path.exists(cost) else {}
    if p["id"] in costs:
        out.append("* Cost (quick): %s." % costs[p["id"]])
    out.append("")
s = open(os.path.join(here, "tools", "DESIGN.tmpl")).read()
seeded = open(os.path.join(here, "tools", "SEEDED.md")).read() if os.path.exists(os.path.join(here, "tools", "SEEDED.md")) else ""
open(os.path.join(here, "DESIGN.md"), "w").write(s.replace("@TABLE@", "\n".join(out)).replace("@SEEDED@", seeded))
