from runs import *

PREV = {"src/other.rs:%d:1: replace %s with ()" % x for x in ((1, "q"), (2, "r"), (3, "s"))}
ERRS = {"EIO": 5, "ENOSPC": 28, "EACCES": 13, "EMFILE": 24}   # not ENOENT: code may rightly take that for "there is none"


def really_finished(lab, res, codes, check=False):
    """Scenarios whose cargo children really ran to the end of their last phase."""
    fin = set()
    d = by_scenario(lab, res)
    for i, kids in d.items():
        code = "M" if i < 0 else codes[i]
        want = expected_phases(code, check)
        if [c.phase for c in kids] == want and all(c.ended or c.killed_at for c in kids):
            fin.add(i)
    return fin


class C(Check):
    id = "C27"
    level = "fault_enumeration"
    rule = ("for each scenario (tree, outcomes, jobs, mode) the fault-free run is recorded, then run again once for every intercepted operation with every kind of failure "
            "injected at that operation; non-trivial when the fault was really delivered")
    assumptions = ["a fault is a failing system call below the source, output or temporary directory, or a failing process start", "writes to debug.log are not relied on"]

    def bounds_for(self, tier):
        return dict(faults_per_run=1, errors=sorted(ERRS) + ["short write", "disk full from there on", "file unwritable from there on"], jobs=[1, 2])

    def cases(self, tier):
        A = ["--timeout=30"]
        roots = [dict(tree="11", codes="CM", args=A), dict(tree="rich", codes="CM", args=A + ["--gitignore=false"]), dict(tree="rich", codes="MC", args=A, jobs=2, sched=[]), dict(tree="2", codes="UT", args=A), dict(tree="2", codes="CU", args=A + ["--in-place"]),
                 dict(tree="2", codes="MC", args=A, base="skip"), dict(tree="2", codes="CM", args=A, jobs=2, sched=[]), dict(tree="1", codes="M", args=A + ["--check"]),
                 dict(tree="2", codes="CM", args=A + ["--iterate"], prev=True)]
        if tier == "thorough":
            roots += [dict(tree=t, codes=c, args=A + m, jobs=j, sched=[] if j and j > 1 else None) for t, c in (("21", "CMU"), ("bool", "CMU"), ("coll", "MC"))
                      for m, j in (([], 1), ([], 2), (["--in-place"], None), ([], 3), (["--leak-dirs"], 1))]
            roots += [dict(tree="2", codes=c, args=A + m) for c in codes_all("CMUT", 2) for m in ([], ["--in-place"])]
        for r in roots:
            yield dict(r, probe=True, reads=True)

    def setup_prev(self, lab):
        write_tree(lab.root, {"mutants.out/caught.txt": "src/other.rs:1:1: replace q with ()\n", "mutants.out/unviable.txt": "src/other.rs:3:1: replace s with ()\n", "mutants.out/lock.json": "{}",
                              "mutants.out/previously_caught.txt": "src/other.rs:2:1: replace r with ()\n", "mutants.out.old/x/y": "z"})

    def run_case(self, R, case):
        lab = Lab(R, tree_files(case["tree"]))
        lab.load()
        if case["tree"] == "rich":
            lab.rewritten = (".cargo/config.toml", "Cargo.toml")
        if case.get("prev"):
            self.setup_prev(lab)
        codes = case["codes"]
        args = ["--no-shuffle", "--no-times"] + case["args"] + (["-j%d" % case["jobs"]] if case.get("jobs") else []) + (["--baseline=skip"] if case.get("base") == "skip" else [])
        check = "--check" in args
        res = lab.run(args, codes, sched=case.get("sched"), fault=case.get("fault"), reads=case.get("reads", False), wall=20)
        out = lab.out()
        base = case.get("base") != "skip"
        exp = expected_exit(codes, True, check)
        v = []
        if case.get("probe"):
            full = check_reports(lab, out, codes, check, baseline=base)
            if res.code != exp or full:
                raise ToolError("fault-free run is not right: exit %s %s" % (res.code, full))
            more = []
            for k, tid, op, path in log_ops(res):
                for en, e in ERRS.items():
                    if self.tier == "quick":
                        # two kinds of failure per operation are enough
                        if en == "EMFILE" or (en == "ENOSPC" and op not in ("write", "copy", "mkdir", "open_create", "open_trunc", "sendfile")) or \
                                (en == "EIO" and op in ("write", "copy", "open_create", "open_trunc")) or (en == "EACCES" and op in ("write", "copy", "read", "fchmod", "flock")):
                            continue
                    if en == "EMFILE" and not op.startswith("open"):
                        continue
                    more.append(dict(case, probe=False, fault="%d:err=%d" % (k, e), at=[op, canon_path(path)]))
                if op in ("write", "copy", "sendfile"):
                    more.append(dict(case, probe=False, fault="%d:full" % k, at=[op, canon_path(path)]))
                if op == "write":
                    more.append(dict(case, probe=False, fault="%d:bad" % k, at=[op, canon_path(path)]))
                    more.append(dict(case, probe=False, fault="%d:torn" % k, at=[op, canon_path(path)]))
            return dict(viol=[], more=more, n=1, transitions=len(res.events), states=[], extra=dict(fault_points=len(log_ops(res))))
        hit = any(l.startswith("F ") for l in res.log)
        what = "%s at %s %s" % (case["fault"].split(":")[1], case["at"][0], case["at"][1])
        if res.hung:
            v.append("%s: run hangs" % what)
        elif res.code == 78:
            v.append("%s: deadlock" % what)
        elif res.code in (0, 2, 3):
            full = check_reports(lab, out, codes, check, baseline=base)
            ch = check_children(lab, res, codes, check, baseline=base)
            ch += check_logs(lab, out, by_scenario(lab, res), codes, check)
            if case.get("prev"):
                p = os.path.join(lab.root, "mutants.out/previously_caught.txt")
                got = set(open(p).read().splitlines()) if os.path.exists(p) else set()
                if got != PREV:
                    v.append("%s: exit %s as if all were well, but previously_caught.txt holds %s of the %d earlier mutants" % (what, res.code, sorted(got), len(PREV)))
            if res.code != exp:
                v.append("%s: exit %s, expected %s or an error" % (what, res.code, exp))
            for x in full + ch:
                v.append("%s: exit %s as if all were well, but %s" % (what, res.code, x))
        else:
            if res.code == 4:
                v.append("%s: reported as a failing baseline, but the baseline's cargo passed" % what)
            if not (res.err + res.out).strip():
                v.append("%s: fails with no message" % what)
            fin = really_finished(lab, res, codes, check)
            if out.exists and not case.get("prev"):
                for s, f in LISTS.items():
                    ok = {lab.names[i] for i in fin if i >= 0 and summary_of(codes[i], check) == s}
                    lines = out.lines(f)
                    for ln in lines[:-1] if out.lists[f] and not out.lists[f].endswith("\n") else lines:
                        if ln not in ok:
                            v.append("%s: %s lists %r, which was not tested with that result" % (what, f, ln))
                if out.outcomes:
                    for o in out.outcomes["outcomes"]:
                        i = scen_index(lab, o)
                        if i is None or i not in fin:
                            v.append("%s: outcome %s recorded for scenario %s, which did not finish" % (what, o["summary"], i))
                        elif i >= 0 and o["summary"] != summary_of(codes[i], check):
                            v.append("%s: wrong outcome %s for scenario %s" % (what, o["summary"], i))
        for c in res.children:
            for f in lab.rewritten:
                if f not in c.tree or lab.root.encode() not in c.tree[f][2]:
                    v.append("%s: cargo %s ran where a relative path in %s leads elsewhere" % (what, c.phase, f))
        for c in res.children + res.grand:
            if c.alive_at_exit:
                v.append("%s: a cargo process was left running" % what)
        return dict(viol=v, states=[h((case["at"], case["fault"].split(":")[1], res.code))], transitions=len(res.events),
                    nontrivial=[h(case)] if hit else [], sample=dict(case=case, exit=res.code, message=(res.err or res.out)[-200:]))


CHECK = C()
