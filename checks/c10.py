from faults import *

REMOVAL = ("unlink", "rmdir", "unlinkat", "opendir", "readdir")


class C(Check):
    id = "C10"
    level = "fault_enumeration"
    rule = ("all outcome vectors of up to three mutants with 1-3 jobs, with and without --leak-dirs, and every single error, interrupt and failing start at every intercepted operation; "
            "all schedules of two workers at wait and exit points; non-trivial when a scratch directory had been made")
    assumptions = ["a failing removal is out of reach", "a killed tool (SIGKILL) cannot clean up"]

    def bounds_for(self, tier):
        return dict(jobs=[1, 2, 3], faults_per_run=1, mutants="<=3")

    def cases(self, tier):
        A = ["--timeout=30", "--build-timeout=30"]
        for leak in ([], ["--leak-dirs"]):
            for n, t in ((1, "1"), (2, "11"), (3, "3")):
                al = "CMUTBS" if n < 3 else "CMT"
                for codes in codes_all(al, n):
                    for j in (1, 2, 3):
                        if j <= n and (tier == "thorough" or j == 2 or (n < 3 and j == 1) or hash_pick(codes, j)):
                            yield dict(tree=t, codes=codes, args=A + leak + ["-j%d" % j])
            for b in ("C", "U", "T", "S"):
                yield dict(tree="2", codes="CM", args=A + leak, base=b)
            for a in (["--check"], ["--baseline=skip"], ["--baseline=skip", "-j2"], ["--in-diff=/dev/null"], ["--list"], ["--shard=1/2"], ["--copy-vcs=true"], ["--gitignore=false"]):
                yield dict(tree="2", codes="CM", args=A + leak + a)
            yield dict(tree="0", codes="", args=A + leak)
            for j in ("-j1", "-j2"):   # preparing the copy fails
                yield dict(tree="2", codes="CM", args=A + leak + [j], bad=".cargo/config.toml")
            yield dict(tree="2", codes="CM", args=A + leak + ["-j2"], sched=[], pb=0, pts=["wait", "exit"])
        yield dict(tree="2", codes="CM", args=A + ["-j2"], sched=[], pb=1 if tier == "thorough" else 0)
        roots = [("11", "CM", ["-j1"], None), ("2", "UT", ["-j1"], None), ("2", "CM", ["-j2"], []), ("2", "MC", ["--leak-dirs"], None), ("2", "CM", ["--baseline=skip"], None), ("1", "M", ["--check"], None)]
        if tier == "thorough":
            roots += [("2", c, a, None if a != ["-j2"] else []) for c in codes_all("CMUT", 2) for a in ([], ["-j2"], ["--leak-dirs"])] + [("3", "CMU", ["-j3"], [])]
        for t, codes, a, sched in roots:
            yield dict(tree=t, codes=codes, args=A + a, sched=sched, probe=True)

    def run_case(self, R, case):
        files = tree_files(case["tree"])
        files.update({".git/HEAD": "ref: refs/heads/main\n", ".hidden/x": "1", "bin/run": Exec("#!/bin/sh\n"), "link": Link("src/lib.rs"), "empty": DIR, ".cargo/config.toml": 'paths = ["../x"]\n'})
        if case.get("bad"):
            files[case["bad"]] = "= bad\n"
        lab = Lab(R, files)
        lab.load()
        leak = "--leak-dirs" in case["args"]
        res = lab.run(["--no-shuffle", "--no-times"] + case["args"], case["codes"], base=case.get("base", "M"), sched=case.get("sched"), pts=case.get("pts"), fault=case.get("fault"),
                      on_wait=on_wait_for(case), reads=bool(case.get("probe") or case.get("reads")), wall=20)
        v = []
        lb = label(case)
        if res.code == 77 and case.get("sched") and case.get("fault"):
            return dict(viol=[], states=[], transitions=len(res.events))
        dirs = {c.cwd for c in res.children}
        if res.hung:
            v.append("%s: hangs" % lb)
        tmp = os.path.join(lab.case, "tmp")
        faulty = "err" in case.get("fault", "") or "torn" in case.get("fault", "")
        if not leak:
            if res.tmp_left and not (faulty and case["at"][0] in REMOVAL and case["at"][1].startswith("T")):
                v.append("%s: left in the temporary directory: %s (exit %s)" % (lb, [re.sub(r"-[A-Za-z0-9]{6}\.tmp", "-*.tmp", x) for x in res.tmp_left], res.code))
        elif not faulty:
            orig = {k: x for k, x in lab.orig.items() if not k.startswith(".git") or "--copy-vcs=true" in case["args"]}
            if not delivered(res):
                for d in dirs:
                    if not os.path.isdir(d):
                        v.append("%s: --leak-dirs, but %s is gone" % (lb, os.path.basename(d)))
            for n in res.tmp_left:
                d = os.path.join(tmp, n)
                if d in dirs or os.path.realpath(d) in dirs or not delivered(res):
                    cp = snapshot(d)
                    if cp.get(".cargo/config.toml", "-")[:2] == orig[".cargo/config.toml"][:2] and not case.get("bad"):
                        cp[".cargo/config.toml"] = orig[".cargo/config.toml"]    # its relative paths are rewritten (C23)
                    df = diff_snap(orig, cp)
                    if df:
                        v.append("%s: leaked directory is no copy of the original: %s" % (lb, df[0][:300]))
        more = []
        if case.get("probe"):
            more = fault_cases(dict(case, reads=True), res, ("err", "int"), ("EIO",) if self.tier == "quick" else ("EIO", "ENOSPC", "ENOENT"))
        elif not v:
            more = sched_more(case, res) if not case.get("fault") and not case.get("wait") else []
        return dict(viol=v, more=more, states=run_states(lab, res) + [h((case.get("at"), case.get("wait"), res.code))], transitions=len(res.events),
                    nontrivial=[h(case)] if any(p.startswith("T/") for _k, _t, _o, p in log_ops(res)) else [], sample=dict(case=case, exit=res.code, tmp_left=len(res.tmp_left)))


def hash_pick(codes, j):
    return sum(map(ord, codes)) % 3 == j % 3


CHECK = C()
