from runs import *


class C(Check):
    id = "C03"
    level = "model_checking"
    rule = ("a case is one outcome vector with job count and mode, executed under one schedule of the worker threads chosen by the controlled scheduler "
            "(depth-first over all decisions up to the preemption bound); at the start and end of every cargo child the whole tree it sees is compared with "
            "the original plus at most one listed mutation; non-trivial when at least one mutant child ran")
    assumptions = ["worker threads interact only through intercepted calls (file operations, process start and wait, blocking synchronisation)",
                   "cargo itself does not modify sources"]

    def bounds_for(self, tier):
        return dict(mutants="1-7", jobs="1-3", preemptions=1 if tier == "quick" else 2)

    def cases(self, tier):
        for tree, n in (("1", 1), ("2", 2), ("21", 3)):
            for codes in codes_all("CMUTBS", n):
                for mode in ([], ["--in-place"], ["--baseline=skip"], ["--in-place", "--baseline=skip"], ["--check"]):
                    if n == 3 and tier == "quick" and mode and "--in-place" not in mode:
                        continue
                    yield dict(tree=tree, codes=codes, args=mode + ["--timeout=30", "--build-timeout=30"])
        for tree, n in (("crlf", 2), ("links", 2), ("long", 3), ("same", 3)):
            for codes in codes_all("CMUTB" if n < 3 else "CU", n):
                for mode in ([], ["--in-place"], ["-j2"]):
                    yield dict(tree=tree, codes=codes, args=mode + ["--timeout=30", "--build-timeout=30"])
        for tree, n in (("many", 6), ("col1", 4), ("names", 4)):
            for codes in ("CMUTB" * 3, "U" * 10, "MC" * 5):
                for mode in ([], ["--in-place"], ["-j2"]):
                    yield dict(tree=tree, codes=codes[:n], args=mode + ["--timeout=30", "--build-timeout=30"])
        for mode in ([], ["--in-place"], ["-j2"], ["-j9"]):
            yield dict(tree="huge", codes=("CMTUBCU" * 30)[:131], args=mode + ["--timeout=30", "--build-timeout=30"])
        # with real time between the cargo runs, so that modification times tell them apart
        for tree, codes in (("2", "CM"), ("2", "UT"), ("21", "MBC"), ("many", "CMUCMU"), ("crlf", "CU"), ("links", "MC")):
            for mode in ([], ["--in-place"], ["-j2"], ["--baseline=skip"]):
                yield dict(tree=tree, codes=codes, args=mode + ["--timeout=30", "--build-timeout=30"], pause=1)
        for codes in ("CM", "UU"):
            yield dict(tree="2", codes=codes, jobs=2, sched=[], pb=1, args=["--timeout=30"])
        yield dict(tree="11", codes="MC", jobs=2, sched=[], pb=1, args=["--timeout=30"])
        if tier == "thorough":
            for codes in codes_all("CMU", 2):
                yield dict(tree="2", codes=codes, jobs=2, sched=[], pb=2, args=["--timeout=30"])
                yield dict(tree="11", codes=codes, jobs=2, sched=[], pb=2, args=["--timeout=30"])
        for codes in (("CMU",) if tier == "quick" else codes_all("CMU", 3)):
            yield dict(tree="21", codes=codes, jobs=2, sched=[], pb=0, pts=["wait", "exit", "join", "futex_wait"], args=["--timeout=30"])
            yield dict(tree="3", codes=codes, jobs=3, sched=[], pb=0, pts=["wait"], args=["--timeout=30"])
        if tier == "thorough":
            for codes in codes_all("CMU", 4):
                yield dict(tree="22", codes=codes, jobs=2, sched=[], pb=0, pts=["wait", "exit"], args=["--timeout=30"])
            yield dict(tree="21", codes="CMU", jobs=2, sched=[], pb=1, args=["--timeout=30"])
            yield dict(tree="22", codes="CMUC", jobs=3, sched=[], pb=0, pts=["wait"], args=["--timeout=30"])

    def run_case(self, R, case):
        lab = Lab(R, tree_files(case["tree"]))
        lab.load()
        args = ["--no-shuffle", "--no-times"] + case["args"] + (["-j%d" % case["jobs"]] if case.get("jobs") else [])
        res = lab.run(args, case["codes"], more=lambda c, w: (time.sleep(0.04 if case.get("pause") else 0), dict(snap_end=True))[1], sched=case.get("sched"), pts=case.get("pts"))
        v = []
        if not schedule_ok(res):
            v.append("run did not end (exit %s)" % res.code)
        inplace = "--in-place" in args
        seen = {}
        for c in res.children:
            w = lab.who(c)
            if not isinstance(w, int):
                v.append("cargo %s saw neither the original nor exactly one mutation: %s" % (c.phase, w))
                continue
            if c.tree_end is not None:
                e = lab.ident(c.tree_end)
                if e != w:
                    v.append("the tree of a running cargo %s changed from scenario %s to %s" % (c.phase, w, e))
            seen.setdefault(w, []).append(c)
            if w >= 0 and c.phase in ("test",) and not any(x.phase == "build" and x.cwd == c.cwd for x in seen[w]):
                v.append("tests of mutant %d ran in a tree where it was not built" % w)
        # cargo rebuilds a file only if its modification time has moved on
        last = {}
        for c in res.children if case.get("pause") else ():
            p = last.get(c.cwd)
            for f, x in c.tree.items():
                if p is not None and x[0] == "f" and p.tree.get(f, x) != x and c.mtimes[f] < p.real - 0.015:
                    v.append("%s changed between two cargo runs in one directory, but kept an old modification time: cargo would not rebuild it" % f)
            last[c.cwd] = c
        # each scenario's cargo runs were in the tree of that scenario and of no other: every listed mutant is seen
        base_exp = "--baseline=skip" not in args
        if base_exp and -1 not in seen:
            v.append("no cargo run saw the unmutated tree")
        for i in range(len(case["codes"])):
            if i not in seen:
                v.append("no cargo run saw mutant %d" % i)
        # what the tool says it tested is what was in the tree
        out = lab.out()
        if out.outcomes:
            for o in out.outcomes["outcomes"]:
                i = scen_index(lab, o)
                if i is None or i not in seen:
                    continue
                if i >= 0 and o["summary"] not in (summary_of(case["codes"][i], "--check" in args), "Failure"):
                    v.append("mutant %d is recorded as %s, but the runs that saw it mean %s" % (i, o["summary"], summary_of(case["codes"][i], "--check" in args)))
        if not inplace and snapshot(lab.root) != lab.orig:
            v.append("original tree changed")
        return dict(viol=v, states=run_states(lab, res), transitions=len(res.events) + len(decisions(res)), more=sched_more(case, res) if not v else [],
                    nontrivial=[h(case)] if any(isinstance(k, int) and k >= 0 for k in seen) else [],
                    sample=dict(case=case, observed=describe(lab, res)), extra=dict(schedules=1 if case.get("sched") is not None else 0))


CHECK = C()
