from runs import *

ENDS = ["exit:0", "exit:1", "exit:2", "exit:100", "exit:101", "sig:9", "sig:15", "sig:11", "hang"]


class C(Check):
    id = "C07"
    level = "model_checking"
    rule = ("a case is one baseline result (ending of each phase) with job count, mode, in-place or copied, number of mutants and mutant outcomes; "
            "the monitor checks every cargo child and every write to the tree; non-trivial when the baseline ran")
    assumptions = ["the stand-in cargo ends phases as chosen"]

    def bounds_for(self, tier):
        return dict(endings=ENDS, jobs=[1, 2, 3], mutants="0-3")

    def cases(self, tier):
        bases = [["exit:0", t] for t in ENDS] + [[b, None] for b in ENDS[1:-1]]
        trees = [("2", "CM"), ("1", "C"), ("21", "MUC")]
        for tree, codes in trees:
            for b in bases:
                for j in (1, 2, 3):
                    for mode in ([], ["--in-place"], ["--test-tool=nextest"], ["--leak-dirs"], ["--test-workspace=true"], ["-C--release"]):
                        if "--in-place" in mode and j > 1:
                            continue
                        yield dict(tree=tree, codes=codes, bends=b, jobs=j if "--in-place" not in mode else None, args=mode)
            for b in ENDS[:-1]:
                for j in (1, 2):
                    yield dict(tree=tree, codes=codes, bends=[b], jobs=j, args=["--check"])
            for j in (1, 2, 3):
                for mode in ([], ["--check"], ["--test-tool=nextest"]):
                    yield dict(tree=tree, codes=codes, bends=["exit:0", "exit:0"], jobs=j, args=mode, skip=True)
            yield dict(tree=tree, codes=codes, bends=["exit:0", "exit:0"], args=["--in-place"], skip=True)
        for mode in ([], ["--check"], ["--in-place"], ["-j2"], ["--baseline=skip"]):
            yield dict(tree="0", codes="", bends=["exit:101"], args=mode)
            yield dict(tree="2", codes="", sel=["-F", "nothing-matches-this"], bends=["exit:101"], args=mode)
            yield dict(tree="2", codes="", sel=["-e", "src/*.rs"], bends=["exit:101"], args=mode)
            yield dict(tree="2", codes="", sel=["-p", "nosuch"], bends=["exit:101"], args=mode)
        if tier == "thorough":
            for tree, codes in (("3", "CMU"), ("22", "CMUC")):
                for b in bases:
                    for j in (1, 2, 3, 4):
                        for c2 in codes_all("CMU", len(codes))[:27]:
                            yield dict(tree=tree, codes=c2, bends=b, jobs=j, args=[])

    def run_case(self, R, case):
        lab = Lab(R, tree_files(case["tree"]))
        lab.load(case.get("sel", []))
        codes = case["codes"]
        if len(codes) != len(lab.mutants):
            raise ToolError("unexpected number of mutants")
        check = "--check" in case["args"]

        def pol(c):
            w = lab.guess(c)
            if w < 0:
                i = 0 if c.phase in ("build", "check") else 1
                e = case["bends"][i] if i < len(case["bends"]) and case["bends"][i] else "exit:0"
                return dict(end=e, step=5.0, snap_end=True)
            return dict(end=plan_of(codes[w], c.phase if c.phase != "check" else "test"), step=5.0)
        args = ["--no-shuffle", "--timeout=30"] + case.get("sel", []) + case["args"]
        if case.get("jobs"):
            args.append("-j%d" % case["jobs"])
        if case.get("skip"):
            args.append("--baseline=skip")
        res = R.run(lab.case, lab.root, args, pol)
        v = []
        if res.hung:
            v.append("run did not end")
        ids = [lab.who(c) for c in res.children]
        skip = case.get("skip") or "--baseline=skip" in case["args"]
        if not codes:
            if res.children:
                v.append("no mutants, but cargo was run: %s" % [c.phase for c in res.children])
            if res.code != 0:
                v.append("no mutants, exit %s" % res.code)
        elif skip:
            if -1 in ids:
                v.append("baseline skipped, but cargo ran in the unmutated tree")
            if not res.children:
                v.append("baseline skipped and nothing tested")
        else:
            ends = []
            for e in case["bends"]:
                if e is None:
                    break
                ends.append(e)
                if e != "exit:0":
                    break
            ok = ends[-1] == "exit:0"
            want = ["check"] if check else ["build", "test"][:len(ends)]
            base = [c for c, i in zip(res.children, ids) if i == -1]
            if [c.phase for c in base] != want:
                v.append("baseline ran %s, expected %s" % ([c.phase for c in base], want))
            muts = [c for c, i in zip(res.children, ids) if i != -1]
            if not ok:
                if muts:
                    v.append("baseline failed (%s) but cargo %s ran on %s" % (ends, muts[0].phase, lab.who(muts[0])))
                if res.code != 4:
                    v.append("baseline failed (%s) but exit is %s" % (ends, res.code))
                for n in LISTS.values():
                    if (lab.out().lists.get(n) or "").strip():
                        v.append("baseline failed but %s is not empty" % n)
            else:
                if not muts:
                    v.append("baseline passed, but no mutant was run")
                elif base and muts[0].start_seq < (base[-1].end_seq or 0):
                    v.append("a mutant ran before the baseline had finished")
            # no mutation applied before the baseline has ended
            for c in base:
                if c.tree_end is not None and lab.ident(c.tree_end) != -1:
                    v.append("a mutation was applied while the baseline ran")
            if not ok and snapshot(lab.root) != lab.orig:
                v.append("source tree changed although the baseline failed")
        st = run_states(lab, res)
        return dict(viol=v, states=st, transitions=len(res.events), nontrivial=[h(case)], sample=dict(case=case, observed=describe(lab, res)))


CHECK = C()
