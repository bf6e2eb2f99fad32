from runs import *

EXITS = ["exit:0", "exit:1", "exit:2", "exit:4", "exit:77", "exit:100", "exit:101", "exit:255", "sig:9", "sig:11", "sig:15", "sig:6", "hang"]


def status(end):
    k, _, n = end.partition(":")
    if k == "hang":
        return "Timeout"
    if k == "exit":
        return "Success" if n == "0" else {"Failure": int(n)}
    return {"Signalled": int(n)}


def summ(ends, check, baseline):
    last = ends[-1]
    if baseline:
        return ("Timeout",) if last == "hang" else ("Success",) if last == "exit:0" else ("Failure",)
    if last == "hang":
        return ("Timeout",)
    if last.startswith("sig"):
        return ("Failure", "CaughtMutant") if len(ends) == 2 else ("Failure", "Unviable")
    if check:
        return ("Success",) if last == "exit:0" else ("Unviable",)
    if len(ends) == 1:
        return ("Unviable",)
    return ("MissedMutant",) if last == "exit:0" else ("CaughtMutant",)


class C(Check):
    id = "C05"
    level = "model_checking"
    rule = ("a case is one assignment of process endings to the phases of the baseline and of two mutants, run on the real binary "
            "with a stand-in cargo; non-trivial when at least one cargo child of a mutant ran")
    assumptions = ["cargo's exit status is all that classifies a phase (the stand-in cargo returns chosen endings)",
                   "a phase ended by a signal the tool did not send may be recorded as an unclassified failure"]

    def bounds_for(self, tier):
        return dict(endings="all exit codes and fatal signals", endings_combined=len(EXITS), mutants=2, tools=["cargo", "nextest"], check=[False, True])

    def cases(self, tier):
        # one mutant takes every (build, test) pair; its neighbour takes a fixed different one
        pairs = [(b, t) for b in EXITS for t in (EXITS if b == "exit:0" else [None])]
        tools = ["cargo", "nextest"]
        for tool in tools:
            for b, t in pairs:
                for nb in ([("exit:0", "exit:101"), ("exit:0", "exit:0")] if tier == "quick" else [(x, y) for x, y in pairs]):
                    yield dict(tool=tool, check=False, base=["exit:0", "exit:0"], m=[[b, t], list(nb)])
        for b in EXITS:
            for b2 in EXITS:
                yield dict(tool="cargo", check=True, base=["exit:0"], m=[[b], [b2]])
        for b, t in pairs:
            for tool in tools:
                yield dict(tool=tool, check=False, base=[b, t], m=[["exit:0", "exit:0"], ["exit:0", "exit:101"]])
        for b in EXITS:
            yield dict(tool="cargo", check=True, base=[b], m=[["exit:0"], ["exit:101"]])
        for x in list(range(256)) + ["sig%d" % g for g in range(1, 32) if g not in (17, 18, 19, 20, 21, 22, 23, 28)]:
            e = "exit:%d" % x if isinstance(x, int) else "sig:" + x[3:]
            for ph in (0, 1):
                m = ["exit:0", "exit:0"]
                m[ph] = e
                for tool in tools:
                    yield dict(tool=tool, check=False, base=["exit:0", "exit:0"], m=[m, ["exit:0", "exit:101"]])
                if tier == "thorough":
                    yield dict(tool="cargo", check=False, base=["exit:0", "exit:0"], m=[m, m], jobs=2)

    def run_case(self, R, case):
        lab = Lab(R, tree_files("2"))
        lab.load()
        check = case["check"]

        def pol(c):
            w = lab.guess(c)
            ends = case["base"] if w < 0 else case["m"][w]
            i = 0 if c.phase in ("build", "check") else 1
            return dict(end=ends[i] if i < len(ends) and ends[i] else "exit:0", step=5.0)
        args = ["--no-shuffle", "--timeout=60", "--build-timeout=60"]
        if check:
            args.append("--check")
        if case["tool"] == "nextest":
            args.append("--test-tool=nextest")
        if case.get("jobs"):
            args.append("-j%d" % case["jobs"])
        bt = "hang" in case["base"][:1]
        res = R.run(lab.case, lab.root, args, pol) if not bt else None
        if res is None:   # the baseline build has no limit of its own: not part of this property
            return dict(viol=[], n=0)
        out = lab.out()
        v = []
        if res.hung:
            v.append("run did not end")
        v += out.errors
        d = by_scenario(lab, res)

        def truth(ends):
            r = []
            for e in ends:
                if e is None:
                    break
                r.append(e)
                if e != "exit:0":
                    break
            return r
        base = truth(case["base"])
        base_ok = base[-1] == "exit:0"
        exp = {-1: base}
        if base_ok:
            for i, m in enumerate(case["m"]):
                exp[i] = truth(m)
        names = ["check"] if check else ["build", "test"]
        got = {}
        for o in (out.outcomes or {"outcomes": []})["outcomes"]:
            got[scen_index(lab, o)] = o
        for i, ends in exp.items():
            kids = d.get(i, [])
            if [c.phase for c in kids] != names[:len(ends)]:
                v.append("scenario %d ran phases %s, expected %s" % (i, [c.phase for c in kids], names[:len(ends)]))
            o = got.get(i)
            if o is None:
                v.append("no outcome recorded for scenario %d" % i)
                continue
            want = summ(ends, check, i < 0)
            if o["summary"] not in want:
                v.append("scenario %d with phase endings %s is %s, expected %s" % (i, ends, o["summary"], "/".join(want)))
            pr = o["phase_results"]
            if [p["process_status"] for p in pr] != [status(e) for e in ends]:
                v.append("scenario %d: recorded statuses %s, true endings %s" % (i, [p["process_status"] for p in pr], ends))
            if [p["phase"].lower() for p in pr] != names[:len(ends)]:
                v.append("scenario %d: recorded phases %s" % (i, [p["phase"] for p in pr]))
            for p, c in zip(pr, kids):
                if p["argv"] != c.argv:
                    v.append("scenario %d: recorded argv %s, real %s" % (i, p["argv"], c.argv))
            if i >= 0:
                for s, f in LISTS.items():
                    inlist = lab.names[i] in out.lines(f)
                    if inlist != (o["summary"] == s):
                        v.append("scenario %d is %s but %s %s" % (i, o["summary"], "in" if inlist else "not in", f))
        if set(got) - set(exp):
            v.append("outcomes for scenarios that must not run: %s" % sorted(map(str, set(got) - set(exp))))
        st = run_states(lab, res)
        return dict(viol=v, states=st, transitions=len(res.events), nontrivial=[h(case)] if any(k >= 0 for k in d) else [],
                    sample=dict(case=case, observed=describe(lab, res)))


CHECK = C()
