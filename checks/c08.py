import math
from runs import *

SLACK = 1.0


class C(Check):
    id = "C08"
    level = "model_checking"
    rule = ("a case is one combination of timeout settings (value and source), baseline durations and a behaviour of one phase of one mutant (hang, end just before or "
            "just after the limit), executed on the real binary under a virtual clock; non-trivial when a cargo child outlived a limit or ended within 1 s of it")
    assumptions = ["time is the monotonic clock, virtual here", "cargo, and the processes it starts, may ignore SIGTERM but stay in their process group"]

    def bounds_for(self, tier):
        return dict(timeout=[None, 0.5, 7], multiplier=[None, 0.3, 2], minimum=[None, 3, 45], baseline_s=[0, 2.5, 17, 400], sources=["cli", "env", "config"])

    def cases(self, tier):
        durs = [0, 2.5, 17, 400] if tier == "quick" else [0, 0.01, 1, 2.5, 3.99, 4, 4.01, 17, 100.3, 400, 86400]
        # test limit
        tmo = [None, 0.5, 7]
        mult = [None, ("cli", 2), ("config", 0.3), ("both", 2)]
        mini = [None, ("cli", 3), ("env", 45), ("config", 3), ("clicfg", 3), ("envcfg", 45)]
        if tier == "thorough":
            mult += [("cli", 0.3), ("config", 2), ("cli", 1.5), ("both", 0.3)]
            mini += [("cli", 45), ("env", 3), ("config", 45), ("clicfg", 45)]
        for t in tmo:
            for m in mult:
                if t is not None and m and m[0] in ("cli", "both"):
                    continue
                for mi in mini:
                    for d in durs:
                        yield dict(kind="test", timeout=t, mult=m, mini=mi, dur=d, how="hang")
                    if m is None or mi is None:
                        yield dict(kind="test", timeout=t, mult=m, mini=mi, dur=2.5, how="before")
                        yield dict(kind="test", timeout=t, mult=m, mini=mi, dur=2.5, how="after")
                        yield dict(kind="test", timeout=t, mult=m, mini=mi, dur=2.5, how="slow")
                        yield dict(kind="test", timeout=t, mult=m, mini=mi, dur=None, how="hang")   # baseline skipped
        # build limit
        for b in (None, ("to", 7), ("to", 0.5), ("cli", 2), ("config", 3), ("both", 1.5), ("cli", 0.3), ("config", 0.5)):
            for d in durs:
                for how in ("hang", "before", "after", "slow") if b else ("long",):
                    for extra in ([], ["--timeout=5"]):
                        yield dict(kind="build", b=b, dur=d, how=how, extra=extra)
            for how in ("hang",) if b and b[0] == "to" else ("long",):
                yield dict(kind="build", b=b, dur=None, how=how, extra=["--timeout=5"])
        # what a kill reaches, and that the rest goes on
        for phase in ("build", "test"):
            for tree, codes in (("1", "X"), ("2", "XC"), ("2", "CX"), ("21", "MXC"), ("2", "XX")):
                for j in (1, 2):
                    for g in (0, 1, 2):
                        yield dict(kind="kill", phase=phase, tree=tree, codes=codes, jobs=j, grand=g, inplace=False)
                yield dict(kind="kill", phase=phase, tree=tree, codes=codes, jobs=1, grand=1, inplace=True)
        for d in (0, 4):
            for how in ("hang", "before", "after"):
                yield dict(kind="check", to=7, dur=d, how=how)
        for b in (("cli", 2), ("config", 3), ("both", 1.5), ("cli", 0.3)):
            for d in durs:
                for how in ("hang", "before", "after"):
                    yield dict(kind="check", b=b, dur=d, how=how)
        # the baseline's own tests
        for t in (0.5, 7):
            yield dict(kind="base", timeout=t)
        # a cargo that ignores the polite signal
        for phase in ("build", "test"):
            for j in (1, 2):
                yield dict(kind="stubborn", phase=phase, jobs=j)
                for n in (1, 2):
                    yield dict(kind="stubborn", phase=phase, jobs=j, child=n)

    def settings(self, case):
        args, env, cfg = [], {}, []
        m, mi = case.get("mult"), case.get("mini")
        if case.get("timeout") is not None:
            args.append("--timeout=%s" % case["timeout"])
        if m:
            if m[0] in ("cli", "both"):
                args.append("--timeout-multiplier=%s" % m[1])
            if m[0] == "config":
                cfg.append("timeout_multiplier = %s" % float(m[1]))
            if m[0] == "both":
                cfg.append("timeout_multiplier = 9.0")
        if mi:
            if mi[0] in ("cli", "clicfg"):
                args.append("--minimum-test-timeout=%s" % mi[1])
            if mi[0] in ("env", "envcfg"):
                env["CARGO_MUTANTS_MINIMUM_TEST_TIMEOUT"] = str(mi[1])
            if mi[0] == "config":
                cfg.append("minimum_test_timeout = %s" % float(mi[1]))
            if mi[0] in ("clicfg", "envcfg"):
                cfg.append("minimum_test_timeout = 77.0")
        return args, env, cfg

    def run_case(self, R, case):
        k = case["kind"]
        v = []
        if k in ("test", "build", "check"):
            files = tree_files("2")
            args, env, cfg = ["--no-shuffle"], {}, []
            L = None
            if k == "test":
                a, env, cfg = self.settings(case)
                args += a
                mult = case["mult"][1] if case["mult"] else 5.0
                mi = case["mini"][1] if case["mini"] else 20.0
                if case["timeout"] is not None:
                    L = case["timeout"]
                elif case["dur"] is None:
                    L = 300.0
                else:
                    L = max(mi, math.ceil(case["dur"] * mult))
                phase = "test"
            else:
                # with --check, checking is the build
                phase = k
                b = case.get("b") or (("to", case["to"]) if k == "check" else None)
                args += case.get("extra", []) + (["--check"] if k == "check" else [])
                if b:
                    if b[0] == "to":
                        args.append("--build-timeout=%s" % b[1])
                        L = b[1]
                    else:
                        if b[0] in ("cli", "both"):
                            args.append("--build-timeout-multiplier=%s" % b[1])
                        if b[0] == "config":
                            cfg.append("build_timeout_multiplier = %s" % float(b[1]))
                        if b[0] == "both":
                            cfg.append("build_timeout_multiplier = 50.0")
                        L = case["dur"] * b[1] if case["dur"] is not None else None
            if case["dur"] is None:
                args.append("--baseline=skip")
            if cfg:
                files[".cargo/mutants.toml"] = "\n".join(cfg) + "\n"
            lab = Lab(R, files)
            lab.load()

            def pol(c):
                w = lab.guess(c)
                if w < 0:
                    return dict(end="exit:0", dur=case["dur"] if c.phase == phase else 0.3)
                if case["how"] == "slow" and c.phase != phase:
                    return dict(end="exit:0" if c.phase != "test" else "exit:101", dur=250.0, step=50.0) if c.phase != "test" else dict(end="exit:101", dur=3.0)
                if (w == 0 or case["how"] == "slow") and c.phase == phase:
                    if case["how"] == "long":
                        return dict(end="exit:0", dur=500000.0, step=9000.0)
                    if L is None:
                        return dict(end="exit:0", dur=500000.0, step=9000.0)

                    def stepf(el):
                        if el < L - 0.4:
                            return L - 0.4 - el
                        if el < L + SLACK:
                            return 0.02
                        return 4000.0
                    p = dict(stepf=stepf)
                    if case["how"] == "hang":
                        p["end"] = "hang"
                    elif case["how"] in ("before", "slow"):
                        p.update(end="exit:101" if phase == "test" else "exit:0", dur=max(0.0, L - 0.11))
                    else:
                        p.update(end="exit:101" if phase == "test" else "exit:0", dur=L + SLACK + 50)
                    return p
                return dict(end="exit:0" if c.phase != "test" else "exit:101", dur=0.1)
            res = R.run(lab.case, lab.root, args, pol, env=env)
            out = lab.out()
            kids = [c for c in res.children if lab.who(c) == 0 and c.phase == phase]
            if res.hung:
                v.append("run did not end")
            elif len(kids) != 1:
                v.append("mutant 0 had %d %s runs" % (len(kids), phase))
            else:
                c = kids[0]
                el = None if c.killed_at is None else (c.killed_at - c.first_w) / 1e9
                over = case["how"] in ("hang", "after") and L is not None
                if over:
                    if el is None:
                        v.append("cargo %s over its limit of %s s was not killed" % (phase, L))
                    elif el < L - 0.001:
                        v.append("cargo %s killed after %.3f s, limit %s s" % (phase, el, L))
                    elif el > L + SLACK + 0.2:
                        v.append("cargo %s killed only after %.3f s, limit %s s" % (phase, el, L))
                elif el is not None and not (L is not None and case["how"] in ("before", "slow") and L <= 0.11):
                    v.append("cargo %s within its limit (%s s) was killed after %.3f s" % (phase, L, el))
                s = None
                for o in (out.outcomes or {"outcomes": []})["outcomes"]:
                    if scen_index(lab, o) == 0:
                        s = o["summary"]
                want = "Timeout" if over else ("CaughtMutant" if phase == "test" or k == "build" else "Success")
                if s != want and not (not over and L is not None and L <= 0.11):
                    v.append("mutant recorded as %s, expected %s" % (s, want))
                if over:
                    if lab.names[0] not in out.lines("timeout.txt"):
                        v.append("timed-out mutant not in timeout.txt")
                    if res.code != 3:
                        v.append("exit %s with a timed-out mutant" % res.code)
                if 1 not in [lab.who(x) for x in res.children]:
                    v.append("the next mutant was not tested")
            near = L is not None
            return dict(viol=v, states=[h((k, L, case["how"]))] + run_states(lab, res), transitions=len(res.events) + sum(c.waits for c in res.children),
                        nontrivial=[h(case)] if near else [], sample=dict(case=case, limit=L, killed_after=[(c.killed_at - c.first_w) / 1e9 for c in kids if c.killed_at]))
        if k == "kill":
            lab = Lab(R, tree_files(case["tree"]))
            lab.load()
            ph = case["phase"]

            def pol(c):
                w = lab.guess(c)
                code = "M" if w < 0 else case["codes"][w]
                if code == "X":
                    if c.phase == ph:
                        return dict(end="hang", step=3.0, cmds=["fork"] * case["grand"])
                    return dict(end="exit:0")
                return dict(end=plan_of(code, c.phase))
            args = ["--no-shuffle", "--timeout=30", "--build-timeout=30"] + (["--in-place"] if case["inplace"] else ["-j%d" % case["jobs"]])
            res = R.run(lab.case, lab.root, args, pol, sched=[] if case["jobs"] > 1 else None)
            if res.hung:
                v.append("run did not end")
            for c in res.children + res.grand:
                if c.alive_at_exit:
                    v.append("a %s process survived the run" % ("test" if c.kind == "grandchild" else "cargo"))
            for c in res.children:
                w = lab.guess(c)
                code = "M" if w < 0 else case["codes"][w]
                hung = code == "X" and c.phase == ph
                if hung and c.killed_at is None:
                    v.append("hung cargo %s was not killed" % ph)
                if not hung and c.killed_at is not None:
                    v.append("a cargo process that was not hung was killed")
                if c.pgid != c.pid:
                    v.append("cargo does not run in a process group of its own")
            codes = case["codes"].replace("X", "T" if ph == "test" else "B")
            v += check_reports(lab, lab.out(), codes)
            v += check_children(lab, res, codes)
            if res.code != 3:
                v.append("exit %s" % res.code)
            return dict(viol=v, states=run_states(lab, res), transitions=len(res.events), nontrivial=[h(case)], sample=dict(case=case, observed=describe(lab, res)))
        if k == "base":
            lab = Lab(R, tree_files("1"))
            lab.load()
            L = case["timeout"]

            def stepf(el):
                return L - 0.4 - el if el < L - 0.4 else 0.02 if el < L + SLACK else 4000.0
            res = R.run(lab.case, lab.root, ["--timeout=%s" % L], lambda c: dict(end="exit:0" if c.phase == "build" else "hang", stepf=stepf))
            c = res.children[-1]
            if res.hung or c.killed_at is None:
                v.append("hung baseline tests not killed")
            elif not L - 0.001 <= (c.killed_at - c.first_w) / 1e9 <= L + SLACK + 0.2:
                v.append("baseline tests killed after %.3f s, limit %s" % ((c.killed_at - c.first_w) / 1e9, L))
            if res.code != 4:
                v.append("hung baseline: exit %s" % res.code)
            return dict(viol=v, states=[h(("base", L))], transitions=len(res.events), nontrivial=[h(case)], sample=case)
        if k == "stubborn":
            lab = Lab(R, tree_files("2"))
            lab.load()
            ph = case["phase"]
            codes = "TC" if ph == "test" else "BC"
            res = lab.run(["--timeout=5", "--build-timeout=5", "--no-shuffle", "-j%d" % case["jobs"]], codes,
                          more=lambda c, w: (dict(cmds=["forkign"] * case["child"]) if case.get("child") else dict(cmds=["ignterm"], ignterm=True)) if w == 0 and c.phase == ph else None, wall=8, sched=[] if case["jobs"] > 1 else None)
            if res.hung:
                v.append("a cargo process that ignores SIGTERM is never killed: the run hangs")
            else:
                v += check_reports(lab, lab.out(), codes) + check_children(lab, res, codes)
                if any(c.alive_at_exit for c in res.children):
                    v.append("a cargo process survived the run")
                if any(c.alive_at_exit for c in res.grand):
                    v.append("a process started by cargo, that ignores SIGTERM, survived the run")
                if len(res.grand) != case.get("child", 0):
                    v.append("expected %d processes started by cargo, not %d" % (case.get("child", 0), len(res.grand)))
            return dict(viol=v, states=[h(("stubborn", ph, case.get("child", 0)))], transitions=len(res.events), nontrivial=[h(case)], sample=case)


CHECK = C()
