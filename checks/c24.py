from runs import *


class C(Check):
    id = "C24"
    level = "model_checking"
    rule = ("a case is one job count, outcome vector and schedule; worker threads run under the controlled scheduler and every reachable schedule up to the preemption "
            "bound is executed; monitors watch the set of live cargo children; non-trivial when at least two mutants were tested")
    assumptions = ["worker threads interact only through intercepted calls"]

    def bounds_for(self, tier):
        return dict(mutants="1-5, 12, 30", jobs="1-4, 5-40", preemptions=1 if tier == "quick" else 2)

    def cases(self, tier):
        A = ["--timeout=30", "--build-timeout=30"]
        # how many really run at once: children are held until the expected number is live
        for n, tree in ((1, "1"), (2, "2"), (3, "21"), (4, "22")):
            for j in (None, 1, 2, 3, 4, 7):
                for via in ("arg", "env"):
                    if j is None and via == "env":
                        continue
                    yield dict(kind="hold", tree=tree, codes="M" * n, jobs=j, via=via, args=A)
                    yield dict(kind="hold", tree=tree, codes="M" * n, jobs=j, via=via, args=A + ["--baseline=skip"])
        for n, tree in ((12, "66"), (30, "big")):
            for j in (None, 1, 2, 5, 9, 12, 29, 40) if tier != "quick" or n == 12 else (None, 3, 29, 40):
                yield dict(kind="hold", tree=tree, codes="M" * n, jobs=j, via="arg", args=A)
        for n, tree in ((2, "2"), (3, "21"), (4, "22")):
            for codes in codes_all("CMUT", n) if n < 4 else codes_all("CMU", 4):
                for j in (2, 3):
                    yield dict(kind="free", tree=tree, codes=codes, jobs=j, args=A)
        for tree, codes, j, pb, pts in [("2", "CM", 2, 1, None), ("11", "UM", 2, 1, None), ("21", "CMU", 2, 0, None), ("3", "MCU", 3, 0, ["wait"]),
                                        ("22", "CUMU", 2, 0, ["wait", "exit"])]:
            yield dict(kind="sched", tree=tree, codes=codes, args=A, jobs=j, sched=[], pb=pb, pts=pts)
        for j in (2, 7, 12, 20) if tier == "quick" else (2, 3, 5, 7, 8, 9, 12, 16, 17, 20, 33, 64):
            yield dict(kind="free", tree="huge", codes=("CMTUBCU" * 30)[:131], jobs=j, args=A)
        # hung children while others complete
        for codes in ("TC", "CT", "TT"):
            yield dict(kind="free", tree="2", codes=codes, jobs=2, args=A)
        if tier == "thorough":
            for codes in codes_all("CMU", 2):
                yield dict(kind="sched", tree="2", codes=codes, args=A, jobs=2, sched=[], pb=2)
            for codes in codes_all("CMU", 3):
                yield dict(kind="sched", tree="3", codes=codes, args=A, jobs=3, sched=[], pb=0, pts=["wait", "exit", "spawn"])
                yield dict(kind="sched", tree="21", codes=codes, args=A, jobs=2, sched=[], pb=1)

    def run_case(self, R, case):
        codes = case["codes"]
        n = len(codes)
        limit = max(1, min(case.get("jobs") or 1, n))
        env = None
        c2 = dict(case)
        if case.get("via") == "env":
            env = {"CARGO_MUTANTS_JOBS": str(case["jobs"])}
            c2["jobs"] = None
        if case["kind"] == "hold":
            lab = Lab(R, tree_files(case["tree"]))
            lab.load()
            args = ["--no-shuffle", "--no-times"] + case["args"] + (["-j%d" % c2["jobs"]] if c2.get("jobs") else [])
            peak = [0]

            def on_wait(c, res):
                return None

            def more(c, w):
                return dict(end="hang", step=0) if w >= 0 and c.phase == "test" else None
            released = [False]
            t_first = [None]

            def ow(c, res):
                live = [x for x in res.children if x.end_seq is None and lab.guess(x) >= 0 and x.phase == "test"]
                peak[0] = max(peak[0], len(live))
                if t_first[0] is None and live:
                    t_first[0] = time.monotonic()
                if not released[0] and live and (len(live) >= limit or time.monotonic() - t_first[0] > 5):
                    if len(live) >= limit:
                        # linger a moment: a surplus child would show up now
                        if t_first[0] > 0:
                            t_first[0] = -1
                            ow.t = time.monotonic()
                        if time.monotonic() - ow.t < 0.04:
                            return None
                    released[0] = True
                if released[0]:
                    for x in live:
                        x.plan["end"] = "exit:0"
                        x.plan["dur"] = 0
                return None
            res = lab.run(args, codes, more=more, on_wait=ow, env=env)
            v = []
            if not schedule_ok(res):
                v.append("run did not end")
            if peak[0] < limit:
                v.append("only %d of %d mutants ran at the same time" % (peak[0], limit))
        else:
            lab, res, out = start_run(R, dict(c2, env=env))
            v = []
            if not schedule_ok(res):
                v.append("run did not end (exit %s%s)" % (res.code, ", deadlock" if res.code == 78 else ""))
        for live in overlaps(res):
            if len(live) > limit:
                v.append("%d cargo processes at once with a limit of %d" % (len(live), limit))
                break
            cw = [c.cwd for c in live]
            if len(set(cw)) != len(cw):
                v.append("two running cargo processes share a build directory")
                break
        if len({c.cwd for c in res.children}) > limit:
            v.append("%d build directories for %d jobs" % (len({c.cwd for c in res.children}), limit))
        for c in res.children:
            if not isinstance(lab.who(c), int):
                v.append("cargo %s saw a tree that is no single mutation" % c.phase)
        if res.code not in (77, 78) and not res.hung:
            if case["kind"] == "hold":
                codes = "M" * n
            v += check_reports(lab, lab.out(), codes, baseline="--baseline=skip" not in case["args"])
            if res.code != expected_exit(codes):
                v.append("exit %s, a single job gives %s" % (res.code, expected_exit(codes)))
        return dict(viol=v, states=run_states(lab, res), transitions=len(res.events) + len(decisions(res)), more=sched_more(case, res) if not v else [],
                    nontrivial=[h(case)] if n > 1 else [], sample=dict(case=case, observed=describe(lab, res)),
                    extra=dict(schedules=1 if case.get("sched") is not None else 0))


CHECK = C()
