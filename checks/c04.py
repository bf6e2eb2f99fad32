from runs import *


class C(Check):
    id = "C04"
    level = "model_checking"
    rule = ("a case is one outcome vector for a tree (including trees whose log names collide) with job count and mode, under one schedule chosen by the controlled "
            "scheduler; at the end the recorded results, lists, logs and diffs are compared with the listing and with the cargo children that really ran; "
            "non-trivial when a mutant was tested")
    assumptions = ["worker threads interact only through intercepted calls", "a mutant whose cargo is killed by a foreign signal may be left unclassified"]

    def bounds_for(self, tier):
        return dict(mutants="1-7", jobs="1-3", preemptions=1 if tier == "quick" else 2)

    def cases(self, tier):
        A = ["--timeout=30", "--build-timeout=30"]
        for tree, n in (("1", 1), ("2", 2), ("bool", 3), ("coll", 2), ("21", 3)):
            for codes in codes_all("CMUTB" if n < 3 else "CMUT", n):
                yield dict(tree=tree, codes=codes, args=A)
                yield dict(tree=tree, codes=codes, args=A, jobs=2)
                if n <= 2:
                    yield dict(tree=tree, codes=codes, args=A + ["--in-place"])
                    yield dict(tree=tree, codes=codes, args=A + ["--shuffle"])
                    yield dict(tree=tree, codes=codes, args=A + ["--check"])
                    yield dict(tree=tree, codes=codes, args=A, base="skip")
        for tree, n in (("many", 6), ("col1", 4), ("names", 4), ("deeppath", 2)):
            for codes in ["CMUTB" * 3, "M" * 20, "UC" * 8, "CM" * 8, "TU" * 8]:
                for a in ([], ["--shuffle"], ["--in-place"]):
                    yield dict(tree=tree, codes=codes[:n], args=A + a)
                yield dict(tree=tree, codes=codes[:n], args=A, jobs=3)
        # many mutants, with few files allowed to be open at once
        for codes in (["CMUTB" * 3, "M" * 12] if tier == "quick" else codes_all("CMUTB", 2)):
            for j in (1, 2):
                yield dict(tree="big", codes=(codes * 30)[:30], args=A, jobs=j, nofile=12 * j)
        for j in (1, 2, 3, 8):
            for codes in (["CMCUB"] if tier == "quick" else ["CMCUB", "M", "C", "TUMM", "CB"]):
                yield dict(tree="huge", codes=(codes * 131)[:131], args=A, jobs=j)
        for codes in codes_all("TBM", 4):
            for j in (2, 3):
                yield dict(tree="22", codes=codes, args=A, jobs=j)
        for codes in codes_all("CMU", 4):
            yield dict(tree="22", codes=codes, args=A, jobs=3)
            if tier == "thorough":
                yield dict(tree="4", codes=codes, args=A + ["--shuffle"], jobs=2)
        for tree, codes, j, pb, pts in [("2", "CM", 2, 1, None), ("2", "MM", 2, 1, None), ("bool", "CMU", 2, 0, None), ("coll", "UC", 2, 1, None),
                                        ("21", "CMU", 3, 0, ["wait", "write", "open_trunc", "open_create"]), ("3", "MMM", 2, 0, None)]:
            yield dict(tree=tree, codes=codes, args=A, jobs=j, sched=[], pb=pb, pts=pts)
        if tier == "thorough":
            for codes in codes_all("CMU", 2):
                yield dict(tree="2", codes=codes, args=A, jobs=2, sched=[], pb=2)
            for codes in codes_all("CMU", 3):
                yield dict(tree="bool", codes=codes, args=A, jobs=2, sched=[], pb=1)
                yield dict(tree="21", codes=codes, args=A, jobs=3, sched=[], pb=0, pts=["wait", "write", "open_trunc", "open_create"])

    def run_case(self, R, case):
        case = dict(case)
        lab, res, out = start_run(R, dict(case, tag=True))
        codes = case["codes"]
        check = "--check" in case["args"]
        v = []
        if not schedule_ok(res):
            v.append("run did not end (exit %s)" % res.code)
        base = case.get("base") != "skip"
        v += check_reports(lab, out, codes, check, baseline=base)
        d = by_scenario(lab, res)
        for i in range(len(codes)):
            got = [c.phase for c in d.get(i, [])]
            if got != expected_phases(codes[i], check):
                v.append("mutant %d was run as %s, expected once %s" % (i, got, expected_phases(codes[i], check)))
        v += check_logs(lab, out, d, codes, check)
        # every file under log/ and diff/ belongs to exactly one scenario
        if out.outcomes:
            for sub, k in (("log", "log_path"), ("diff", "diff_path")):
                want = sorted(o[k] for o in out.outcomes["outcomes"] if o.get(k))
                have = sorted(sub + "/" + f for f in os.listdir(os.path.join(out.path, sub)))
                if want != have:
                    v.append("%s/ holds %s, outcomes name %s" % (sub, have, want))
        return dict(viol=v, states=run_states(lab, res), transitions=len(res.events) + len(decisions(res)), more=sched_more(case, res) if not v else [],
                    nontrivial=[h(case)] if res.children else [], sample=dict(case=case, observed=describe(lab, res)),
                    extra=dict(schedules=1 if case.get("sched") is not None else 0))


CHECK = C()
