from faults import *


COPYING = ("open_trunc", "open_create", "open_write", "copy", "sendfile", "symlink", "mkdir")


class C(Check):
    id = "C09"
    level = "model_checking"
    rule = ("for each scenario (outcomes, hanging children, jobs 1-3, in place, check only, skipped baseline, broken output pipe, a cargo, or a test, that ignores SIGTERM) the run is interrupted at every intercepted operation and at "
            "every poll of every child, for two workers also under every schedule up to the bound; non-trivial when the interrupt was delivered while work was left")
    assumptions = ["the interrupt is one SIGINT to the tool; its handler thread runs before the next operation", "time is virtual"]

    def bounds_for(self, tier):
        return dict(interrupts=1, points="every intercepted operation and the first 3 polls of every child", jobs=[1, 2, 3], preemptions=1 if tier == "thorough" else 0)

    def cases(self, tier):
        A = ["--timeout=300", "--build-timeout=300"]
        roots = [dict(tree="2", codes="CM", args=A), dict(tree="11", codes="TB", args=A), dict(tree="2", codes="MU", args=A + ["--in-place"]), dict(tree="2", codes="TC", args=A + ["--in-place"]),
                 dict(tree="2", codes="MC", args=A + ["--baseline=skip"]), dict(tree="1", codes="M", args=A + ["--check"]), dict(tree="2", codes="CM", args=A + ["--leak-dirs"]),
                 dict(tree="2", codes="CM", args=A, base="C"), dict(tree="2", codes="MM", args=A, base="T"), dict(tree="2", codes="CM", args=A, grand=1), dict(tree="2", codes="CM", args=A, grand=2), dict(tree="2", codes="TM", args=A + ["-j2"], grand=2, sched=[]),
                 dict(tree="2", codes="CM", args=A + ["-j2"], sched=[]), dict(tree="2", codes="TT", args=A + ["-j2"], sched=[]), dict(tree="3", codes="CMU", args=A + ["-j3"], sched=[]),
                 dict(tree="2", codes="CM", args=A, broken="!e"), dict(tree="2", codes="CM", args=A, broken="!oe"), dict(tree="2", codes="CM", args=A + ["-j2"], sched=[], broken="!e"),
                 dict(tree="2", codes="CM", args=A + ["--iterate"], prev=True),
                 dict(tree="2", codes="TM", args=A, stub=1), dict(tree="2", codes="BM", args=A + ["--in-place"], stub=1), dict(tree="2", codes="TT", args=A + ["-j2"], sched=[], stub=1)]
        roots += [dict(tree="2", codes="CM", args=A, many=24), dict(tree="2", codes="CM", args=A + ["-j2"], many=24, sched=[])]
        if tier == "thorough":
            roots += [dict(tree="2", codes=c, args=A + a) for c in codes_all("CMUTB", 2) for a in ([], ["--in-place"], ["--check"], ["--baseline=skip"])]
            roots += [dict(tree="2", codes=c, args=A + ["-j2"], sched=[], pb=0) for c in codes_all("CMUT", 2)]
            roots += [dict(tree="21", codes="CMU", args=A + ["-j2"], sched=[], pb=0)]
            roots += [dict(tree="2", codes="CM", args=A + ["-j2"], sched=[], pb=1)]
        else:
            roots += [dict(tree="2", codes="CM", args=A + ["-j2"], sched=[], pb=0, pts=["wait", "exit"])]
        for r in roots:
            yield dict(r, probe=True)

    def run_case(self, R, case):
        lab = Lab(R, dict(tree_files(case["tree"]), **{"%s/x%d" % ("abc"[i % 3], i): "x" for i in range(case.get("many", 0))}))
        lab.load()
        if case.get("prev"):
            write_tree(lab.root, {"mutants.out/caught.txt": "src/x.rs:9:9: replace zz with ()\n", "mutants.out/lock.json": "{}"})
        codes = case["codes"]
        base = case.get("base", "M")
        before = dict(lab.orig)

        def more_plan(c, w):
            p = {}
            if case.get("hang") == "base" and w < 0:
                p["end"] = "hang"
            if case.get("grand"):
                p["cmds"] = ["fork"] if case["grand"] == 1 else ["forkign"]
            if case.get("stub") and w >= 0 and plan_of(codes[w], c.phase) == "hang":
                p.update(cmds=["ignterm"], ignterm=True)
            return p
        check = "--check" in case["args"]
        skip = "--baseline=skip" in case["args"]
        hb = case.get("hang") == "base"
        res = lab.run(["--no-shuffle", "--no-times"] + case["args"], codes, base=base, more=more_plan, sched=case.get("sched"), pts=case.get("pts"), fault=case.get("fault"),
                      on_wait=on_wait_for(case), broken=case.get("broken"), wall=20)
        if case.get("probe"):
            more = fault_cases(case, res, ("int",), (), waits=3, ops=ops_after(res, len(case.get("sched") or [])))
            if case.get("sched") is not None and "pb" in case:
                more += sched_more(case, res)
            return dict(viol=[], more=more, states=run_states(lab, res), transitions=len(res.events), extra=dict(interrupt_points=len(more)))
        if res.code == 77 and case.get("sched"):
            # the interrupt came before the last forced decision: covered by the shorter schedule
            return dict(viol=[], states=[], transitions=len(res.events))
        v = []
        lb = label(case)
        ints = [e for e in res.events if e[1] == "int"]
        out = lab.out()
        if not ints:
            # the run took another turn before the point (it cannot, single fault): count as trivial
            return dict(viol=[], states=[], transitions=len(res.events))
        t = ints[0][0]
        limit = 300e9
        if res.hung:
            v.append("%s: the tool does not stop" % lb)
        # finished scenarios
        fin, fin_before = set(), set()
        d = by_scenario(lab, res)
        for i, kids in d.items():
            code = base if i < 0 else codes[i]
            want = expected_phases(code, check)
            if [c.phase for c in kids] != want:
                continue
            if all(c.ended or (c.killed_at is not None and code in "TB") for c in kids):
                if all(c.ended or c.end_seq < t or (c.first_w is not None and c.killed_at - c.first_w >= limit * 0.99) for c in kids):
                    fin.add(i)
                if all(c.end_seq < t for c in kids):
                    fin_before.add(i)
        complete = set(range(len(codes))) <= fin
        jobs = int([a for a in case["args"] if a.startswith("-j")][0][2:]) if any(a.startswith("-j") for a in case["args"]) else 1
        late = list(res.aborted)
        for c in res.children:
            if c.start_seq > t:
                late.append(c)
                if c.killed_at is None:
                    v.append("%s: cargo %s was started after the interrupt and not terminated" % (lb, c.phase))
            elif c.end_seq is None or c.end_seq > t:
                if jobs > 1 and c.ended and len([x for x in c.wait_at if x >= t]) <= 1:
                    continue      # its worker was already inside the poll that found it finished
                if c.killed_at is None and not (c.ended and c.end_seq < t):
                    v.append("%s: cargo %s, running at the interrupt, was not terminated but %s" % (lb, c.phase, c.ended))
            n_after = len([e for e in res.events if e[1] == "end" and e[2] == c.seq and e[0] > t])
            if n_after:
                v.append("%s: cargo %s went on to its end after the interrupt" % (lb, c.phase))
        if len(late) > jobs:
            v.append("%s: %d cargo processes were started after the interrupt" % (lb, len(late)))
        for c in res.children + res.grand + res.aborted:
            lead = next((x for x in res.children if x.pgid == c.pgid), None)
            if c.alive_at_exit and not (c.kind == "grandchild" and lead is not None and lead.killed_at is None):
                v.append("%s: a cargo process (or its child) was left running" % lb)
        if res.code in (0, 2, 3):
            if not complete:
                v.append("%s: exit %s although mutants %s were never finished" % (lb, res.code, sorted(set(range(len(codes))) - fin)))
            else:
                full = check_reports(lab, out, codes, check, base=base, baseline=not skip)
                v += ["%s: exit %s, but %s" % (lb, res.code, x) for x in full]
        elif res.code == 4 and base == "M":
            v.append("%s: reported as a failing baseline" % lb)
        # copying a tree also stops: nothing but the file in hand is still copied
        if case.get("at"):
            k0 = int(case["fault"].split(":")[0])
            later = {p for k, _t, op, p in log_ops(res) if k > k0 and p.startswith("T/") and op in COPYING}
            if len(later) > 4 * jobs:
                v.append("%s: %d files are still copied after the interrupt" % (lb, len(later)))
        # results
        if out.exists and not (case.get("prev") and "zz" in (out.lists["caught.txt"] or "")):
            for s, f in LISTS.items():
                ok = {lab.names[i] for i in fin if i >= 0 and summary_of(codes[i], check) == s}
                must = {lab.names[i] for i in fin_before if i >= 0 and summary_of(codes[i], check) == s}
                got = out.lines(f)
                for ln in got:
                    if ln not in ok:
                        v.append("%s: %s lists %r, which did not finish so" % (lb, f, ln))
                # a scenario whose last child ended before the interrupt may still be on its way into the lists, but only one per worker
                miss = must - set(got)
                if len(miss) > jobs or (miss and case.get("broken") is None and res.code in (0, 2, 3)):
                    v.append("%s: results %s got lost from %s" % (lb, sorted(miss), f))
            if out.errors:
                v.append("%s: %s" % (lb, out.errors[0]))
            if out.outcomes:
                for o in out.outcomes["outcomes"]:
                    i = scen_index(lab, o)
                    if i is None or i not in fin:
                        v.append("%s: outcome %s recorded for scenario %s, which did not finish" % (lb, o["summary"], i))
                    elif i >= 0 and o["summary"] != summary_of(codes[i], check):
                        v.append("%s: outcome %s recorded for mutant %d" % (lb, o["summary"], i))
        d = diff_snap(before, {k: x for k, x in snapshot(lab.root).items()})
        if d:
            v.append("%s: source tree changed: %s" % (lb, d[0][:300]))
        if "--leak-dirs" not in case["args"] and res.tmp_left:
            v.append("%s: temporary directories left: %s" % (lb, res.tmp_left))
        if not (res.err + res.out).strip() and not case.get("broken"):
            v.append("%s: no message" % lb)
        return dict(viol=v, states=[h((case["codes"], case.get("at"), case.get("wait"), sorted(fin), res.code))] + run_states(lab, res), transitions=len(res.events),
                    nontrivial=[h(case)] if not complete else [], sample=dict(case=case, exit=res.code, finished=sorted(fin)))


CHECK = C()
