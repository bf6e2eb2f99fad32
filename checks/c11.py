from runs import *
from c27 import really_finished


def whole(text):
    """(complete lines, rest without newline)"""
    if not text:
        return [], ""
    parts = text.split("\n")
    return parts[:-1], parts[-1]


class C(Check):
    id = "C11"
    level = "fault_enumeration"
    rule = ("for each scenario the run is observed at the start of every cargo child (all schedules of two workers up to the bound), and killed with SIGKILL at every "
            "intercepted operation and at every poll of a child; non-trivial when a child started after some result existed, or the kill was delivered")
    assumptions = ["a kill ends the tool between two system calls; completed writes are in the file", "file system semantics of the host"]

    def bounds_for(self, tier):
        return dict(kill="every intercepted operation and wait", jobs=[1, 2], preemptions=1)

    def cases(self, tier):
        A = ["--timeout=30", "--build-timeout=30"]
        n3 = codes_all("CMUT", 3)
        for codes in n3 if tier == "thorough" else n3[::2]:
            yield dict(kind="obs", tree="21", codes=codes, args=A)
        for j in (1, 4):
            yield dict(kind="obs", tree="huge", codes=("CMTUBCU" * 30)[:131], args=A, jobs=j)
        for codes in codes_all("CMUTB", 2):
            yield dict(kind="obs", tree="2", codes=codes, args=A, jobs=2)
            yield dict(kind="obs", tree="2", codes=codes, args=A + ["--in-place"])
        for codes in (("CM", ) if tier == "quick" else codes_all("CMU", 2)):
            yield dict(kind="obs", tree="2", codes=codes, args=A, jobs=2, sched=[], pb=1)
        yield dict(kind="obs", tree="21", codes="CMU", args=A, jobs=2, sched=[], pb=0, pts=["wait", "exit"])
        roots = [("21", "CMU", 1), ("21", "UCT", 1), ("2", "MM", 1), ("2", "CM", 2), ("21", "MUC", 2), ("bool", "CMC", 1)]
        if tier == "thorough":
            roots += [("21", c, j) for c in codes_all("CMU", 3) for j in (1, 2)] + [("22", "CMUC", 3)]
        for tree, codes, j in roots:
            yield dict(kind="kill", probe=True, tree=tree, codes=codes, jobs=j, sched=[] if j > 1 else None, args=A)
        yield dict(kind="kill", probe=True, tree="2", codes="CU", jobs=None, args=A + ["--in-place"])
        yield dict(kind="kill", probe=True, tree="2", codes="CU", jobs=None, args=A + ["--iterate"], prev=True)

    def run_case(self, R, case):
        lab = Lab(R, tree_files(case["tree"]))
        lab.load()
        codes = case["codes"]
        args = ["--no-shuffle", "--no-times"] + case["args"] + (["-j%d" % case["jobs"]] if case.get("jobs") else [])
        v = []
        seen_out = []
        odir = os.path.join(lab.root, "mutants.out")
        if case.get("prev"):
            write_tree(lab.root, {"mutants.out/caught.txt": "src/lib.rs:9:9: replace zz with ()\n", "mutants.out/lock.json": "{}", "mutants.out/unviable.txt": "src/lib.rs:8:9: replace yy with ()\n"})
        prev_lines = {}

        def finished_now(res, me=None):
            """Scenarios that must be in the results by now, and those that may be."""
            must, may = set(), set()
            by = {}
            for c in res.children:
                by.setdefault(lab.guess(c), []).append(c)
            for i, kids in by.items():
                code = "M" if i < 0 else codes[i]
                want = expected_phases(code, "--check" in args)
                if [c.phase for c in kids] == want and all(c.ended or c.killed_at for c in kids):
                    may.add(i)
            return may

        def on_start(c, res):
            o = Out(odir)
            may = finished_now(res)
            must = set(may)
            if case.get("jobs") and case["jobs"] > 1:
                # another worker may be between the end of its child and recording it: only scenarios followed by
                # a later child of the same build directory must be there
                must = set()
                for i in may:
                    kids = [x for x in res.children if lab.guess(x) == i]
                    if any(x.cwd == kids[-1].cwd and x.start_seq > kids[-1].start_seq for x in res.children):
                        must.add(i)
                # no observation while a recording is under way
                if may != must:
                    return (None, may, must)
            return (o, may, must)
        res = lab.run(args, codes, on_start=on_start, sched=case.get("sched"), pts=case.get("pts"), fault=case.get("fault"), wall=30,
                      on_wait=(lambda c, r: "kill" if (c.seq, c.waits) == tuple(case["killw"]) else None) if case.get("killw") else None)
        nontriv = []
        # observations at child starts
        for c in res.children:
            if not c.note:
                continue
            o, may, must = c.note
            if o is None:
                continue
            if o.errors:
                v.append("while cargo %s runs: %s" % (c.phase, o.errors[0]))
            if o.mutants is None:
                v.append("mutants.json is missing while cargo %s runs" % c.phase)
            elif sorted(map(key, o.mutants)) != sorted(map(key, lab.mutants)):
                v.append("mutants.json does not hold all selected mutants while cargo %s runs" % c.phase)
            got = set()
            if o.outcomes is not None:
                got = {scen_index(lab, x) for x in o.outcomes["outcomes"]}
            elif must:
                v.append("outcomes.json missing although scenarios %s are finished" % sorted(must))
            if not must <= got or not got <= may:
                v.append("outcomes.json describes scenarios %s while %s are finished" % (sorted(map(str, got)), sorted(must)))
            if o.outcomes is not None:
                sums = {scen_index(lab, x): x["summary"] for x in o.outcomes["outcomes"]}
                for i in got:
                    if i is not None and i >= 0 and sums[i] != summary_of(codes[i], "--check" in args):
                        v.append("outcomes.json says %s for mutant %d" % (sums[i], i))
                if o.outcomes["total_mutants"] != len([i for i in got if i is not None and i >= 0]):
                    v.append("total_mutants is not the number of finished mutants")
            for s, f in LISTS.items():
                exp = sorted(lab.names[i] for i in got if i is not None and i >= 0 and summary_of(codes[i], "--check" in args) == s)
                if sorted(o.lines(f)) != exp:
                    v.append("%s holds %r while outcomes.json says %r" % (f, o.lines(f), exp))
                ls, rest = whole(o.lists[f])
                if ls[:len(prev_lines.get(f, []))] != prev_lines.get(f, []):
                    v.append("a recorded line of %s changed" % f)
                prev_lines[f] = ls
            if got - {-1}:
                nontriv.append(h((case["codes"], sorted(map(str, got)), c.phase)))
        if case.get("probe"):
            more = [dict(case, probe=False, fault="%d:kill" % k, at=[op, canon_path(p)]) for k, _t, op, p in log_ops(res)]
            for c in res.children:
                for w in (1, 2):
                    if w <= c.waits:
                        more.append(dict(case, probe=False, killw=[c.seq, w]))
            return dict(viol=v, more=more, states=run_states(lab, res), transitions=len(res.events), extra=dict(kill_points=len(more)))
        if case["kind"] == "obs":
            if not schedule_ok(res):
                v.append("run did not end")
            return dict(viol=v, states=run_states(lab, res), transitions=len(res.events), nontrivial=nontriv, more=sched_more(case, res) if not v else [],
                        sample=dict(case=case, observed=describe(lab, res)))
        # after a kill
        out = lab.out()
        # which directory is this run's?
        if case.get("prev") and "zz" in (out.lists["caught.txt"] or ""):
            # not yet rotated: untouched
            if out.lists["caught.txt"] != "src/lib.rs:9:9: replace zz with ()\n":
                v.append("previous caught.txt was altered")
        else:
            fin = really_finished(lab, res, codes)
            for s, f in LISTS.items():
                ok = [lab.names[i] for i in fin if i >= 0 and summary_of(codes[i]) == s]
                ls, rest = whole(out.lists[f])
                for ln in ls:
                    if ln not in ok:
                        v.append("after a kill, %s lists %r, which did not finish so" % (f, ln))
                if len(set(ls)) != len(ls):
                    v.append("after a kill, %s lists a mutant twice" % f)
                if rest and rest not in ok:
                    v.append("after a kill, %s ends in the partial line %r" % (f, rest))
                pl = prev_lines.get(f, [])
                if ls[:len(pl)] != pl:
                    v.append("after a kill, lines recorded earlier in %s are gone" % f)
        hit = res.code == -9
        return dict(viol=v, states=[h((case.get("at"), case.get("killw"), sorted(map(str, really_finished(lab, res, codes)))))], transitions=len(res.events),
                    nontrivial=[h(case)] if hit else [], sample=dict(case=case, exit=res.code, lists={k: x for k, x in out.lists.items()}))


CHECK = C()
