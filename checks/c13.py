import fcntl, threading
from faults import *


PREV = {
    "none": None,
    "full": {"caught.txt": "src/lib.rs:1:1: x\n", "missed.txt": "", "unviable.txt": "", "timeout.txt": "", "outcomes.json": "{}\n", "mutants.json": "[]\n", "lock.json": "{}",
             "debug.log": "log\n", "log/baseline.log": "b\n", "diff/a.diff": "d\n"},
    "empty": {".": DIR},
    "odd": {"note.txt": "mine\n", "log/deep/er/x": "1", "link": Link("note.txt"), "run": Exec("#!"), "caught.txt": "zz\n", "dangling": Link("nowhere"), "sub": DIR},
}
FRESH = {"lock.json", "log", "diff", "caught.txt", "missed.txt", "timeout.txt", "unviable.txt", "debug.log", "mutants.json", "outcomes.json", "previously_caught.txt"}


def put(d, spec):
    if spec is None:
        return
    os.makedirs(d, exist_ok=True)
    write_tree(d, {k: v for k, v in spec.items() if k != "."})


def view(d):
    """Snapshot without the lock file, None if there is no such directory."""
    if not os.path.isdir(d):
        return None
    return {k: v for k, v in snapshot(d, skip_top=()).items() if k != "lock.json"}


class C(Check):
    id = "C13"
    level = "model_checking"
    rule = ("all combinations of earlier mutants.out and mutants.out.old, place of output (default, option, environment, config) and kind of command; all histories of commands up to depth 3; "
            "a kill and an error at every operation of the start of a run; a second invocation started at every cargo run of a first one that holds the lock; "
            "non-trivial when there was something to rotate, leave alone or wait for")
    assumptions = ["the first invocation already holds the lock when the second one starts (upstream issue 402: the lock is given up while rotating)"]

    def bounds_for(self, tier):
        return dict(history_depth=3, previous=sorted(PREV), faults_per_run=1)

    def cases(self, tier):
        A = ["--timeout=30", "--build-timeout=30"]
        for p in PREV:
            for q in PREV:
                for how in ("run", "iterate", "base", "list", "listfiles", "listjson", "usage", "nomut", "check", "inplace", "listiter", "listdiff", "listfilesjson"):
                    yield dict(kind="rot", prev=p, old=q, how=how, place="default")
                for place in ("cli", "env", "config", "cli+env", "cli+config", "env+config", "cli+env+config", "clinew"):
                    for how in ("run", "list", "listiter", "iterate"):
                        yield dict(kind="rot", prev=p, old=q, how=how, place=place)
        al = ["runC", "runM", "iter", "list", "out2", "fail", "usage", "killed"]
        for d in (2, 3):
            for hs in itertools.product(al, repeat=d):
                if tier == "quick" and d == 3 and (hs[0] in ("list", "usage") or hs[2] in ("usage",) or hs[1] == hs[2]):
                    continue
                yield dict(kind="hist", hist=list(hs))
        for p in ("full", "odd"):
            for q in ("none", "odd"):
                for how in ("run", "iterate"):
                    yield dict(kind="crash", prev=p, old=q, how=how, place="default", probe=True)
        for how in ("run", "iterate", "base", "check", "inplace"):
            for p in ("full", "odd"):
                for q in ("none", "odd"):
                    yield dict(kind="lock", prev=p, old=q, how=how)
        for n in range(0, 6):
            for how in ("run", "iterate", "list"):
                yield dict(kind="two", at=n, how=how)
        yield dict(kind="lockint", prev="full")

    def run_case(self, R, case):
        return getattr(self, "do_" + case["kind"])(R, case)

    def lab(self, R):
        lab = Lab(R, tree_files("2"))
        lab.load()
        return lab

    def args(self, how):
        A = ["--no-shuffle", "--no-times", "--timeout=30"]
        return A + {"run": [], "iterate": ["--iterate"], "base": [], "list": ["--list"], "listfiles": ["--list-files"], "listjson": ["--list", "--json", "--diff"], "usage": ["--shard=9/3"],
                    "nomut": ["-F", "no such name"], "check": ["--check"], "inplace": ["--in-place"], "listiter": ["--list", "--iterate"], "listdiff": ["--list", "--diff", "--shard=0/2"],
                    "listfilesjson": ["--list-files", "--json", "--iterate"]}[how]

    def do_rot(self, R, case):
        lab = self.lab(R)
        how, place = case["how"], case["place"]
        dirs = {"default": lab.root, "cli": os.path.join(lab.case, "o1"), "env": os.path.join(lab.case, "o2"), "config": os.path.join(lab.case, "o3"), "clinew": os.path.join(lab.case, "o4")}
        env, extra = {}, []
        for k in ("cli", "env", "config"):
            os.makedirs(dirs[k])
        if "config" in place:
            write_tree(lab.root, {".cargo/mutants.toml": 'output = "%s"\n' % dirs["config"]})
        if "env" in place:
            env["CARGO_MUTANTS_OUTPUT"] = dirs["env"]
        if "cli" in place:
            extra = ["--output", dirs["clinew" if place == "clinew" else "cli"]]
        chosen = place.split("+")[0]
        for k, d in dirs.items():
            if k == "clinew":
                continue
            put(os.path.join(d, "mutants.out"), PREV[case["prev"]])
            put(os.path.join(d, "mutants.out.old"), PREV[case["old"]])
        before = {k: (view(os.path.join(d, "mutants.out")), view(os.path.join(d, "mutants.out.old"))) for k, d in dirs.items()}
        res = lab.run(self.args(how) + extra, "CM", base="C" if how == "base" else "M", env=env, wall=20)
        v = []
        for k, d in dirs.items():
            now = (view(os.path.join(d, "mutants.out")), view(os.path.join(d, "mutants.out.old")))
            if k != chosen or how.startswith("list") or how == "usage":
                if now != before[k]:
                    v.append("%s with output at %s: %s output directories changed" % (how, place, k))
                continue
            if now[0] is None:
                v.append("no mutants.out in the place chosen (%s)" % k)
                continue
            foreign = {x.split("/")[0] for x in now[0]} - FRESH
            if foreign:
                v.append("fresh mutants.out holds %s" % sorted(foreign))
            logs = [x for x in now[0] if x.startswith(("log/", "diff/"))]
            if any("deep" in x or x == "diff/a.diff" for x in logs):
                v.append("fresh mutants.out holds old logs")
            if "caught.txt" in now[0] and ("zz" in now[0]["caught.txt"][2].decode() or "1:1: x" in now[0]["caught.txt"][2].decode()):
                v.append("fresh caught.txt holds old lines")
            if before[k][0] is not None:
                if now[1] != before[k][0]:
                    v.append("mutants.out.old is not the previous mutants.out: %s" % "; ".join(diff_snap(before[k][0], now[1] or {}))[:300])
            elif now[1] != before[k][1]:
                v.append("mutants.out.old changed although there was no mutants.out")
        if (how.startswith("list") or how == "usage") and os.path.lexists(dirs["clinew"]):
            v.append("%s creates the directory named by --output" % how)
        exp = {"base": 4, "usage": 1, "list": 0, "listfiles": 0, "listjson": 0, "listiter": 0, "listdiff": 0, "listfilesjson": 0, "nomut": 0, "check": 0}.get(how, 2)
        if res.code != exp:
            v.append("exit %s, expected %s: %s" % (res.code, exp, res.err[-200:]))
        return dict(viol=v, states=[h((case["prev"], case["old"], how, place))], transitions=1, nontrivial=[h(case)], sample=dict(case=case, exit=res.code))

    def do_hist(self, R, case):
        lab = self.lab(R)
        cur = {}   # dir -> (current, old) views
        other = os.path.join(lab.case, "o1")
        os.makedirs(other)
        v = []
        st = []
        for i, op in enumerate(case["hist"]):
            dirs = {"d": lab.root, "o": other}
            before = {k: (view(os.path.join(d, "mutants.out")), view(os.path.join(d, "mutants.out.old"))) for k, d in dirs.items()}
            args = self.args({"iter": "iterate", "list": "list", "usage": "usage"}.get(op, "run"))
            if op == "out2":
                args += ["--output", other]
            on_wait = (lambda c, r: "kill" if lab.guess(c) == 1 else None) if op == "killed" else None
            res = lab.run(args, {"runC": "CC", "runM": "MM"}.get(op, "CU"), base="U" if op == "fail" else "M", on_wait=on_wait, wall=20)
            for k, d in dirs.items():
                now = (view(os.path.join(d, "mutants.out")), view(os.path.join(d, "mutants.out.old")))
                touched = k == ("o" if op == "out2" else "d") and op not in ("list", "usage")
                if not touched:
                    if now != before[k]:
                        v.append("step %d (%s) changed output directories it should not" % (i, op))
                else:
                    if before[k][0] is not None and now[1] != before[k][0]:
                        v.append("step %d (%s): mutants.out.old is not the previous mutants.out: %s" % (i, op, "; ".join(diff_snap(before[k][0], now[1] or {}))[:300]))
                    if before[k][0] is None and now[1] != before[k][1]:
                        v.append("step %d (%s): mutants.out.old changed" % (i, op))
                    if now[0] is None:
                        v.append("step %d (%s): no mutants.out" % (i, op))
                    else:
                        n_logs = len([x for x in now[0] if x.startswith("log/") and x != "log"])
                        scen = len({lab.guess(c) for c in res.children})
                        if n_logs != scen:
                            v.append("step %d (%s): %d logs for %d scenarios" % (i, op, n_logs, scen))
                        if "previously_caught.txt" in now[0] and op != "iter":
                            v.append("step %d (%s): previously_caught.txt without --iterate" % (i, op))
            st.append(h((case["hist"][:i + 1],)))
        return dict(viol=v, states=st, transitions=len(case["hist"]), nontrivial=[h(case)], sample=dict(case=case))

    def do_crash(self, R, case):
        lab = self.lab(R)
        o, old = os.path.join(lab.root, "mutants.out"), os.path.join(lab.root, "mutants.out.old")
        put(o, PREV[case["prev"]])
        put(old, PREV[case["old"]])
        b, bo = view(o), view(old)
        res = lab.run(self.args(case["how"]), "CM", fault=case.get("fault"), reads=True, wall=20)
        v = []
        if not case.get("probe"):
            n, no = view(o), view(old)
            if n != b and no != b:
                v.append("%s: the results of the previous run are neither in mutants.out nor in mutants.out.old" % label(case))
        more = fault_cases(case, res, ("err", "kill"), ("EIO",), waits=0) if case.get("probe") else []
        return dict(viol=v, more=more, states=[h((case.get("at"), res.code))], transitions=1, nontrivial=[h(case)] if delivered(res) else [], sample=dict(case=case, exit=res.code))

    def do_lock(self, R, case):
        """Somebody holds the lock: nothing changes until it is released."""
        lab = self.lab(R)
        o, old = os.path.join(lab.root, "mutants.out"), os.path.join(lab.root, "mutants.out.old")
        put(o, PREV[case["prev"]])
        put(old, PREV[case["old"]])
        open(os.path.join(o, "lock.json"), "a").close()
        f = open(os.path.join(o, "lock.json"), "r+")
        fcntl.flock(f, fcntl.LOCK_EX)
        before = (snapshot(lab.root, skip_top=()),)
        out = {}

        def go():
            out["res"] = lab.run(self.args(case["how"]), "CM", base="C" if case["how"] == "base" else "M", clock=False, wall=25)
        th = threading.Thread(target=go)
        th.start()
        v = []
        time.sleep(0.35)
        if not th.is_alive():
            v.append("run did not wait for the lock (exit %s)" % out["res"].code)
        now = (snapshot(lab.root, skip_top=()),)
        if now != before:
            v.append("changed while another invocation holds the lock: %s" % diff_snap(before[0], now[0])[0][:300])
        f.close()
        th.join()
        res = out["res"]
        exp = {"base": 4, "check": 0}.get(case["how"], 2)
        if res.code != exp or res.hung:
            v.append("after the lock was released: exit %s, expected %s %s" % (res.code, exp, res.err[-300:]))
        return dict(viol=v, states=[h(case)], transitions=2, nontrivial=[h(case)], sample=dict(case=case, exit=res.code))

    def do_lockint(self, R, case):
        lab = self.lab(R)
        o = os.path.join(lab.root, "mutants.out")
        put(o, PREV[case["prev"]])
        f = open(os.path.join(o, "lock.json"), "r+")
        fcntl.flock(f, fcntl.LOCK_EX)
        before = snapshot(lab.root, skip_top=())
        t0 = [time.monotonic()]
        sent = []

        def tick(res):
            if not sent and time.monotonic() - t0[0] > 0.3:
                sent.append(1)
                os.kill(res.proc.pid, signal.SIGINT)
        res = lab.run(self.args("run"), "CM", clock=False, wall=10, on_tick=tick, tick=0.1)
        v = []
        if res.hung or res.code == 0:
            v.append("interrupt while waiting for the lock: exit %s hung %s" % (res.code, res.hung))
        if snapshot(lab.root, skip_top=()) != before:
            v.append("interrupted while waiting for the lock, but something changed")
        f.close()
        return dict(viol=v, states=[h(case)], transitions=1, nontrivial=[h(case)], sample=dict(case=case, exit=res.code))

    def do_two(self, R, case):
        """A second invocation starts while the first is at its n-th cargo run."""
        lab = self.lab(R)
        o, old = os.path.join(lab.root, "mutants.out"), os.path.join(lab.root, "mutants.out.old")
        put(old, PREV["odd"])
        v = []
        got = {}
        R2 = Runner(R.t, R.work + "-b")
        R2.nrun = 1000
        bpol = lab.policy("MM")

        def second():
            got["res"] = R2.run(lab.case, lab.root, self.args(case["how"]), bpol, env={"TMPDIR": os.path.join(lab.case, "tmp2")}, clock=False, wall=25)
        th = threading.Thread(target=second)
        st = {}

        def on_start(c, res):
            if c.seq == case["at"]:
                before = (snapshot(o, skip_top=("debug.log",)), snapshot(old, skip_top=()))
                os.makedirs(os.path.join(lab.case, "tmp2"), exist_ok=True)
                th.start()
                time.sleep(0.35)
                now = (snapshot(o, skip_top=("debug.log",)), snapshot(old, skip_top=()))
                st["at"] = 1
                if case["how"] != "list" and not th.is_alive():
                    v.append("the second invocation did not wait")
                if now != before:
                    v.append("the second invocation changed the first one's output: %s" % (diff_snap(before[0], now[0]) + diff_snap(before[1], now[1]))[0][:300])
        res = lab.run(self.args("run"), "CU", on_start=on_start, wall=30)
        if st:
            th.join()
        first = Out(old if case["how"] != "list" else o)
        if st:
            if res.code != 0:
                v.append("the first invocation exits %s: %s" % (res.code, res.err[-200:]))
            if case["how"] != "list":
                r2 = got["res"]
                w = 2
                if r2.code != w:
                    v.append("the second invocation exits %s, expected %s: %s" % (r2.code, w, r2.err[-200:]))
                if sorted(first.lines("caught.txt") + first.lines("unviable.txt")) != sorted(lab.names):
                    v.append("the first invocation's results are not in mutants.out.old: %r" % first.lists)
                second_o = Out(o)
                if case["how"] == "run" and sorted(second_o.lines("missed.txt")) != sorted(lab.names):
                    v.append("the second invocation's results are wrong: %r" % second_o.lists)
        return dict(viol=v, states=[h(case)], transitions=2, nontrivial=[h(case)] if st else [], sample=dict(case=case, exit=res.code))


CHECK = C()
