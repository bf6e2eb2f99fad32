from faults import *

# Source variants: an edit between two runs shifts or renames mutants.
NAMES = ["a", "b", "c"]


def source(v):
    t = {"v0": fn_src(NAMES), "v1": "// edited\n" + fn_src(NAMES), "v3": "pub fn fo() {\n    q(X + X, !Y);\n}\n#[mutants::skip]\nfn q(_: i32, _: bool) {}\npub const X: i32 = 3;\npub const Y: bool = true;\n",
         "v2": fn_src(["a", "b", "c"]) + "pub const X: bool = true;\npub fn d() -> bool {\n    X\n}\n"}[v]
    return {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": t}


OTHERS = {"lock.json": "{}", "mutants.json": "[]", "outcomes.json": "{}", "debug.log": "x", "log/baseline.log": "x"}
STATE_FILES = ("caught.txt", "unviable.txt", "previously_caught.txt", "missed.txt", "timeout.txt")


def ops(tier):
    """Alphabet of one step: (mode, selection, outcome per function, ending)."""
    r = []
    for mode in ("it", "plain"):
        for sel, vec in (("all", "CMU"), ("all", "MCT"), ("a", "C"), ("notb", "UM")):
            r.append(dict(mode=mode, sel=sel, vec=vec, end="ok"))
    for end in ("kill1", "kill2", "int1", "int2", "base", "err", "kill0", "int0"):
        r.append(dict(mode="it", sel="all", vec="CUC", end=end))
    r += [dict(mode="it", sel="all", vec="UCM", end="ok", j=2), dict(mode="it", sel="shard0", vec="CC", end="ok"), dict(mode="it", sel="all", vec="CMU", end="inplace"),
          dict(mode="plain", sel="all", vec="CUC", end="kill1"), dict(mode="it", sel="file", vec="CMU", end="ok"), dict(mode="it", sel="all", vec="CMU", end="check"), dict(mode="it", sel="all", vec="CMU", end="out")]
    if tier == "thorough":
        have = [json.dumps(x, sort_keys=True) for x in r]
        for vec in codes_all("CMUT", 3):
            x = dict(mode="it", sel="all", vec=vec, end="ok")
            if json.dumps(x, sort_keys=True) not in have:
                r.append(x)
        r += [dict(mode="it", sel="a", vec=c, end=e) for c in "MUT" for e in ("ok", "kill1")]
    return r


LAST = (0, 1, 2, 4, 8, 13)     # steps taken from the states of the last level but one


SEL = {"all": [], "a": ["-F", "replace a "], "notb": ["-E", "replace b "], "shard0": ["--shard=0/2"], "file": ["-f", "src/lib.rs"]}


# how the name of another mutant may differ from that of a present one
NEAR = {
    "fn longer": lambda n: n + "o" if n[-1].isalpha() else n.replace(" with", "x with"),
    "fn shorter": lambda n: n[:-1] if n[-1].isalpha() else None,
    "fn path": lambda n: n.replace(" in fo", " in a::fo") if " in " in n else n.replace("replace ", "replace m::"),
    "line longer": lambda n: n.replace(".rs:", ".rs:1"),
    "line other": lambda n: re.sub(r"rs:(\d+)", lambda m: "rs:%d" % (int(m[1]) + 1), n),
    "column longer": lambda n: re.sub(r":(\d+): ", r":\g<1>1: ", n),
    "column other": lambda n: re.sub(r":(\d+): ", r":2\g<1>: ", n),
    "file in dir": lambda n: "sub/" + n,
    "file suffix": lambda n: n.replace("src/lib.rs", "src/lib.rs.rs"),
    "file case": lambda n: n.replace("src/lib", "src/Lib"),
    "fn case": lambda n: n.replace(" fo", " FO").replace("replace a", "replace A"),
    "value": lambda n: n.replace("with ()", "with (())").replace("with -", "with -=").replace("with *", "with *="),
    "no position": lambda n: re.sub(r":\d+:\d+", "", n),
    "no column": lambda n: re.sub(r":(\d+):\d+", r":\1", n),
}


class C(Check):
    id = "C12"
    level = "model_checking"
    rule = ("breadth-first exploration of all histories of runs up to the depth: from every distinct record (contents of the result lists) every step of the alphabet (iterating or not, filters, "
            "shards, outcomes, killed or interrupted while testing, failing baseline, failing I/O, source edited) is executed by the real tool and compared with the reference set; "
            "non-trivial when the record was not empty or the run ended early")
    assumptions = ["the tool reads nothing of an earlier run but the result lists (states are merged by their contents) and whether the other files of mutants.out are there"]

    def bounds_for(self, tier):
        return dict(depth=3 if tier == "quick" else 5, alphabet=len(ops(tier)) * 3, source_versions=3, mutants=[3, 4], near_names=len(NEAR))

    def cases(self, tier):
        self.depth = 3 if tier == "quick" else 5
        for o in ops(tier):
            yield dict(state=None, src="v0", op=o, depth=1)
        # records of other mutants whose names resemble the present ones, as earlier versions of the source leave them
        for near in NEAR:
            for f in ("caught.txt", "unviable.txt", "previously_caught.txt"):
                for src in ("v0", "v3"):
                    yield dict(state=None, src=src, op=dict(mode="it", sel="all", vec="CMU", end="ok"), depth=99, near=near, into=f)

    def dedup(self, case):
        if case.get("chain") or case.get("near"):
            return None
        return h((case["state"], case["src"], case["op"]))

    def run_case(self, R, case):
        op, st = case["op"], case["state"]
        end = op["end"]
        lab = Lab(R, source(case["src"]))
        all_m = lab.load()
        all_names = list(lab.names)
        if case.get("near"):
            st = {case["into"]: "".join(x + "\n" for x in map(NEAR[case["near"]], all_names) if x and x not in all_names)}
        # where the results go; a record in another place must play no part
        od = lab.root if end != "out" else os.path.join(lab.case, "od")
        if end == "out":
            os.mkdir(od)
            write_tree(os.path.join(lab.root, "mutants.out"), {f: "".join(n + "\n" for n in all_names) for f in ("caught.txt", "unviable.txt", "previously_caught.txt")})
        if st is not None:
            # everything else an earlier run leaves behind
            write_tree(os.path.join(od, "mutants.out"), dict({k: x for k, x in st.items() if k != "others"}, **{k: x for k, x in OTHERS.items() if "others" not in st or k in st["others"]}))
            # an older record must play no part
            write_tree(os.path.join(od, "mutants.out.old"), {f: "".join(n + "\n" for n in all_names) for f in ("caught.txt", "unviable.txt", "previously_caught.txt")})
        iterate = op["mode"] == "it"
        rec = []
        if iterate and st is not None:
            for f in ("caught.txt", "unviable.txt", "previously_caught.txt"):
                rec += st.get(f, "").splitlines()
        sel_idx = [i for i, n in enumerate(all_names) if {"all": True, "file": True, "a": "replace a " in n, "notb": "replace b " not in n, "shard0": True}[op["sel"]]]
        sel_idx = [i for i in sel_idx if all_names[i] not in rec]
        if op["sel"] == "shard0":
            sel_idx = sel_idx[0::2]
        code_of = {}
        # outcome of a mutant by its function, so that it is the same in every version of the source
        vec = op["vec"]
        for i, m in enumerate(all_m):
            fn = m["function"]["function_name"]
            code_of[i] = vec[("abcdfo".index(fn) + (m["replacement"] == "false")) % len(vec)]
        codes = [code_of[i] for i in range(len(all_m))]
        args = ["--no-shuffle", "--no-times", "--timeout=30", "--build-timeout=30"] + SEL[op["sel"]] + (["--iterate"] if iterate else [])
        if end == "out":
            args.append("--output=" + od)
        check = end == "check"
        if op.get("j"):
            args.append("-j%d" % op["j"])
        if end == "inplace":
            args.append("--in-place")
        if check:
            args.append("--check")
        base = "C" if end == "base" else "M"
        on_wait = None
        if end.startswith(("kill", "int")):
            n = int(end[-1])
            done = {}

            def on_wait(c, res):
                w = lab.guess(c)
                if n == 0:      # while the baseline is built
                    return end[:-1]
                if w < 0:
                    return None
                done.setdefault(w, len(done))
                if done[w] == n and c.phase == "test":
                    return end[:-1]
                return None
        fault = None
        more_plan = None
        if end == "err":   # the second mutant's cargo cannot be waited for: the list file is full
            pass
        # what listing says beforehand
        lr = R.simple(lab.case, lab.root, ["--list"] + SEL[op["sel"]] + (["--iterate"] if iterate else []) + (["--output=" + od] if end == "out" else []))
        listed = [x for x in lr.out.splitlines()]
        v = []
        want = [all_names[i] for i in sel_idx]
        if lr.code != 0 or listed != want:
            v.append("--list%s shows %s instead of %s" % (" --iterate" if iterate else "", listed, want))
        if end == "err":
            # fail the write of a result: find the operation in a dry run of the same step is costly; a read-only log directory does it
            fault = case.get("fault")
        res = R.run(lab.case, lab.root, args, lab.policy(codes, base), on_wait=on_wait, fault=fault, sched=[] if op.get("j") else None, wall=20)
        # which mutants were tested
        by = by_scenario(lab, res)
        tested = sorted(i for i in by if i >= 0)
        fin = [i for i in tested if [c.phase for c in by[i]] == expected_phases(codes[i], check) and all(c.ended or (c.killed_at is not None and codes[i] in "TB") for c in by[i])]
        ended_early = any(e[1] in ("int", "toolkill") for e in res.events) or delivered(res)
        if res.hung:
            v.append("hangs")
        elif base != "M":
            if tested:
                v.append("mutants tested although the baseline fails")
        elif not ended_early:
            if tested != sorted(sel_idx):
                v.append("tests %s, but the selected mutants not recorded as caught or unviable are %s" % ([all_names[i] for i in tested], want))
        else:
            bad = [all_names[i] for i in tested if i not in sel_idx]
            if bad:
                v.append("tests %s, which are recorded or not selected" % bad)
        # next state
        o = os.path.join(od, "mutants.out")
        ns = {}
        for f in STATE_FILES:
            p = os.path.join(o, f)
            if os.path.exists(p):
                ns[f] = open(p).read()
        ns["others"] = [x for x in OTHERS if os.path.exists(os.path.join(o, x))]
        got = []
        for f in ("caught.txt", "unviable.txt", "previously_caught.txt"):
            got += ns.get(f, "").splitlines()
        new = {all_names[i] for i in fin if summary_of(codes[i], check) in ("CaughtMutant", "Unviable")}
        exp = set(rec) | new
        if set(got) != exp:
            v.append("after the run the record is %s, expected %s" % (sorted(set(got)), sorted(exp)))
        if not iterate and "previously_caught.txt" in ns:
            v.append("a run without --iterate leaves a previously_caught.txt")
        more = []
        if end == "err" and not case.get("fault"):
            for k, _t, opn, p in log_ops(res):
                # any failing write after testing has begun
                if p.endswith(("/caught.txt", "/unviable.txt", "/missed.txt")) and opn == "write":
                    more.append(dict(case, fault="%d:err=28" % k, at=[opn, canon_path(p)], chain=True))
                if opn == "spawn" and tested:
                    more.append(dict(case, fault="%d:err=12" % k, at=[opn, "cargo"], chain=True))
        if case.get("fault"):
            # the list write itself failed: the record may lack that one mutant
            if set(got) != exp and set(got) <= exp and set(rec) <= set(got) and len(exp - set(got)) <= 1:
                v = [x for x in v if not x.startswith("after the run the record")]
        if case["depth"] < self_depth(self) and not v:
            last = case["depth"] + 1 == self_depth(self)
            for src in ("v0", "v1") if last else ("v0", "v1", "v2"):
                for k, nop in enumerate(ops(self.tier)):
                    if last and self.tier == "quick" and k not in LAST:
                        continue
                    more.append(dict(state=ns, src=src, op=nop, depth=case["depth"] + 1))
        return dict(viol=v, more=more, states=[h((ns.get("caught.txt"), ns.get("unviable.txt"), ns.get("previously_caught.txt"), ns["others"], case["src"]))], transitions=1,
                    nontrivial=[h((st, case["src"], op))] if rec or ended_early else [], sample=dict(op=op, src=case["src"], record_before=sorted(rec), tested=[all_names[i] for i in tested], exit=res.code))


def self_depth(c):
    return 3 if c.tier == "quick" else 5


CHECK = C()
