"""Whole-run cases shared by the checks of the run-level properties."""
import itertools, resource
from explore import *
from harness import Check, h

TREES = {
    "1": {"src/lib.rs": ["a"]},
    "2": {"src/lib.rs": ["a", "b"]},
    "11": {"src/lib.rs": ["a"], "src/m.rs": ["b"]},
    "3": {"src/lib.rs": ["a", "b", "c"]},
    "21": {"src/lib.rs": ["a", "b"], "src/m.rs": ["c"]},
    "4": {"src/lib.rs": ["a", "b", "c", "d"]},
    "66": {"src/lib.rs": ["a", "b", "c", "d", "e", "f"], "src/m.rs": ["g", "h", "i", "j", "k", "l"]},
    "256": {"src/lib.rs": ["f%d" % i for i in range(256)]},
    "257": {"src/lib.rs": ["f%d" % i for i in range(256)], "src/m.rs": ["m"]},
    "huge": {"src/lib.rs": ["f%d" % i for i in range(60)], "src/m.rs": ["g%d" % i for i in range(50)], "src/n.rs": ["k%d" % i for i in range(21)]},
    "big": {"src/lib.rs": ["f%d" % i for i in range(20)], "src/m.rs": ["g%d" % i for i in range(10)]},
    "22": {"src/lib.rs": ["a", "b"], "src/m.rs": ["c", "d"]},
}


def same_len(fn):
    body = len("() " + MARKER)
    return "pub fn %s() {\n    let _ = \"%s\";\n}\n" % (fn, "x" * (body - 11))


def tree_files(name):
    if name == "0":
        return {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "pub const X: i32 = 1;\n"}
    if name == "bool":   # two mutants at one place: log and diff names collide
        return {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "pub fn p() -> bool {\n    !X\n}\npub const X: bool = true;\n"}
    if name == "coll":   # names that collide only after cleaning
        return {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "mod a;\nmod a__b;\n",
                "src/a.rs": "pub mod b;\n", "src/a/b.rs": fn_src(["x"]), "src/a__b.rs": fn_src(["x"])}
    if name == "many":   # six mutants at one place
        return {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "pub fn p() -> (bool, i16) {\n    X\n}\npub const X: (bool, i16) = (true, 7);\n"}
    if name == "col1":   # mutants starting in column 1, and on line 1
        return {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "pub fn p() { q(X\n+ X,\n!Y) }\n#[mutants::skip]\nfn q(_: i32, _: bool) {}\npub const X: i32 = 3;\npub const Y: bool = true;\n"}
    if name == "names":  # names that are prefixes or parts of each other
        return {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "mod lib;\nmod a;\n" + fn_src(["f", "ff"]), "src/lib/mod.rs": "", "src/a.rs": "pub mod lib;\n" + fn_src(["f"]), "src/a/lib.rs": fn_src(["f"])}
    if name == "deeppath":   # paths too long to be the name of a log file, differing only where such a name would be cut off
        D, E = "d" * 50, "\u00e9" * 30
        fs = {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "mod p;\nmod q;\n"}
        for x in "pq":
            fs["src/%s.rs" % x] = "mod %s;\n" % D
            fs["src/%s/%s.rs" % (x, D)] = "mod %s;\n" % D
            fs["src/%s/%s/%s.rs" % (x, D, D)] = "mod %s;\n" % D
            fs["src/%s/%s/%s/%s.rs" % (x, D, D, D)] = "mod %s;\n" % E
            fs["src/%s/%s/%s/%s/%s.rs" % (x, D, D, D, E)] = fn_src(["f"]) if x == "p" else "mod %s;\n" % E
        fs["src/q/%s/%s/%s/%s/%s.rs" % (D, D, D, E, E)] = fn_src(["f"])
        return fs
    if name == "crlf":
        return {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": ("mod m;\n" + fn_src(["a"])).replace("\n", "\r\n"), "src/m.rs": "// x\r\n" + fn_src(["b"]) + "// y\r\n// no newline"}
    if name == "links":
        return {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "mod m;\nmod n;\n", "src/n.rs": fn_src(["n"]), "src/m.rs": Link("../other/m.rs"), "other/m.rs": fn_src(["b"]).replace("\n", "\r\n"), "x": Link("src")}
    if name == "rich":
        return {"Cargo.toml": cargo_toml("ws", '[dependencies]\ndep = { path = "../dep" }\n'), "src/lib.rs": "mod m;\n" + fn_src(["a"]), "src/m.rs": fn_src(["b"]), "data/x.txt": "x\n", "data/deep/y.txt": "y\n", "data/l": Link("x.txt"),
                "data/d": Link("deep"), "run.sh": Exec("#!/bin/sh\n"), "empty": DIR, "ro": ReadOnly("r"), ".cargo/config.toml": 'paths = ["../dep"]\n', ".cargo/mutants.toml": "timeout_multiplier = 4.0\n"}
    if name == "long":   # replaced text much longer than the replacement, and shorter
        return {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "pub fn a() {\n" + '    let _ = "a";\n' * 400 + "}\n\npub fn b() -> String {\n    X\n}\nconst X: u8 = 7;\n"}
    if name == "same":   # replaced text exactly as long as the replacement with its marker
        return {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "mod m;\n" + same_len("a"), "src/m.rs": same_len("b") + same_len("c")}
    return lab_files(TREES[name])


def start_run(R, case):
    """-> (lab, res, out). case: tree, codes, base, jobs, args, sched, pts, fault, dur ..."""
    lab = Lab(R, tree_files(case["tree"]))
    sel = case.get("sel", [])
    lab.load(sel)
    codes = case["codes"]
    if len(codes) != len(lab.mutants):
        raise ToolError("tree %s lists %d mutants, not %d: %s" % (case["tree"], len(lab.mutants), len(codes), lab.names))
    args = ["--no-shuffle", "--no-times"] + list(sel) + list(case.get("args", []))
    args = [a for i, a in enumerate(args) if a != "--no-times" or a not in args[:i]]
    if case.get("jobs"):
        args.append("-j%d" % case["jobs"])
    if case.get("base") == "skip":
        args.append("--baseline=skip")
    dur = None
    if case.get("dur"):
        dur = {(int(k.split("/")[0]), k.split("/")[1]): v for k, v in case["dur"].items()}
    tag = case.get("tag")
    res = lab.run(args, codes, base=case.get("base", "M") if case.get("base") != "skip" else "M", dur=dur,
                  more=(lambda c, w: dict(cmds=["out tag-%d-%s" % (c.seq, c.phase)])) if tag else None,
                  sched=case.get("sched"), pts=case.get("pts"), fault=case.get("fault"), env=case.get("env"),
                  reads=case.get("reads", False), wall=case.get("wall", 40), on_start=few_files(case["nofile"]) if case.get("nofile") else None)
    return lab, res, lab.out()


def few_files(n):
    """Allow the tool only n more open files than it has when its first cargo process is running."""
    def f(c, res):
        if c.seq == min(x.seq for x in res.children):
            d = res.proc.pid
            k = len(os.listdir("/proc/%d/fd" % d)) + n
            resource.prlimit(d, resource.RLIMIT_NOFILE, (k, k))
    return f


def codes_all(alphabet, n):
    return ["".join(x) for x in itertools.product(alphabet, repeat=n)]


def run_states(lab, res):
    """Abstract states of the run: at each event, (finished scenarios' phases, live children)."""
    st = []
    live, done = set(), []
    by = {c.seq: c for c in res.children}
    for e in res.events:
        if e[1] == "start":
            c = by.get(e[2])
            if c is not None:
                live.add((str(lab.who(c))[:20], c.phase))
        elif e[1] in ("end", "killed", "eof"):
            c = by.get(e[2])
            if c is not None:
                live.discard((str(lab.who(c))[:20], c.phase))
                done.append((str(lab.who(c))[:20], c.phase, str(c.ended)))
        st.append(h((sorted(live), sorted(done), e[1])))
    return st


def describe(lab, res):
    return dict(exit=res.code, children=[(str(lab.who(c))[:40], c.phase, str(c.ended)) for c in res.children][:20])


def schedule_ok(res):
    """The scheduler itself kept control (divergence is a machinery error, a deadlock is a verdict)."""
    if res.code == 77:
        raise CheckError("schedule diverged")
    return not res.hung and res.code != 78


def sched_more(case, res):
    """Schedules to explore next, below the one just executed."""
    if case.get("sched") is None:
        return []
    return [dict(case, sched=x) for x in children(case["sched"], res, case.get("pb", 0), depth=case.get("depth"))]


def overlaps(res):
    """[(set of live children)] after every event."""
    by = {c.seq: c for c in res.children}
    live, out = {}, []
    for e in res.events:
        if e[1] == "start" and e[2] in by:
            live[e[2]] = by[e[2]]
        elif e[1] in ("end", "killed", "eof") and e[2] in live:
            del live[e[2]]
        out.append(list(live.values()))
    return out
