from faults import *

MOD = 'pub fn b() {\n    let _ = "b";\n}\n'
LIB = "mod m;\n" + fn_src(["a"])
OTHER = {"other/keep.txt": "keep\n"}
CFG = 'paths = ["../dep", "other"]\n'


def shape(name):
    """(files of the tree, files beside it)"""
    f = {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": LIB, "src/m.rs": MOD, ".hidden": "h", "data/x.txt": "x\n"}
    ext = {"dep/Cargo.toml": cargo_toml("dep"), "dep/src/lib.rs": ""}
    dep = cargo_toml("ws", '[dependencies]\ndep = { path = "../dep" }\n[patch.crates-io]\nq = { path = "../dep" }\n')
    if name == "plain":
        pass
    elif name == "manifest":
        f["Cargo.toml"] = dep
        f[".cargo/config.toml"] = CFG
    elif name == "rel":
        f["src/m.rs"] = Link("../other/m.rs")
        f["other/m.rs"] = MOD
    elif name == "abs":
        f["src/m.rs"] = Link("@ROOT@/other/m.rs")
        f["other/m.rs"] = MOD
    elif name == "absout":
        f["src/m.rs"] = Link("@ROOT@/../ext/m.rs")
        ext["ext/m.rs"] = MOD
    elif name == "dirabs":
        del f["src/m.rs"]
        f["src/m"] = Link("@ROOT@/other/m")
        f["other/m/mod.rs"] = MOD
    elif name == "dirrel":
        del f["src/m.rs"]
        f["src/m"] = Link("../other/m")
        f["other/m/mod.rs"] = MOD
    elif name == "srcabs":
        for k in ("src/lib.rs", "src/m.rs"):
            f["real/" + k[4:]] = f.pop(k)
        f["src"] = Link("@ROOT@/real")
    elif name == "tomlabs":
        f["Cargo.toml"] = Link("@ROOT@/../ext/Cargo.toml")
        ext["ext/Cargo.toml"] = dep
    elif name == "cfgabs":
        f[".cargo/config.toml"] = Link("@ROOT@/other/config.toml")
        f["other/config.toml"] = CFG
    elif name == "cfgdirabs":
        f[".cargo"] = Link("@ROOT@/other/dotcargo")
        f["other/dotcargo/config.toml"] = CFG
    elif name == "chain":
        f["src/m.rs"] = Link("../other/l1")
        f["other/l1"] = Link("@ROOT@/other/m.rs")
        f["other/m.rs"] = MOD
    elif name == "odd":
        f.update({"dangling": Link("nowhere"), "loop": Link("loop"), "abslink": Link("@ROOT@/data/x.txt"), "dirlink": Link("@ROOT@/data"), "ro.txt": ReadOnly("ro"),
                  "run.sh": Exec("#!/bin/sh\n"), "empty": DIR, "target/old": "t", "a b/\u00e9.txt": "u"})
    elif name == "names":    # names like those of the tool's own files
        for d in ("mutants.out.tmp", "mutants.out.1", "mutants.out.bak", "mutants.out2", "mutants", "mutants.old", "mutants.out.old.old", "mutants.out~", "target", "tmp", "cargo-mutants", "x/mutants.out",
                  "x/mutants.out.old", "cargo-mutants-ws-abc.tmp"):
            f[d + "/f"] = "mine\n"
        f.update({"mutants.json": "m", "caught.txt": "c", "lock.json": "l", "Cargo.lock": "# lock\n", ".cargo/mutants.toml": "\n", "src/lib.rs.orig": "o", "src/m.rs.bak": "b", "src/m.rs.tmp": "t", "src/.m.rs.swp": "s",
                  ".git/HEAD": "ref: refs/heads/main\n", ".git/config": "[core]\n", ".gitignore": "target\n", ".mutants.out": "f"})
    elif name == "ro":
        f["src/m.rs"] = ReadOnly(MOD)
        f["src/lib.rs"] = ReadOnly(LIB)
        f["Cargo.toml"] = ReadOnly(dep)
    elif name == "crlf":
        f["src/m.rs"] = MOD.replace("\n", "\r\n")
    elif name == "big":
        f["src/lib.rs"] = LIB + "// padding\n" * 12000
        f["src/m.rs"] = MOD + "/* padding */\n" * 300000
        f["data/4k"] = "x" * 4096
        f["data/64k"] = "x" * 65537
    elif name == "oldlink":      # the older output directory was moved elsewhere and linked to
        f["mutants.out/caught.txt"] = "x\n"
        f["mutants.out/lock.json"] = "{}"
        f["mutants.out.old"] = Link("@ROOT@/../ext/archive")
        ext["ext/archive/mine.txt"] = "mine\n"
        ext["ext/archive/d/mine2.txt"] = "mine\n"
    elif name == "outdata":      # links inside the output directories
        f.update({"mutants.out/lock.json": "{}", "mutants.out/diff": Link("@ROOT@/../ext/data"), "mutants.out/caught.txt": Link("@ROOT@/other/keep.txt"), "other/keep.txt": "keep\n",
                  "mutants.out.old/log": Link("@ROOT@/../ext/data"), "mutants.out.old/lock.json": Link("../other/keep.txt")})
        ext["ext/data/mine.txt"] = "mine\n"
    elif name == "hard":
        f["src/m2.txt"] = ("HARD", "src/m.rs")
    return f, ext


SHAPES = ["plain", "manifest", "rel", "abs", "absout", "dirabs", "dirrel", "srcabs", "tomlabs", "cfgabs", "cfgdirabs", "chain", "odd", "names", "ro", "crlf", "hard", "big", "oldlink", "outdata"]
WRITES = ("write", "open_trunc", "open_create", "open_write", "mkdir", "unlink", "rmdir", "rename", "symlink", "link", "fchmod", "chmod", "copy", "truncate", "ftruncate", "utimens")


def outside_view(case_dir):
    """Everything of the user's: the tree and its surroundings, except the output directories, our own files and TMPDIR."""
    return {k: v for k, v in snapshot(case_dir, skip_top=("fc", "home", "tmp", "o")).items()
            if not k.startswith(("ws/mutants.out/", "ws/mutants.out.old/")) and k not in ("ws/mutants.out", "ws/mutants.out.old")
            and not re.match(r"(log|out|err|s)\d+$", k)}


class C(Check):
    id = "C01"
    level = "fault_enumeration"
    rule = ("each shape of tree (20: plain, symlinks of every kind, manifests to be fixed, read-only, hard links, large files, CRLF ...) with several outcome vectors, and for the main shapes every "
            "single error, kill and interrupt at every intercepted operation and wait; the tree and its surroundings are compared at every cargo start and at the end")
    assumptions = ["cargo itself (here a stand-in) writes nothing outside its directory", "modification times are not part of the comparison"]

    def bounds_for(self, tier):
        return dict(shapes=SHAPES, faults_per_run=1, jobs=[1, 2])

    def cases(self, tier):
        A = ["--timeout=30", "--build-timeout=30"]
        for s in SHAPES:
            for codes in codes_all("CMUT", 2) if tier == "thorough" else ("CM", "UT", "BC"):
                yield dict(shape=s, codes=codes, args=A)
            for a in (["-j2"], ["--leak-dirs"], ["--check"], ["--baseline=skip"], ["--output=@OUT@"], ["--list", "--json", "--diff"], ["--list-files"], ["--iterate"],
                      ["--gitignore=false", "--copy-vcs=true"], ["--in-diff=/dev/null"], ["-d@ROOT@/src"]):
                yield dict(shape=s, codes="CM", args=A + a)
            yield dict(shape=s, codes="CM", args=A, base="C")
            yield dict(shape=s, codes="CM", args=A, base="U")
        roots = [("plain", "CM", []), ("abs", "MC", []), ("manifest", "UC", []), ("odd", "M", ["--leak-dirs"])]
        if tier == "thorough":
            roots = [(s, c, a) for s in SHAPES for c in ("CM", "UT") for a in ([], ["-j2"], ["--leak-dirs"])]
        for s, codes, a in roots:
            yield dict(shape=s, codes=codes, args=A + a, probe=True)
        yield dict(shape="plain", codes="CM", args=A + ["-j2"], sched=[], probe=True)

    def run_case(self, R, case):
        files, ext = shape(case["shape"])
        hard = {k: v[1] for k, v in files.items() if isinstance(v, tuple)}
        lab = Lab(R, {k: v for k, v in files.items() if not isinstance(v, tuple)})
        write_tree(lab.case, ext)
        for k, t in hard.items():
            os.link(os.path.join(lab.root, t), os.path.join(lab.root, k))
        args = [a.replace("@OUT@", os.path.join(lab.case, "o")).replace("@ROOT@", lab.root) for a in case["args"]]
        os.makedirs(os.path.join(lab.case, "o"), exist_ok=True)
        before = outside_view(lab.case)
        before_out = [n for n in ("mutants.out", "mutants.out.old") if os.path.lexists(os.path.join(lab.root, n))]
        seen = []

        def on_start(c, res):
            d = diff_snap(before, outside_view(lab.case))
            if d:
                seen.append("while cargo %s runs: %s" % (c.phase, "; ".join(d)[:400]))
        res = R.run(lab.case, lab.root, ["--no-shuffle", "--no-times"] + args, plan_by_order(case["codes"], case.get("base", "M")), on_start=on_start,
                    sched=case.get("sched"), fault=case.get("fault"), on_wait=on_wait_for(case), wall=20)
        v = list(seen[:1])
        lb = "%s, %s" % (case["shape"], label(case))
        d = diff_snap(before, outside_view(lab.case))
        if d:
            v.append("%s: the user's tree is changed: %s" % (lb, "; ".join(d)[:500]))
        if "--output=@OUT@" in case["args"] or any(a.startswith("--list") for a in case["args"]):
            for n in ("mutants.out", "mutants.out.old"):
                if n not in before_out and os.path.lexists(os.path.join(lab.root, n)):
                    v.append("%s: %s created in the source tree" % (lb, n))
        for k, _t, op, p in log_ops(res):
            if op in WRITES and p.startswith("R/") and not p.startswith(("R/mutants.out/", "R/mutants.out.old/")) and p not in ("R/mutants.out", "R/mutants.out.old") and \
                    op != "open_read":
                v.append("%s: %s of %s" % (lb, op, p))
                break
        more = []
        if case.get("probe"):
            more = fault_cases(case, res, ("err", "kill", "int"), ("EIO",) if self.tier == "quick" else ("EIO", "ENOSPC", "ENOENT"))
        return dict(viol=v, more=more, states=[h((case["shape"], case["codes"], case.get("at"), res.code))], transitions=len(res.events),
                    nontrivial=[h(case)] if len(res.children) > 0 else [], sample=dict(case=case, exit=res.code, cargo_runs=len(res.children)))


CHECK = C()
