from runs import *
import itertools, json


def P(name, d, ver="0.1.0", fns=("a",), targets=None):
    return dict(name=name, dir=d, version=ver, fns=list(fns), targets=targets or [("lib", name.replace("-", "_"), "src/lib.rs")])


def shapes():
    """name -> (packages, default members or None, virtual root?)"""
    S = {}
    S["virt"] = ([P("a", "a"), P("b", "b", fns=("b1", "b2")), P("d", "c/d"), P("sub", "a/sub"), P("none", "none", fns=())], None, True)
    S["dflt"] = ([P("a", "a"), P("b", "b", fns=("b1", "b2")), P("d", "c/d"), P("sub", "a/sub")], ["d", "a"], True)
    S["dflt1"] = ([P("x", "a"), P("y", "b")], ["y"], True)
    S["root"] = ([P("r", "."), P("a", "a"), P("b", "b", fns=("b1", "b2"))], None, False)
    S["rootd"] = ([P("r", "."), P("a", "a"), P("b", "b")], ["a", "b"], False)
    S["one"] = ([P("r", ".", ver="3.4.5")], None, False)
    # versions, and directory names that are other packages' names
    S["vers"] = ([P("zz", "aa", ver="1.2.3"), P("aa", "zz", ver="0.0.1-alpha.1+b7"), P("a-b_c", "a_b-c", ver="2.0.0"), P("a-b-c", "abc", ver="2.0.0"), P("q_r", "q_r"), P("q-r", "q-r"), P("aaa", "aa/aaa", ver="1.2.3")], None, True)
    S["bins"] = ([P("app", "app", targets=[("bin", "app", "src/main.rs"), ("bin", "x", "src/bin/x.rs")]), P("lib1", "lib1"), P("pm", "pm", targets=[("proc-macro", "pm", "src/lib.rs")])], None, True)
    return S


def build(shape):
    pk, dm, virt = shapes()[shape]
    f = {}
    mem = [p["dir"] for p in pk if p["dir"] != "."]
    ws = "[workspace]\nmembers = %s\nresolver = \"2\"\n" % json.dumps(mem)
    if dm:
        ws += "default-members = %s\n" % json.dumps([p["dir"] for n in dm for p in pk if p["name"] == n])
    if virt:
        f["Cargo.toml"] = ws
    for p in pk:
        t = cargo_toml(p["name"], version=p["version"])
        for kind, n, src in p["targets"]:
            if kind == "proc-macro":
                t += "[lib]\nproc-macro = true\n"
        f[os.path.normpath(p["dir"] + "/Cargo.toml")] = t + (ws if p["dir"] == "." and len(pk) > 1 else "")
        for kind, n, src in p["targets"]:
            f[os.path.normpath(p["dir"] + "/" + src)] = ("fn main() {}\n" if kind == "bin" else "pub const K: u8 = 1;\n") + fn_src(["%s_%s" % (p["name"].replace("-", "_"), x) for x in p["fns"]])
        f[os.path.normpath(p["dir"] + "/tests/t.rs")] = fn_src(["in_test"])
        f[os.path.normpath(p["dir"] + "/doc/x.txt")] = "x"
    if virt:
        f["docs/deep/x.txt"] = "x"
    return f, pk, dm, virt


def starts(shape):
    f, pk, dm, virt = build(shape)
    d = {"."}
    for k in f:
        while "/" in k:
            k = k.rsplit("/", 1)[0]
            d.add(k)
    return sorted(d)


def auto(shape, start):
    f, pk, dm, virt = build(shape)
    d = start
    while d != "." and d + "/Cargo.toml" not in f:
        d = d.rsplit("/", 1)[0] if "/" in d else "."
    for p in pk:
        if p["dir"] == d:
            return [p["name"]]
    return list(dm) if dm else [p["name"] for p in pk]


def sels(shape):
    pk = shapes()[shape][0]
    n = [p["name"] for p in pk]
    r = [[], ["--workspace"]] + [["-p", x] for x in n] + [["--package=" + x, "-p", y] for x in n for y in n] + [["-p", "%s,%s" % (x, y)] for x in n for y in n if x != y]
    r += [["-p", "nope", "-p", n[0]], ["-p", ",".join(n)], ["-p", n[0][:1] + "?"]]
    near = {x.replace("-", "_") for x in n} | {x.replace("_", "-") for x in n} | {x.upper() for x in n} | {x + "x" for x in n} | {x[:-1] for x in n if len(x) > 1} | {p["name"] + "@" + p["version"] for p in pk} | {p["dir"] + "/" for p in pk} | {p["dir"] for p in pk} | {" " + n[0], "*"}
    r += [["-p", x, "-p", n[-1]] for x in sorted(near - set(n))] + [["-p", "%s,%s" % (n[0], x)] for x in sorted(near - set(n))]
    return r


def selected(shape, sel, start):
    pk = shapes()[shape][0]
    if not sel:
        return auto(shape, start)
    if sel == ["--workspace"]:
        return [p["name"] for p in pk]
    named = [x for a in sel if a != "-p" for x in a.replace("--package=", "").split(",")]
    return [p["name"] for p in pk if p["name"] in named]


def tests_cli(n):
    return [[], ["--test-workspace=true"], ["--test-workspace=false"], ["--test-package=" + n[-1]], ["--test-package=%s,%s" % (n[0], n[-1])], ["--test-package", n[-1], "--test-package", n[0]], ["--test-workspace=false", "--test-package=" + n[0]]]


def tests_cfg(n):
    return [{}, dict(test_workspace=True), dict(test_workspace=False), dict(test_package=[n[-1]]), dict(test_package=[n[0], n[-1]]), dict(test_workspace=True, test_package=[n[0]]), dict(test_workspace=False, test_package=[n[0]])]


class C(Check):
    id = "C21"
    level = "exploration"
    batch = 4
    rule = ("workspaces (virtual or not, with and without default members, nested packages, versions, binaries) with every start directory (as working directory, --dir and --manifest-path) and every package selection up to two names: "
            "the listed mutants are those of exactly the selected packages; and every combination of --test-workspace and --test-package on the command line and in the config: every cargo process names exactly the packages to test, and the baseline all of them; "
            "non-trivial when several packages exist; the start directories are also tried with the real cargo answering metadata and locate-project")
    assumptions = ["unknown package names are dropped with a warning (as documented by the existing tests) and only tried beside known ones", "members outside the workspace root directory are not supported by the tool"]

    def bounds_for(self, tier):
        return dict(shapes=len(shapes()), packages=5, names_per_option=2, jobs=[1, 2])

    def cases(self, tier):
        for s in shapes():
            n = [p["name"] for p in shapes()[s][0]]
            for st in starts(s):
                for how in ("cwd", "dir", "rel", "manifest"):
                    for real in (0, 1):
                        yield dict(k="list", shape=s, start=st, how=how, sel=[], real=real)
                for how in ("dir", "rel", "manifest"):
                    for sel in (["--workspace"], ["-p", n[0]], ["-p", n[-1], "-p", n[0]]):
                        for real in (0, 1):
                            yield dict(k="list", shape=s, start=st, how=how, sel=sel, real=real)
                for sel in sels(s)[1:]:
                    if st in (".", starts(s)[-1], "a", "docs") or tier != "quick":
                        yield dict(k="list", shape=s, start=st, how="cwd", sel=sel, real=0)
            for sel in [[], ["--workspace"], ["-p", n[0]], ["-p", n[-1], "-p", n[0]]]:
                for st in ([".", starts(s)[-1]] if not sel else ["."]):
                    for tc, tf in itertools.product(tests_cli(n), tests_cfg(n)):
                        for more in ([], ["-j2"], ["--check"]):
                            if more == ["--check"] and (tc and tf) and tier == "quick":
                                continue
                            yield dict(k="run", shape=s, start=st, sel=sel, tc=tc, tf=tf, more=more)
                    for more in (["--no-config"], ["--baseline=skip"], ["--in-place"], ["--shard=0/2"], ["-F", "b"], ["--test-tool=nextest"]):
                        for tc, tf in ((tests_cli(n)[a], tests_cfg(n)[b]) for a in (0, 1, 3) for b in (0, 1, 3)):
                            yield dict(k="run", shape=s, start=st, sel=sel, tc=tc, tf=tf, more=more)

    def run_case(self, R, case):
        return getattr(self, "k_" + case["k"])(R, case)

    def lab(self, R, case, cfg=""):
        f, pk, dm, virt = build(case["shape"])
        if cfg:
            f[".cargo/mutants.toml"] = cfg
        lab = Lab(R, f, pk, dm)
        return lab

    def k_list(self, R, case):
        lab = self.lab(R, case)
        sd = os.path.normpath(os.path.join(lab.root, case["start"]))
        cwd, a = sd, []
        if case["how"] == "dir":
            cwd, a = lab.case, ["-d", sd]
        elif case["how"] == "rel":
            cwd, a = lab.case, ["--dir=" + os.path.relpath(sd, lab.case)]
        elif case["how"] == "manifest":
            m = os.path.join(sd, "Cargo.toml")
            if not os.path.exists(m):
                return dict(viol=[], n=0)
            cwd, a = lab.case, ["--manifest-path", m]
        env = {"FC_REALMETA": "1"} if case["real"] else None
        r, js = R.list(lab.case, lab.root, a + case["sel"], cwd=cwd, extra_env=env)
        if js is None:
            return dict(viol=["listing fails from %s: %s %s" % (case["start"], r.code, r.err[-300:])])
        return dict(viol=self.right_mutants(case, js, selected(case["shape"], case["sel"], case["start"])), states=[h(case)], transitions=1, nontrivial=[h(case)] if len(shapes()[case["shape"]][0]) > 1 else [],
                    sample=dict(case=case, mutants=len(js)))

    def right_mutants(self, case, js, sel):
        pk = {p["name"]: p for p in shapes()[case["shape"]][0]}
        v = []
        exp = sorted((n, os.path.normpath(pk[n]["dir"] + "/" + src), "%s_%s" % (n.replace("-", "_"), x)) for n in sel for _k, _n, src in pk[n]["targets"] for x in pk[n]["fns"])
        got = sorted((m["package"], m["file"], m["function"]["function_name"]) for m in js if m["function"]["function_name"] != "main")
        if exp != got:
            v.append("started in %s with %s: mutants %s, expected %s" % (case["start"], case["sel"], [x for x in got if x not in exp] or got, [x for x in exp if x not in got] or exp))
        return v

    def k_run(self, R, case):
        cfg = "".join("%s = %s\n" % (k, json.dumps(x)) for k, x in case["tf"].items())
        lab = self.lab(R, case, cfg)
        cwd = os.path.normpath(os.path.join(lab.root, case["start"]))
        more = case["more"]
        seln = [a for a in more if a in ("-F", "b") or a.startswith("--shard")]
        r, js = R.list(lab.case, lab.root, ["--diff"] + case["sel"] + seln, cwd=cwd)
        if js is None:
            return dict(viol=["listing fails: %s" % r.err[-300:]])
        v = [] if seln else self.right_mutants(case, js, selected(case["shape"], case["sel"], case["start"]))
        lab.mutants = js
        lab.texts = [(m["file"], mutated_text(lab.orig[m["file"]][2].decode(), m).encode()) for m in js]
        lab.names = [m["file"] for m in js]
        codes = "M" * len(js)
        a = ["--no-shuffle", "--no-times", "--timeout=60"] + case["sel"] + case["tc"] + more
        res = lab.run(a, codes, cwd=cwd, wall=60)
        check = "--check" in more
        want = 0 if check or not js else 2
        if res.code != want:
            v.append("exit %s, expected %d: %s" % (res.code, want, res.err[-300:]))
        v += check_children(lab, res, codes, check=check, baseline=bool(js) and "--baseline=skip" not in more)
        if v:
            return dict(viol=v)
        pk = shapes()[case["shape"]][0]
        ver = {p["name"]: "%s@%s" % (p["name"], p["version"]) for p in pk}
        mode = self.mode(case, {} if "--no-config" in more else case["tf"])
        allv = set(ver.values())
        union = set()
        for c in res.children:
            w = lab.who(c)
            if w < 0:
                continue
            exp = "all" if mode == "all" else {ver[x] for x in mode} if mode else {ver[js[w]["package"]]}
            union |= allv if exp == "all" else exp
            got = packages(c.argv)
            if (allv if got == "all" else got) != (allv if exp == "all" else exp):
                v.append("mutant of %s with %s and config %s: %s runs packages %s, expected %s" % (js[w]["package"], case["tc"], case["tf"], c.phase, got, exp))
        for c in res.children:
            if lab.who(c) >= 0:
                continue
            got = packages(c.argv)
            g = allv if got == "all" else got
            if not union <= g:
                v.append("the baseline %s with %s and config %s covers %s but mutants are tested with %s" % (c.phase, case["tc"], case["tf"], sorted(g), sorted(union)))
            if not mode and not g <= {ver[x] for x in selected(case["shape"], case["sel"], case["start"])}:
                v.append("the baseline runs packages %s that are not selected" % sorted(g))
        return dict(viol=v, n=len(res.children), states=[h((case["shape"], tuple(c.argv[1:]))) for c in res.children], transitions=len(res.events), nontrivial=[h(case)] if len(pk) > 1 else [])

    def mode(self, case, cfg):
        """'all', a list of names, or None for the mutated package."""
        tw = [a.split("=")[1] == "true" for a in case["tc"] if a.startswith("--test-workspace")]
        named, it = [], iter(case["tc"])
        for x in it:
            if x.startswith("--test-package"):
                named += (x.split("=", 1)[1] if "=" in x else next(it)).split(",")
        if tw == [True]:
            return "all"
        if named:
            return named
        if not tw and cfg.get("test_workspace"):
            return "all"
        return cfg.get("test_package") or None


def packages(argv):
    """Packages named on a cargo command line: 'all' or a set of name@version."""
    r, i = set(), 1
    while i < len(argv):
        a = argv[i]
        if a in ("--workspace", "--all"):
            return "all"
        if a in ("-p", "--package"):
            i += 1
            r.add(argv[i])
        elif a.startswith("--package="):
            r.add(a[10:])
        i += 1
    return r


CHECK = C()
