from runs import *
import importlib.util, itertools, json, re, shutil
import rgen
from rgen import *

ANSI = re.compile("\x1b\\[[0-9;]*[A-Za-z]")


def c25():
    sp = importlib.util.spec_from_file_location("c25_builder", os.path.join(os.path.dirname(os.path.abspath(__file__)), "c25.py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m.CHECK


MIX = ("pub fn p(a: u8, b: u8) -> bool {\n    a == b && a < b || !(a > b)\n}\npub fn q(a: i8) -> Option<i8> { match a { 1 if a > 0 => Some(-a), 2 => None, _ => Some(a * a + a) } }\n"
       "struct S;\nimpl S { fn m(&self) -> String { String::from(\"a\") } fn n(&mut self) { self.m(); } }\nimpl std::fmt::Display for S { fn fmt(&self, f: &mut F) -> fmt::Result { write!(f, \"x\") } }\n"
       "mod inner { pub fn p(a: u8, b: u8) -> bool { a == b } pub fn q() -> u8 { 1 } }\nfn outer() -> u8 { fn inner() -> u8 { 2 } inner() + inner() }\n"
       "const K: bool = !true;\nstatic J: i8 = -1 + 2;\npub struct A([u8; 1 + 2]);\npub fn g2(a: u8) {\n    match a {\n        1 if a > 0\n            && a < 9 => {}\n        2\n        | 3 => {}\n        4 if {\n            a == 1\n        } => {}\n        _ => {}\n    }\n}\n"
       "pub fn longret(\n    a: u8,\n) -> Result<\n    Vec<u8>,\n    E,\n> {\n    x()\n}\n")


def trees():
    """name -> (files, packages, default members)"""
    T = {}
    one = [dict(name="ws", dir=".", targets=[("lib", "ws", "src/lib.rs")])]
    T["mix"] = ({"Cargo.toml": cargo_toml("ws"), "src/lib.rs": MIX}, one, None)
    T["files"] = ({"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "mod z;\nmod a;\nmod m;\n" + MIX, "src/z.rs": fn_src(["one", "two"]), "src/a.rs": "pub mod k;\n" + MIX, "src/a/k.rs": MIX, "src/m/mod.rs": "mod z;\n", "src/m/z.rs": fn_src(["one", "two"])}, one, None)
    T["libmain"] = ({"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "mod a;\n" + fn_src(["l"]), "src/main.rs": "mod a;\n" + fn_src(["main2"]), "src/bin/x.rs": fn_src(["x"]), "src/a.rs": MIX},
                    [dict(name="ws", dir=".", targets=[("bin", "x", "src/bin/x.rs"), ("lib", "ws", "src/lib.rs"), ("bin", "ws", "src/main.rs")])], None)
    T["pkgs"] = ({"Cargo.toml": "[workspace]\nmembers = ['*']\n", **{"%s/Cargo.toml" % p: cargo_toml(p) for p in ("zz", "aa", "mm")}, **{"%s/src/lib.rs" % p: MIX for p in ("zz", "aa", "mm")}},
                 [dict(name=p, dir=p, targets=[("lib", p, "src/lib.rs")]) for p in ("zz", "aa", "mm")], None)
    T["same"] = ({"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "pub fn a() -> bool { X == 1 } pub fn b() -> bool { X == 1 } pub fn c(x: u8) -> u8 { match x { 1 => 1 + 1, 2 => 1 + 1, _ => 1 + 1 } }\n"
                  "mod m { pub fn a() -> bool { X == 1 } } impl T for A { fn a() -> bool { X == 1 } } impl T for B { fn a() -> bool { X == 1 } }\n#[cfg(a)]\nfn d() -> u8 { 2 }\n#[cfg(not(a))]\nfn d() -> u8 { 2 }\n"}, one, None)
    T["uni"] = ({"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "/* \u00e9\u00e9 */ pub fn caf\u00e9(a: u8) -> bool { \"\u65e5\u672c\" == \"x\" || a == 1 }\r\n#[path = \"\u00e9 x.rs\"]\r\nmod e;\r\n", "src/\u00e9 x.rs": MIX}, one, None)
    T["errs"] = ({"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "pub fn r() -> Result<u8, E> { x() }\npub fn s() -> Result<Result<(), E>, E> { x() }\npub fn t() -> Option<Result<bool>> { x() }\n"}, one, None)
    T["none"] = ({"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "pub const X: u8 = 1;\n"}, one, None)
    return T


SEL = {"mix": [[], ["-F", "replace"], ["-E", "=="], ["--shard=1/3"], ["-F", "p", "--shard", "0/2"], ["--in-diff=@DIFF@"]],
       "files": [[], ["-f", "a"], ["-e", "src/a/k.rs", "-F", "with"], ["--shard=2/5"], ["--in-diff=@DIFF@"]],
       "libmain": [[], ["-f", "*.rs"], ["-e", "a.rs"]],
       "pkgs": [["--workspace"], ["-p", "zz", "-p", "aa"], ["-p", "mm"], []],
       "same": [[], ["-F", "a ->"]], "uni": [[], ["-F", "caf\u00e9"]],
       "errs": [[], ["--error=E1", "--error=E2"], ["--error=E1", "CFG:error_values = [\"E1\", \"E3\"]"], ["--error=E1", "--error=E1"], ["--error=a::b( 1 )", "CFG:error_values = [\"a :: b(1)\"]"], ["CFG:error_values = [\"E1\", \"E1\"]"]],
       "none": [[]]}
DISP = [["--colors=always"], ["--colors=never"], ["--colors=auto"], ["ENV:CARGO_TERM_COLOR=always"], ["ENV:CLICOLOR_FORCE=1"], ["ENV:NO_COLOR=1"], ["ENV:CLICOLOR=0"], ["-L", "trace"], ["--level=error"], ["-L", "debug"], ["--diff"], ["--line-col=false"],
        ["--no-times"], ["--caught"], ["-v", "-V"], ["--all-logs"], ["--shuffle"], ["--no-shuffle"], ["-j3"], ["--check"], ["--leak-dirs"], ["--baseline=skip"], ["--timeout=3"], ["ENV:CARGO_TERM_PROGRESS_WHEN=never"]]


def name_of(m, text, linecol=True):
    """The documented name of a mutant, from its JSON form."""
    f, g, r = m.get("function"), m["genre"], m["replacement"]
    if g == "FnValue":
        d = "replace %s%s with %s" % (f["function_name"], " " + f["return_type"] if f["return_type"] else "", r)
    elif g == "MatchArmGuard":
        d = "replace match guard with " + r
    elif g == "MatchArm":
        d = "delete match arm"
    else:
        s = m["span"]
        line = text.split("\n")[s["start"]["line"] - 1]
        o = line[s["start"]["column"] - 1:s["end"]["column"] - 1]
        d = ("replace %s with %s" % (o, r) if r else "delete " + o) + (" in " + f["function_name"] if f else "")
    return "%s%s: %s" % (m["file"], ":%d:%d" % (m["span"]["start"]["line"], m["span"]["start"]["column"]) if linecol else "", d)


def dups(xs):
    seen, d = set(), []
    for x in xs:
        if x in seen:
            d.append(x)
        seen.add(x)
    return d


class C(Check):
    id = "C18"
    level = "exploration"
    batch = 1
    rule = ("trees (several files, packages, targets sharing modules, equal code at different places, error values given twice) with every selection and every display option or pair of them: all text and JSON listings, "
            "repeated, from other directories and from a copy whose files were created in reverse order, must name the same mutants in the same order, each once; the return-type programs of C25 check that names are unique; "
            "runs with each display option must test exactly the listed mutants, in order under --no-shuffle; non-trivial when there are mutants")
    assumptions = ["one package per source file"]

    def bounds_for(self, tier):
        return dict(trees=len(trees()), display_options=len(DISP), display_combined=2, type_depth=2)

    def cases(self, tier):
        T = trees()
        for t in sorted(T):
            for sel in SEL[t]:
                yield dict(kind="list", t=t, sel=sel)
                for d in DISP:
                    yield dict(kind="disp", t=t, sel=sel, disp=[d])
                if sel == SEL[t][0] or tier != "quick":
                    for d in itertools.combinations(DISP, 2):
                        yield dict(kind="disp", t=t, sel=sel, disp=list(d))
        for c in c25().cases(tier):
            if c["kind"] in ("errors",):
                continue
            yield dict(kind="names", c=c)
        for t in ("mix", "files", "libmain", "pkgs", "same", "uni", "errs"):
            for sel in SEL[t]:
                if "--shuffle" in sel:
                    continue
                for j in ([], ["-j2"]):
                    for sh in (["--no-shuffle"], [], ["--shuffle"], ["--shuffle", "--no-shuffle"], ["--no-shuffle", "--shuffle"]):
                        yield dict(kind="run", t=t, sel=sel, args=j + sh)
        for d in DISP:
            if d[0] in ("--shuffle", "--no-shuffle", "-j3", "--timeout=3"):
                continue
            for sh in (["--no-shuffle"], []):
                yield dict(kind="run", t="same", sel=["-F", "a ->"], args=d + sh)
                yield dict(kind="run", t="mix", sel=["-F", "replace [pq]"], args=d + sh)
        if tier != "quick":
            for d in itertools.combinations(DISP, 2):
                if any(x[0] in ("--shuffle", "--no-shuffle", "-j3", "--timeout=3") for x in d) or d[0][0] == d[1][0]:
                    continue
                yield dict(kind="run", t="same", sel=["-F", "a ->"], args=d[0] + d[1] + ["--no-shuffle"])

    def lab(self, R, case):
        files, pk, dm = trees()[case["t"]]
        files = dict(files)
        cfg = [a[4:] for a in case["sel"] if a.startswith("CFG:")]
        if cfg:
            files[".cargo/mutants.toml"] = "\n".join(cfg) + "\n"
        lab = Lab(R, files, pk, dm)
        sel = [a for a in case["sel"] if not a.startswith("CFG:")]
        return lab, self.with_diff(lab, files, sel)

    def with_diff(self, lab, files, sel):
        if any("@DIFF@" in a for a in sel):
            t = files["src/lib.rs"].splitlines(True)
            with open(os.path.join(lab.case, "x.diff"), "w") as f:
                f.write("--- a/src/lib.rs\n+++ b/src/lib.rs\n@@ -1,0 +1,%d @@\n%s" % (3, "".join("+" + x for x in t[:3])))
        return [a.replace("@DIFF@", os.path.join(lab.case, "x.diff")) for a in sel]

    def base(self, R, lab, sel):
        r = R.simple(lab.case, lab.root, ["--list"] + sel)
        if r.code != 0:
            raise ToolError("listing failed: %s" % r.err[-500:])
        return r.out.splitlines()

    def text(self, lab, f):
        return lab.orig[f][2].decode().replace("\r\n", "\n")

    def run_case(self, R, case):
        return getattr(self, "do_" + case["kind"])(R, case)

    def do_list(self, R, case):
        v = []
        lab, sel = self.lab(R, case)
        names = self.base(R, lab, sel)
        r, js = R.list(lab.case, lab.root, sel)
        if js is None:
            return dict(viol=["JSON listing failed: exit %s %s" % (r.code, r.err[-200:])])
        want = [name_of(m, self.text(lab, m["file"])) for m in js]
        if want != names:
            i = next((i for i, (a, b) in enumerate(itertools.zip_longest(want, names)) if a != b))
            v.append("text and JSON listings differ at %d: JSON %r, text %r" % (i, want[i:i + 1], names[i:i + 1]))
        for d in dups(names)[:2]:
            v.append("listed twice: %s" % d)
        if dups(map(key, js)):
            v.append("JSON listing holds a mutant twice")
        n = 2
        for i in range(3):
            n += 1
            if self.base(R, lab, sel) != names:
                v.append("listing again gives another result")
        r2, js2 = R.list(lab.case, lab.root, sel)
        if js2 != js:
            v.append("JSON listing again gives another result")
        # from elsewhere
        if case["t"] != "pkgs" or "--workspace" in sel or "-p" in sel:
            for cwd, a in ((lab.case, ["-d", lab.root]), (lab.case, ["--manifest-path=" + os.path.join(lab.root, "Cargo.toml")]), (lab.root, ["-d", "."])):
                r = R.simple(lab.case, lab.root, ["--list"] + a + sel, cwd=cwd)
                n += 1
                if r.out.splitlines() != names:
                    v.append("listing with %s gives another result: exit %s %s" % (a[0], r.code, r.err[-200:]))
        r = R.simple(lab.case, lab.root, ["--list-files"] + [a for a in sel])
        fs = r.out.splitlines()
        if dups(fs):
            v.append("file listed twice: %s" % dups(fs)[:2])
        order = []
        for m in js:
            if m["file"] not in order:
                order.append(m["file"])
        if not any(a.startswith(("-f", "-e", "-F", "-E", "--in-diff", "--shard")) for a in sel) and [f for f in fs if f in order] != order:
            v.append("files are listed in another order than their mutants")
        # the same tree, created in another order
        files, pk, dm = trees()[case["t"]]
        rev = dict(reversed(list(files.items())))
        cfg = [a[4:] for a in case["sel"] if a.startswith("CFG:")]
        if cfg:
            rev[".cargo/mutants.toml"] = "\n".join(cfg) + "\n"
        for p in (list(reversed(pk)), pk[1:] + pk[:1]):
            rl = Lab(R, rev, p, dm)
            n += 1
            sel2 = self.with_diff(rl, files, [a for a in case["sel"] if not a.startswith("CFG:")])
            got = R.simple(rl.case, rl.root, ["--list"] + sel2).out.splitlines()
            if got != names:
                v.append("listing of an equal tree with members in another order differs: %s" % [x for x in got + names if x not in got or x not in names][:2])
        return dict(viol=v, n=n, states=[h((case["t"], case["sel"]))], transitions=n, nontrivial=[h(case)] if names else [], sample=dict(case=case, mutants=len(names), first=names[:2]))

    def do_disp(self, R, case):
        v = []
        lab, sel = self.lab(R, case)
        r, js = R.list(lab.case, lab.root, ["--diff"] + sel)
        plain = self.base(R, lab, sel)
        if len(plain) != len(js):
            v.append("--diff changes the number of mutants in the JSON listing from %d to %d" % (len(plain), len(js)))
        names = [name_of(m, self.text(lab, m["file"])) for m in js]
        args = [a for d in case["disp"] for a in d if not a.startswith("ENV:")]
        flags = [a for a in args if a.startswith("-")]
        if dups([{"-L": "--level", "-v": "--caught"}.get(a.split("=")[0], a.split("=")[0]) for a in flags]):
            return dict(viol=[], n=0, states=[], transitions=0)
        env = dict([("NO_COLOR", None)], **dict(a[4:].split("=", 1) for d in case["disp"] for a in d if a.startswith("ENV:")))
        lc = "--line-col=false" not in args
        want = names if lc else [name_of(m, self.text(lab, m["file"]), False) for m in js]
        r = R.simple(lab.case, lab.root, ["--list"] + args + sel, extra_env=env)
        out = ANSI.sub("", r.out)
        if r.code != 0:
            v.append("listing with %s: exit %s %s" % (args, r.code, r.err[-200:]))
        if "--diff" not in args:
            if out.splitlines() != want:
                v.append("display options %s %s change the listing: %r" % (args, env, [x for x in out.splitlines() if x not in want][:2] + [x for x in want if x not in out.splitlines()][:2]))
        else:
            pos = 0
            for w, m in zip(want, js):
                blk = w + "\n" + m["diff"]
                i = out.find(blk, pos)
                if i < 0 or out[pos:i].strip():
                    v.append("display options %s: %r is not listed with its diff where expected" % (args, w))
                    break
                pos = i + len(blk)
            else:
                if out[pos:].strip():
                    v.append("display options %s: something more is listed: %r" % (args, out[pos:pos + 200]))
        r2, js2 = R.list(lab.case, lab.root, args + sel, extra_env=env)
        if js2 is None:
            v.append("JSON listing with %s is not JSON: exit %s" % (args, r2.code))
        else:
            strip = lambda l: [{k: x for k, x in m.items() if k != "diff"} for m in l]
            if strip(js2) != strip(js):
                v.append("display options %s %s change the JSON listing" % (args, env))
            if "--diff" in args and js2 != js:
                v.append("diffs in the JSON listing change with %s" % args)
        return dict(viol=v, n=2, states=[h(case)], transitions=2, nontrivial=[h(case)] if names else [])

    def do_names(self, R, case):
        s, args, cfg = c25().build(case["c"])
        lab = Lab(R, {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": s.text()})
        names = self.base(R, lab, args)
        r, js = R.list(lab.case, lab.root, args)
        v = []
        want = [name_of(m, s.text()) for m in js]
        if want != names:
            i = next((i for i, (a, b) in enumerate(itertools.zip_longest(want, names)) if a != b))
            v.append("text and JSON listings differ: JSON %r, text %r" % (want[i:i + 1], names[i:i + 1]))
        for d in dups(names)[:2]:
            v.append("two mutants share the name %s" % d)
        return dict(viol=v, n=1, states=[h(case)], transitions=len(names), nontrivial=[h(case)] if names else [], extra=dict(names_compared=len(names)))

    def do_run(self, R, case):
        lab, sel = self.lab(R, case)
        lab.load(sel)
        n = len(lab.mutants)
        env = dict([("NO_COLOR", None)], **dict(a[4:].split("=", 1) for a in case["args"] if a.startswith("ENV:")))
        args = [a for a in case["args"] if not a.startswith("ENV:")]
        check = "--check" in args
        codes = ("CMU" * n)[:n]
        skip = "--baseline=skip" in args
        res = lab.run(sel + args + ["--timeout=30"], codes, env=env, wall=60)
        v = check_children(lab, res, codes, check=check, baseline=n > 0 and not skip)
        seen = []
        for c in res.children:
            w = lab.guess(c)
            if w >= 0 and w not in seen:
                seen.append(w)
        if sorted(seen) != list(range(n)):
            v.append("run tests %d mutants, listing shows %d" % (len(seen), n))
        if "--no-shuffle" in args and "-j2" not in args and seen != sorted(seen):
            v.append("--no-shuffle does not keep the listed order: %s" % seen[:10])
        o = lab.out()
        if o.mutants is None:
            v.append("no mutants.json")
        elif sorted(map(key, o.mutants)) != sorted(map(key, lab.mutants)):
            v.append("mutants.json differs from the listing")
        elif "--no-shuffle" in args and list(map(key, o.mutants)) != list(map(key, lab.mutants)):
            v.append("mutants.json is in another order than the listing")
        v += check_reports(lab, o, codes, check=check, baseline=n > 0 and not skip) if n else []
        if res.code != (0 if n == 0 or check else expected_exit(codes)):
            v.append("exit %s" % res.code)
        return dict(viol=v[:4], states=[h(case)], transitions=len(res.events), nontrivial=[h(case)] if n else [], sample=dict(case=case, tested=len(seen), order=seen[:8]))


CHECK = C()
