from runs import *
import itertools, json, re

CODE = "pub fn fn_%s(a: u8, b: u8) -> bool {\n    a == b\n}\n"


def tree():
    f = {"Cargo.toml": "[workspace]\nmembers = ['pk*', 'src']\n"}
    mods = {"": ["a", "ab", "b", "B"], "b": ["a", "c"], "b/c": ["d"], "a": ["b"], "ab": []}
    for p in ("pk1", "pk2"):
        f[p + "/Cargo.toml"] = cargo_toml(p)
        base = p + "/src/"
        f[base + "lib.rs"] = "".join("mod %s;\n" % m for m in mods[""]) + ('#[path = "w[*]?{x}.rs"]\nmod odd;\n#[path = "\u00e9 y.rs"]\nmod acc;\n#[path = ".hid.rs"]\nmod hid;\n' if p == "pk1" else "")
        f[base + "a.rs"] = "mod b;\n"
        f[base + "a/b.rs"] = ""
        f[base + "ab.rs"] = ""
        f[base + "B.rs"] = ""
        f[base + "b/mod.rs"] = "mod a;\nmod c;\n"
        f[base + "b/a.rs"] = ""
        f[base + "b/c.rs"] = "mod d;\n"
        f[base + "b/c/d.rs"] = ""
    f["pk1/src/w[*]?{x}.rs"] = ""
    f["pk1/src/\u00e9 y.rs"] = ""
    f["pk1/src/.hid.rs"] = ""
    f["pk2/src/main.rs"] = "fn main() {}\nmod m;\n"
    f["pk2/src/m.rs"] = ""
    f["pk2/src/pk1/src/x.rs"] = ""
    f["pk2/src/lib.rs"] += '#[path = "pk1/src/x.rs"]\nmod x;\n'
    f["src/Cargo.toml"] = cargo_toml("pk3")      # paths that begin as those of a package at the root do
    f["src/lib.rs"] = "mod a;\n"
    f["src/a.rs"] = ""
    n = 0
    for k in sorted(f):
        if k.endswith(".rs"):
            n += 1
            f[k] += CODE % n
    pk = [dict(name="pk1", dir="pk1", targets=[("lib", "pk1", "src/lib.rs")]), dict(name="pk2", dir="pk2", targets=[("lib", "pk2", "src/lib.rs"), ("bin", "pk2", "src/main.rs")]),
          dict(name="pk3", dir="src", targets=[("lib", "pk3", "lib.rs")])]
    return f, pk


def comp_re(c):
    """Regex of one component of a glob."""
    o, i = "", 0
    while i < len(c):
        ch = c[i]
        if ch == "*":
            while i + 1 < len(c) and c[i + 1] == "*":
                i += 1
            o += "[^/]*"
        elif ch == "?":
            o += "[^/]"
        elif ch == "[":
            j = c.index("]", i + 2)
            cl = c[i + 1:j]
            neg = cl[0] in "!^"
            cl = cl[1:] if neg else cl
            o += "(?!/)[%s%s]" % ("^" if neg else "", "".join(x if x == "-" else re.escape(x) for x in cl))
            i = j
        elif ch == "{":
            j = c.index("}", i)
            o += "(?:%s)" % "|".join(comp_re(x) for x in c[i + 1:j].split(","))
            i = j
        elif ch == "\\":
            i += 1
            o += re.escape(c[i])
        else:
            o += re.escape(ch)
        i += 1
    return o


def glob_re(g):
    """Reference semantics: * and ? stay within a component; ** as a component matches any number of them."""
    cs = g.split("/")
    if cs == ["**"]:
        return ".*"
    o = ""
    for k, c in enumerate(cs):
        last = k == len(cs) - 1
        if c == "**":
            o += ".*" if last else "(?:[^/]+/)*"
            if last and o.endswith("/.*"):
                o = o[:-2] + ".+"
        else:
            o += comp_re(c) + ("" if last else "/")
    return o


def matches(g, path):
    if "/" in g:
        return re.fullmatch(glob_re(g), path) is not None
    return any(re.fullmatch(glob_re(g), c) for c in path.split("/"))


COMPS = ["pk1", "src", "a", "a.rs", "b", "*", "**", "*.rs", "a*", "?.rs", "[ab].rs", "{a,b}.rs", "lib.rs", "pk?", "[!a].rs", "{a*,mod,li[bc]}.rs"]
SINGLE = COMPS + ["LIB.RS", "B.rs", "mod.rs", "d.rs", "c", "x.rs", "nope", "*b*", "b*", "m?in.rs", "[a-c].rs", "[^a-c].rs", "*.*", "a.r", ".rs", "lib", "w\\[\\*\\]\\?\\{x\\}.rs", "w[[][*]]*.rs", "w*", "\u00e9*", "* *.rs", "\u00e9 y.rs", ".hid.rs", ".*", "?hid.rs", "pk2", "main.rs", "src*", "rs", "*s"]
DEEP = ["pk1/src/b/c/d.rs", "pk2/src/b/*/*.rs", "**/b/**/*.rs", "pk*/**", "**/src/**/a.rs", "*/src/*.rs", "pk1/**/c/**", "/pk1/src/lib.rs", "./pk1/src/lib.rs", "pk1/src/", "src/lib.rs", "**/c/d.rs", "{pk1,pk2}/src/{a,b}/*.rs", "pk1/src/b/**", "pk2/src/pk1/src/x.rs", "pk1/src/x.rs", "**/pk1/**", "pk1/src/../src/lib.rs", "pk1/src/w\\[*.rs", "**/w*.rs",
        "a/", "b/", "lib.rs/", "/a", "/lib.rs", "/src", "src/", "pk1/", "/*", "*/", "/", "/**", "//", "./a.rs", "a//b", "pk1//src/lib.rs", "*/lib.rs", "src/a", "src/b/**", "b/c"]
GL = ["lib.rs", "a", "*.rs", "pk1/**", "**/b/*.rs", "[ab].rs", "pk2/src/*.rs", "nope", "mod.rs"]
RX = ["fn_1", "^src/", "^pk1/src/a", "with true$", "-> bool", "==", r":\d:5:", "fn_(2|3)\\b", "(?i)FN_4", "", "^$", "nope", r"b/c/.*replace == with !=", "[^/]b\\.rs", "^replace", "\u00e9", r"\.rs:\d+:\d+: replace fn_\d -> bool with false$", "pk1|pk2/src/m", r"\breplace\b.*\bin\b"]


LONG = dict(f="file", e="exclude", F="re", E="exclude-re")


class C(Check):
    id = "C19"
    level = "exploration"
    batch = 8
    rule = ("in a workspace of two packages with nested modules and oddly named files: every glob of the grammar up to three components, alone as examine and as exclude filter; every set of up to two examine and two exclude globs and regexes from "
            "fixed lists, given on the command line, in the config or both; the listed mutants must be exactly those of the unfiltered listing that the reference matcher selects; non-trivial when some but not all are selected")
    assumptions = ["globs use ** only as a whole component", "the regexes used mean the same to Python and to the regex crate"]

    def bounds_for(self, tier):
        return dict(glob_components=len(COMPS), glob_depth=3, regexes=len(RX), filters_per_kind=2)

    def cases(self, tier):
        for g in SINGLE + DEEP:
            for k in ("f", "e"):
                yield dict(cli={k: [g]}, cfg={})
                yield dict(cli={}, cfg={k: [g]})
        two = ["/".join(x) for x in itertools.product(COMPS, repeat=2)]
        three = ["/".join(x) for x in itertools.product(COMPS if tier != "quick" else COMPS[:9] + ["[ab].rs", "lib.rs"], repeat=3)]
        for i, g in enumerate(two + three):
            yield dict(cli={"fe"[i % 2]: [g]}, cfg={})
        if tier != "quick":
            for i, g in enumerate(two + three):
                yield dict(cli={"ef"[i % 2]: [g]}, cfg={})
                yield dict(cfg={"ef"[i % 2]: [g]}, cli={})
            for i, x in enumerate(itertools.product(COMPS[:12], repeat=4)):
                yield dict(cli={"fe"[i % 2]: ["/".join(x)]}, cfg={})
        for a, b in itertools.product(GL, repeat=2):
            yield dict(cli={"f": [a], "e": [b]}, cfg={})
            yield dict(cli={"f": [a, b]}, cfg={})
            yield dict(cli={"e": [a, b]}, cfg={})
            yield dict(cli={"f": [a]}, cfg={"f": [b]})
            yield dict(cli={"e": [a]}, cfg={"e": [b]})
            yield dict(cli={"f": [a]}, cfg={"e": [b]})
            yield dict(cli={"e": [a]}, cfg={"f": [b]})
            yield dict(cli={}, cfg={"f": [a], "e": [b]})
        for a, b, c in itertools.product(GL if tier != "quick" else GL[:7], repeat=3):
            if a < b:
                yield dict(cli={"f": [a, b], "e": [c]}, cfg={})
                yield dict(cli={"e": [a, b], "f": [c]}, cfg={})
            if a < b < c:
                yield dict(cli={"f": [a, b, c], "e": GL[1:3]}, cfg={})
                yield dict(cli={"e": [a, b, c], "f": GL[2:4]}, cfg={})
        for a, b, c in itertools.product(RX if tier != "quick" else RX[:9], repeat=3):
            if a < b:
                yield dict(cli={"F": [a, b], "E": [c]}, cfg={})
                yield dict(cli={"E": [a, b], "F": [c]}, cfg={})
        # lists of different lengths on the command line and in the configuration
        for k, L in (("f", GL), ("e", GL), ("F", RX), ("E", RX)):
            for i in range(6):
                for n, m in ((1, 2), (1, 3), (2, 3), (3, 1), (2, 1), (0, 3), (3, 0), (3, 3)):
                    W = L[i:] + L[:i]
                    yield dict(cli={k: W[:n]} if n else {}, cfg={k: W[3:3 + m]} if m else {})
        for r in RX:
            for k in ("F", "E"):
                yield dict(cli={k: [r]}, cfg={})
                yield dict(cli={}, cfg={k: [r]})
                yield dict(cli={k: [r]}, cfg={}, more=["--line-col=false"])
                yield dict(cli={k: [r]}, cfg={}, more=["--colors=always"])
        for a, b in itertools.product(RX, repeat=2):
            yield dict(cli={"F": [a], "E": [b]}, cfg={})
            yield dict(cli={"F": [a, b]}, cfg={})
            yield dict(cli={"E": [a, b]}, cfg={})
            yield dict(cli={"F": [a]}, cfg={"F": [b]})
            yield dict(cli={"E": [a]}, cfg={"E": [b]})
            yield dict(cli={"F": [a]}, cfg={"E": [b]})
            yield dict(cli={"E": [a]}, cfg={"F": [b]})
            yield dict(cli={}, cfg={"F": [a], "E": [b]})
        # all four kinds at once, command line and config in every combination
        pick = dict(f="pk1/**", e="a", F="fn_1", E="true$")
        pick2 = dict(f="pk2/**", e="lib.rs", F="==|false", E="fn_2")
        for w in itertools.product((0, 1, 2, 3), repeat=4):
            cli, cfg = {}, {}
            for k, x in zip("feFE", w):
                if x & 1:
                    cli[k] = [pick[k]]
                if x & 2:
                    cfg[k] = [pick2[k]]
            yield dict(cli=cli, cfg=cfg)
            yield dict(cli=cli, cfg=cfg, more=["--no-config"])
            if tier != "quick" or sum(w) < 5:
                yield dict(cli=cli, cfg=cfg, cwd="pk2/src/b", more=[])
        for g, x in itertools.product(GL, ("fn_1", "true$", "")):
            yield dict(cli={"f": [g], "F": [x]}, cfg={})
            yield dict(cli={"e": [g], "E": [x]}, cfg={})
        for g in GL[:6]:
            for k in "fe":
                yield dict(cli={k: [g]}, cfg={}, kind="run", more=["-F", "with true"])

    def run_case(self, R, case):
        files, pk = tree()
        key_of = dict(f="examine_globs", e="exclude_globs", F="examine_re", E="exclude_re")
        cfg = "".join("%s = %s\n" % (key_of[k], json.dumps(v)) for k, v in case["cfg"].items())
        if cfg:
            files[".cargo/mutants.toml"] = cfg
        lab = self.cached_lab(R, files, pk, cfg)
        more = case.get("more", [])
        cwd = os.path.join(lab.root, case["cwd"]) if case.get("cwd") else None
        sel = [] if cwd else ["--workspace"]
        full, allfiles = self.full(R, lab, sel, cwd)
        args = [a for k, v in case["cli"].items() for x in v for a in (("-" + k, x) if x and x[0] != "-" else ("--%s=%s" % (LONG[k], x),))]
        eff = {}
        for k in "feFE":
            eff[k] = case["cli"].get(k) or ([] if "--no-config" in more else case["cfg"].get(k, []))
        F = list(eff["F"])
        if case.get("kind") == "run":
            F = ["with true"]

        def okfile(p):
            return (not eff["f"] or any(matches(g, p) for g in eff["f"])) and not any(matches(g, p) for g in eff["e"])

        def okname(nm):
            return (not F or any(re.search(x, nm) for x in F)) and not any(re.search(x, nm) for x in eff["E"])
        want = [n for n, f in full if okfile(f) and okname(n)]
        v = []
        if case.get("kind") == "run":
            lab.load(sel + args + more)
            n = len(lab.mutants)
            if lab.names != want:
                v.append("listed %s, expected %s" % (lab.names[:3], want[:3]))
            codes = "C" * n
            res = lab.run(["--no-shuffle", "--no-times", "--timeout=30"] + sel + args + more, codes, wall=60)
            v += check_children(lab, res, codes, baseline=n > 0)
            return dict(viol=v, states=[h(case)], transitions=len(res.events), nontrivial=[h(case)])
        r = R.simple(lab.case, lab.root, ["--list"] + sel + args + more, cwd=cwd, extra_env=dict(NO_COLOR=None))
        if r.code != 0:
            v.append("listing fails: exit %s %s" % (r.code, r.err[-300:]))
        got = re.sub("\x1b\\[[0-9;]*m", "", r.out).splitlines()
        w2 = [re.sub(r":\d+:\d+: ", ": ", x) for x in want] if "--line-col=false" in more else want
        if got != w2:
            v.append("filters %s (config %s) select %s too many and %s too few" % (case["cli"], case["cfg"], [x for x in got if x not in w2][:2], [x for x in w2 if x not in got][:2]) if set(got) != set(w2) else "filters change the order")
        if eff["f"] or eff["e"]:
            r = R.simple(lab.case, lab.root, ["--list-files"] + sel + args + more, cwd=cwd)
            gf, wf = r.out.splitlines(), [f for f in allfiles if okfile(f)]
            if gf != wf:
                v.append("filters %s (config %s) list files %s too many and %s too few" % (case["cli"], case["cfg"], [x for x in gf if x not in wf][:2], [x for x in wf if x not in gf][:2]))
        return dict(viol=v, n=2, states=[h(case)], transitions=2, nontrivial=[h(case)] if want and len(want) < len(full) else [], sample=dict(case=case, selected=len(want), of=len(full)))

    _labs = {}

    def cached_lab(self, R, files, pk, cfg):
        """One tree per worker; only the config changes."""
        lab = self._labs.get(id(R))
        if lab is None or not os.path.isdir(lab.root):
            lab = self._labs[id(R)] = Lab(R, {k: v for k, v in files.items() if k != ".cargo/mutants.toml"}, pk)
        p = os.path.join(lab.root, ".cargo", "mutants.toml")
        if cfg:
            write_tree(lab.root, {".cargo/mutants.toml": cfg})
            lab.orig = snapshot(lab.root, skip_top=("mutants.out", "mutants.out.old"))
        elif os.path.exists(p):
            os.unlink(p)
            os.rmdir(os.path.dirname(p))
            lab.orig = snapshot(lab.root, skip_top=("mutants.out", "mutants.out.old"))
        return lab

    _full = {}

    def full(self, R, lab, sel, cwd):
        k = (id(R), tuple(sel), bool(cwd))
        if k not in self._full:
            r, js = R.list(lab.case, lab.root, sel + ["--no-config"], cwd=cwd)
            t = R.simple(lab.case, lab.root, ["--list", "--no-config"] + sel, cwd=cwd).out.splitlines()
            fl = R.simple(lab.case, lab.root, ["--list-files", "--no-config"] + sel, cwd=cwd).out.splitlines()
            if js is None or len(js) != len(t) or not t:
                raise ToolError("cannot list: " + r.err)
            fs = [m["file"] for m in js]
            self._full[k] = (list(zip(t, fs)), fl)
        return self._full[k]


CHECK = C()
