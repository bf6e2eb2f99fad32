from runs import *
import itertools, json

# inline module chains around the declaration: list of (has path attribute: None | "attr" | "inner")
INLINE = [(), (None,), ("attr",), ("inner",), (None, None), (None, "attr"), ("attr", None), ("attr", "attr"), ("raw",), (None, "raw"), ("raw", "attr")]
# the declaration: (name form, path attribute template or None, placement)
CHILD = [("plain", None, "rs"), ("xmod", None, "rs"), ("xmod", None, "mod"), ("xlib", None, "rs"), ("plain", None, "mod"), ("raw", None, "rs"), ("raw", None, "mod"), ("unicode", "\u00e9%s.rs", None),
         ("plain", "p%s.rs", None), ("plain", "d%s/p.rs", None), ("plain", "./p%s.rs", None), ("plain", "../p%s.rs", None), ("plain", "d%s/mod.rs", None), ("plain", "p%s.x.txt", None), ("plain", "d%s/../q%s.rs", None)]
FORMS = [(i, c) for i in INLINE for c in CHILD]
ROOTS = {"lib": ("lib", "src/lib.rs"), "deep": ("lib", "x/y/src/lib.rs"), "main": ("bin", "src/main.rs"), "bin": ("bin", "src/bin/x.rs"), "custom": ("lib", "top/root.rs"), "proc": ("proc-macro", "src/lib.rs"), "rootmod": ("lib", "src/mod.rs"), "flat": ("lib", "lib.rs")}
KINDS = {"lib": 1, "rlib": 1, "dylib": 1, "cdylib": 1, "staticlib": 1, "proc-macro": 1, "bin": 1, "test": 0, "example": 0, "bench": 0, "custom-build": 0}

# other attributes of targets and packages, that don't matter
ATTRS = [{"required-features": ["x"]}, {"required-features": []}, {"test": False}, {"doctest": False, "doc": False}, {"doctest": True}, {"edition": "2015"}, {"edition": "2018", "test": False, "doc": False}, {"edition": "2024"}, {"crate_types": []},
         {"kind": ["cdylib", "rlib"], "crate_types": ["cdylib", "rlib"]}, {"kind": ["lib", "staticlib", "cdylib"], "crate_types": ["lib", "staticlib", "cdylib"]}, {"kind": ["dylib", "lib"]}]
PKATTRS = [{}, {"publish": []}, {"publish": ["x"]}, {"edition": "2015"}, {"default_run": "n2"}, {"links": "z"}, {"features": {"x": [], "default": ["x"]}}, {"metadata": {"mutants": {"skip": True}}}, {"version": "1.0.0-pre+b"}, {"rust_version": "1.30.0"}, {"authors": ["a"], "keywords": ["k"], "description": "d", "license": "MIT"}]


class Tree:
    """A generated module tree: files, the files rustc's rules reach, and decoys that they do not."""
    def __init__(self):
        self.files, self.order, self.decoys, self.n, self.dirs = {}, [], {}, 0, set()

    def code(self, tag):
        return "pub fn fn_%s(a: u8, b: u8) -> bool {\n    a == b\n}\n" % tag

    def file(self, path, modrs, level, plan):
        """Emit a file with the declarations of plan[level]; returns its text (registered)."""
        self.order.append(path)
        self.n += 1
        tag = "t%d" % self.n
        head = []
        for form in (plan[level] if level < len(plan) else []):
            head.append(self.decl(path, modrs, form, level, plan))
        self.files[path] = "".join(head) + self.code(tag)

    def decl(self, parent, modrs, form, level, plan):
        inline, (nform, pattr, place) = form
        self.n += 1
        uid = str(self.n)
        d = os.path.dirname(parent)
        rel = None if modrs else os.path.splitext(os.path.basename(parent))[0]
        alt = os.path.join(d, os.path.splitext(os.path.basename(parent))[0]) if modrs else d   # the directory of the other rule
        opens, closes = "", ""
        for k, pa in enumerate(inline):
            nm = "i%d_%s" % (k, uid)
            if pa == "raw":
                if rel:
                    d, rel = os.path.join(d, rel), None
                d = os.path.join(d, nm)
                opens += "mod r#%s {\n" % nm
                self.decoys[os.path.join(os.path.dirname(d), "r#" + nm, "c%s.rs" % uid)] = 1
                alt = os.path.join(alt, nm)
            elif pa:
                pd = "dir%d_%s" % (k, uid)
                d, rel = os.path.join(d, pd), None
                opens += ('#[path = "%s"]\nmod %s {\n' if pa == "attr" else 'mod %s {\n#![path = "%s"]\n') % ((pd, nm) if pa == "attr" else (nm, pd))
                alt = os.path.join(alt, pd)
            else:
                if rel:
                    d, rel = os.path.join(d, rel), None
                d = os.path.join(d, nm)
                opens += "mod %s {\n" % nm
                alt = os.path.join(alt, nm)
            closes += "}\n"
        base = {"plain": "c%s" % uid, "raw": "r#c%s" % uid, "xmod": "c%smod" % uid, "xlib": "c%slib" % uid, "unicode": "c%s\u00e9" % uid}[nform]
        fname = base[2:] if nform == "raw" else base
        if pattr:
            p = pattr.replace("%s", uid)
            full = os.path.join(d, p)
            if norm(full).startswith(".."):
                return ""     # outside of the tree: see "outside"
            self.dirs.add(d)
            self.dirs.add(os.path.dirname(full))
            i = full.find("/..")
            while i >= 0:
                self.dirs.add(full[:i])
                i = full.find("/..", i + 1)
            opens += '#[path = "%s"]\n' % p
            self.decoys[os.path.join(d, fname + ".rs")] = 1
            if alt != d:
                self.decoys[os.path.join(alt, p)] = 1
            self.file(full, True, level + 1, plan)
        else:
            if rel:
                d = os.path.join(d, rel)
            full = os.path.join(d, fname + ".rs") if place == "rs" else os.path.join(d, fname, "mod.rs")
            if alt != d:
                self.decoys[os.path.join(alt, fname + ".rs")] = 1
            self.decoys[os.path.join(d, fname + "x.rs")] = 1
            self.file(full, place == "mod", level + 1, plan)
        return opens + "mod %s;\n" % base + closes


def norm(p):
    return os.path.normpath(p)


class C(Check):
    id = "C26"
    level = "exploration"
    batch = 1
    rule = ("module trees generated from every form of declaration (inline nesting with and without path attributes, plain and raw names, path attributes of each shape, name.rs or name/mod.rs) nested to the depth bound under every kind of "
            "target root, with decoy files where the other rules would look; the files listed by the tool must be exactly those rustc itself reads (dep-info) and those of the reference resolver, each once; plus target kinds, missing modules, "
            "repeated modules and files outside the tree; non-trivial when the tree has modules")
    assumptions = ["modules declared through macros or loaded with include! are not followed"]

    def bounds_for(self, tier):
        return dict(depth=3, forms=len(FORMS), level3_forms=len(range(0, len(FORMS), 41)) if tier == "quick" else len(FORMS), roots=len(ROOTS), target_kinds=len(KINDS))

    def cases(self, tier):
        l3 = list(range(0, len(FORMS), 41)) if tier == "quick" else list(range(len(FORMS)))
        for f in range(len(FORMS)):
            step = 48 if tier == "quick" else 12
            for lo in range(0, len(FORMS), step):
                yield dict(kind="tree", root="lib", f=f, lo=lo, hi=lo + step, l3=l3)
        for r in sorted(ROOTS):
            yield dict(kind="tree", root=r, f=None, lo=0, hi=len(FORMS), l3=[])
            for f in range(0, len(FORMS), 7):
                yield dict(kind="tree", root=r, f=f, lo=0, hi=len(FORMS), l3=[])
        for n in (1, 2):
            for ks in itertools.combinations(sorted(KINDS), n):
                yield dict(kind="targets", ks=list(ks))
        yield dict(kind="targets", ks=sorted(KINDS))
        for a in range(len(ATTRS)):
            yield dict(kind="targets", ks=sorted(KINDS), attrs=a)
        for a in range(len(PKATTRS)):
            yield dict(kind="targets", ks=sorted(KINDS), pkattrs=a)
        for f in range(len(FORMS)):
            yield dict(kind="missing", f=f)
        for x in ("libmain", "twobins", "samesrc", "pathtwice", "deepdup", "outside", "outside2", "absolute", "inlinedup", "bothpkgs", "targetoutside", "fnpath", "cfg", "cycle2bins"):
            yield dict(kind="special", x=x)

    def listed(self, R, lab, args=()):
        r = R.simple(lab.case, lab.root, ["--list-files", "--json"] + list(args))
        if r.code != 0:
            return None, r
        return json.loads(r.out), r

    def compare(self, R, lab, expect, what, package=None, json_pkg=None):
        """expect: list of normalised paths, each to be listed once and to have its two mutants."""
        fl, r = self.listed(R, lab)
        if fl is None:
            return ["%s: --list-files failed: %s %s" % (what, r.code, r.err[:400])]
        v = []
        got = sorted(norm(x["path"]) for x in fl)
        exp = sorted(norm(x) for x in expect)
        if got != exp:
            v.append("%s: files listed but not to be visited: %s; not listed: %s; listed twice: %s" % (what, sorted(set(got) - set(exp))[:4], sorted(set(exp) - set(got))[:4], sorted({x for x in got if got.count(x) > 1})[:4]))
        txt = R.simple(lab.case, lab.root, ["--list-files"]).out.splitlines()
        if [x["path"] for x in fl] != txt:
            v.append("%s: --list-files text and JSON differ" % what)
        _, ms = R.list(lab.case, lab.root)
        if ms is None:
            return v + ["%s: --list failed" % what]
        from collections import Counter
        c = Counter(norm(m["file"]) for m in ms)
        for p in exp:
            if c.get(p, 0) != 3:
                v.append("%s: %d mutants listed in %s, expected 3" % (what, c.get(p, 0), p))
                break
        if set(c) - set(exp):
            v.append("%s: mutants in files that are not modules: %s" % (what, sorted(set(c) - set(exp))[:3]))
        return v

    def run_case(self, R, case):
        k = case["kind"]
        what = json.dumps(case)
        if k == "tree":
            t = Tree()
            kind, top = ROOTS[case["root"]]
            sub = [FORMS[i] for i in range(case["lo"], min(case["hi"], len(FORMS)))]
            plan = [[FORMS[case["f"]]], sub, [FORMS[i] for i in case["l3"]]] if case["f"] is not None else [sub]
            # files named mod.rs as a top file are still top files
            t.file(top, True, 0, plan)
            fs = dict(t.files)
            for d in t.decoys:
                if norm(d) not in {norm(x) for x in fs} and not norm(d).startswith(".."):
                    fs[norm(d)] = t.code("decoy")
            spec = {"Cargo.toml": cargo_toml("ws")}
            for d in t.dirs:
                if not norm(d).startswith(".."):
                    spec.setdefault(norm(d) + "/.keep", "")
            for p, x in fs.items():
                if norm(p).startswith(".."):
                    raise CheckError("generated tree leaves the package: " + p)
                spec[norm(p)] = x
            lab = Lab(R, spec, packages=[dict(name="ws", dir=".", targets=[(kind, "ws", top)])])
            # the reference resolver must agree with rustc itself
            p = subprocess.run(["rustc", "--edition=2021", "--crate-name=x", "--crate-type=lib", "-Awarnings", "--emit=dep-info", "-o", "-", top],
                               cwd=lab.root, env=self.tools_env(R), capture_output=True, text=True)
            if p.returncode != 0:
                raise CheckError("rustc rejects the generated tree %s: %s" % (what, p.stderr[:600]))
            dep = sorted(norm(l[:-1].replace("\\ ", " ")) for l in p.stdout.splitlines() if l.endswith(":"))
            if dep != sorted(norm(x) for x in t.order):
                raise CheckError("reference resolver and rustc differ for %s: %s" % (what, sorted(set(dep) ^ {norm(x) for x in t.order})[:5]))
            v = self.compare(R, lab, t.order, what)
            n = len(t.order)
            return dict(viol=v, n=n, states=[h((what, x)) for x in t.order], transitions=n, nontrivial=[h((what, x)) for x in t.order[1:]], sample=dict(case=case, files=n, example=t.order[1:4]), extra=dict(files_confirmed_by_rustc=n))
        code = Tree().code
        pk = None
        if k == "targets":
            targets, fs, exp = [], {"Cargo.toml": cargo_toml("ws")}, []
            for i, kd in enumerate(case["ks"]):
                src = "build.rs" if kd == "custom-build" else "src/k%d.rs" % i if i % 2 else "tt%d/k%d.rs" % (i, i)
                targets.append((kd, "n%d" % i, src) + ((ATTRS[case["attrs"]],) if "attrs" in case and ("kind" not in ATTRS[case["attrs"]] or kd == "lib") else ()))
                fs[src] = "mod sub%d;\n" % i + code("r%d" % i)
                sp = os.path.join(os.path.dirname(src), "sub%d.rs" % i)
                fs[sp] = code("s%d" % i)
                exp += [src, sp] if KINDS[kd] else []
            pk = [dict(name="ws", dir=".", targets=targets, attrs=PKATTRS[case.get("pkattrs", 0)])]
        elif k == "missing":
            # the declaration's file is deleted: the others must still be found
            t = Tree()
            t.file("src/lib.rs", True, 0, [[FORMS[0], FORMS[case["f"]], FORMS[1]]])
            gone = t.order[2]
            fs = {"Cargo.toml": cargo_toml("ws")}
            for p, x in t.files.items():
                if p != gone:
                    fs[norm(p)] = x
            exp = [x for x in t.order if x != gone]
        else:
            x = case["x"]
            fs = {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": code("lib"), "src/a.rs": code("a"), "src/b.rs": code("b"), "src/main.rs": code("main")}
            exp = ["src/lib.rs", "src/a.rs"]
            L, M = ("lib", "ws", "src/lib.rs"), ("bin", "ws", "src/main.rs")
            tg = [L]
            if x == "libmain":
                fs["src/lib.rs"] = "mod a;\n" + code("lib")
                fs["src/main.rs"] = "mod a;\nmod b;\n" + code("main")
                tg, exp = [L, M], ["src/lib.rs", "src/main.rs", "src/a.rs", "src/b.rs"]
            elif x == "twobins":
                fs.update({"src/bin/p.rs": "#[path = \"../a.rs\"]\nmod a;\n" + code("p"), "src/bin/q.rs": "#[path = \"../a.rs\"]\nmod aa;\n" + code("q"), "src/lib.rs": "mod a;\n" + code("l")})
                tg, exp = [L, ("bin", "p", "src/bin/p.rs"), ("bin", "q", "src/bin/q.rs")], ["src/lib.rs", "src/a.rs", "src/bin/p.rs", "src/bin/q.rs"]
            elif x == "samesrc":
                fs["src/lib.rs"] = "mod a;\n" + code("lib")
                tg = [L, ("cdylib", "ws2", "src/lib.rs"), ("bin", "ws3", "src/lib.rs")]
            elif x == "pathtwice":
                fs["src/lib.rs"] = "#[path = \"a.rs\"]\nmod x;\n#[path = \"./a.rs\"]\nmod y;\nmod a;\n" + code("lib")
            elif x == "deepdup":
                fs.update({"src/lib.rs": "mod a;\nmod b;\n" + code("l"), "src/a.rs": "#[path = \"z.rs\"]\nmod z;\n" + code("a"), "src/b.rs": "#[path = \"z.rs\"]\nmod z;\n" + code("b"), "src/z.rs": code("z")})
                exp = ["src/lib.rs", "src/a.rs", "src/b.rs", "src/z.rs"]
            elif x == "outside":
                fs["src/lib.rs"] = "#[path = \"../../out.rs\"]\nmod x;\nmod a;\n" + code("lib")
                fs["../out.rs"] = code("out")
            elif x == "outside2":
                fs["src/lib.rs"] = "mod a;\nmod q {\n    #[path = \"../../../out.rs\"]\n    mod x;\n}\n" + code("lib")
                fs["src/q/.keep"] = ""
                fs["../out.rs"] = code("out")
            elif x == "absolute":
                fs["src/lib.rs"] = "#[path = \"/nonexistent/abs.rs\"]\nmod x;\nmod a;\n" + code("lib")
            elif x == "inlinedup":
                fs.update({"src/lib.rs": "mod q {\n    mod a;\n    pub mod r {\n        mod a;\n    }\n}\nmod r {\n    mod a;\n}\nmod a;\n" + code("l"), "src/q/a.rs": code("qa"), "src/q/r/a.rs": code("qra"), "src/r/a.rs": code("ra")})
                exp = ["src/lib.rs", "src/a.rs", "src/q/a.rs", "src/q/r/a.rs", "src/r/a.rs"]
            elif x == "bothpkgs":
                fs = {"Cargo.toml": "[workspace]\nmembers = [\"p\", \"q\"]\n", "p/Cargo.toml": cargo_toml("p"), "q/Cargo.toml": cargo_toml("q"), "p/src/lib.rs": "mod a;\n" + code("p"), "p/src/a.rs": code("pa"), "q/src/lib.rs": "mod a;\n" + code("q"), "q/src/a/mod.rs": code("qa")}
                exp = ["p/src/lib.rs", "p/src/a.rs", "q/src/lib.rs", "q/src/a/mod.rs"]
                pk = [dict(name="p", dir="p", targets=[("lib", "p", "src/lib.rs")]), dict(name="q", dir="q", targets=[("lib", "q", "src/lib.rs")])]
            elif x == "targetoutside":
                fs["../other/main.rs"] = code("other")
                fs["src/lib.rs"] = "mod a;\n" + code("lib")
                tg = [L, ("bin", "o", "../other/main.rs")]
            elif x == "fnpath":
                fs["src/lib.rs"] = "mod a;\n" + code("lib").replace("    a == b", "    a == b") + "fn g() {}\n"
            elif x == "cfg":
                fs["src/lib.rs"] = "#[cfg(test)]\nmod b;\n#[cfg(unix)]\nmod a;\n#[cfg(test)]\nmod q { mod z; }\n" + code("lib")
                fs["src/q/z.rs"] = code("z")
            elif x == "cycle2bins":
                fs["src/lib.rs"] = "mod a;\n" + code("lib")
                fs["src/main.rs"] = "#[path = \"lib.rs\"]\nmod l;\n" + code("main")
                tg, exp = [L, M], ["src/lib.rs", "src/main.rs", "src/a.rs"]
            if pk is None:
                pk = [dict(name="ws", dir=".", targets=tg)]
        spec = {p: c for p, c in fs.items() if not p.startswith("..")}
        lab = Lab(R, spec, packages=pk)
        for p, c in fs.items():
            if p.startswith(".."):
                full = os.path.normpath(os.path.join(lab.root, p))
                os.makedirs(os.path.dirname(full), exist_ok=True)
                with open(full, "w") as f:
                    f.write(c)
        v = self.compare(R, lab, exp, what)
        if k == "special" and case["x"] == "bothpkgs":
            fl, _ = self.listed(R, lab)
            for f in fl:
                if f["package"] != f["path"][0]:
                    v.append("%s: %s is listed for package %s" % (what, f["path"], f["package"]))
        return dict(viol=v, n=1, states=[h(what)], transitions=len(exp), nontrivial=[h(what)], sample=dict(case=case, files=exp))

    def tools_env(self, R):
        e = dict(R.t.env)
        e.pop("LD_PRELOAD", None)
        return e


CHECK = C()
