from runs import *
import itertools, json
import rgen
from rgen import Src, binop, unop, seq, paren, match_, quiet

# markers: text, kinds of place it applies to ("fn" only for #[test]), marks?
SKIP = ["#[mutants::skip]", "#[cfg_attr(test, mutants::skip)]", "#[cfg_attr(feature = \"x\", mutants::skip)]", "#[cfg_attr(all(unix, not(test)), mutants::skip)]", "#[cfg_attr(any(a, b), inline, mutants::skip)]",
        "#[cfg_attr(unix, mutants::skip, allow(dead_code))]", "#[cfg_attr(test, deprecated(note = \"x, y\"), mutants::skip,)]", "#[cfg_attr(\n    test,\n    mutants :: skip\n)]", "#[inline]\n#[mutants::skip]", "#[mutants::skip]\n#[inline]",
        "/// doc\n#[mutants::skip]\n/// more", "#[mutants::skip] // why\n#[allow(dead_code)]"]
CFGTEST = ["#[cfg(test)]", "#[cfg(test,)]", "#[cfg(all(test, unix))]", "#[cfg(all(feature = \"x\", all(not(unix), test)))]", "#[allow(unused)]\n#[cfg(test)]"]
TESTFN = ["#[test]", "#[test]\n#[should_panic]", "#[ignore]\n#[test]"]
NOT = ["#[cfg(not(test))]", "#[cfg(unix)]", "#[cfg(feature = \"test\")]", "#[cfg(all(unix, not(test)))]", "#[cfg_attr(test, inline)]", "#[cfg_attr(test, allow(dead_code))]", "#[doc = \"mutants::skip\"]", "#[skip]", "#[mutants]",
       "#[mutants::keep]", "#[other::skip]", "#[allow(test)]", "#[testing]", "#[cfg_attr(mutants, skip)]", "#[cfg_attr(feature = \"mutants::skip\", inline)]", "/// #[mutants::skip]\n/// #[test]\n/// #[cfg(test)]", "// #[mutants::skip]",
       "#[must_use]", "#[cfg(tests)]", "#[cfg_attr(test, must_use = \"test\")]", "#[allow(dead_code)] /* #[test] */",
       "#[tokio::test]", "#[a::b::test]", "#[a::mutants::skip]", "#[mutants::skip::all]", "#[cfg(any(test, feature = \"x\"))]", "#[cfg(any(unix, all(test, unix)))]", "#[cfg(all(unix, any(test, windows)))]", "#[cfg(not(all(test, unix)))]",
       "#[cfg_attr(not(test), a::mutants::skip)]", "#[test_case(1)]", "#[cfg(doctest)]", "#[cfg(all())]", "#[doc(test)]", "#[allow(mutants::skip)]"]
FILL = ["#[inline]", "/// doc", "#[allow(dead_code)]", "#[cfg(unix)]", "/** more */", "#[must_use]", "#[cfg_attr(test, inline)]", "#[doc = \"x\"]", "#[deprecated(note = \"test\")]"]
FNK = ("fn", "method", "tmethod")
INNER = ["#![mutants::skip]", "#![cfg(test)]", "#![cfg_attr(test, mutants::skip)]", "#![cfg(all(test, unix))]", "#![cfg_attr(feature = \"x\", mutants::skip)]"]
INNER_NOT = ["#![allow(dead_code)]", "#![cfg(not(test))]", "#![cfg_attr(test, allow(dead_code))]", "#![doc = \"#[cfg(test)]\"]"]

ITEMS = ["mod", "impl", "implT", "trait", "fn"]
EXPRS = ["call", "mcall", "unary", "match", "block"]


def chains(maxd):
    """Nestings of containers, outermost first."""
    def child(k):
        if k in ("file", "mod"):
            return ITEMS
        if k == "fn" or k in ("method", "tmethod"):
            return ITEMS + EXPRS
        if k in ("impl", "implT"):
            return ["method"]
        if k == "trait":
            return ["tmethod"]
        return EXPRS[:4] if k != "block" else ["fn", "call"]
    def rec(pre):
        if pre:
            yield pre
        if len(pre) < maxd:
            for c in child(pre[-1] if pre else "file"):
                yield from rec(pre + [c])
    return rec([])


class Gen:
    """Emits a chain with marks, with unmarked siblings around every level."""
    def __init__(self, s):
        self.s, self.n = s, 0

    def nm(self, p="f"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def stmts(self):
        return seq("let x = ", binop("+", "a", "b"), ";\n    let y = ", unop("!", "z"), ";\n    ", match_("w", [("1", "p", "2", True), ("4", None, "5", True), ("_", None, "3", True)]), "\n    ")

    def leaf(self, kind, pre="", skip=False, name=None, head="fn ", attrs=""):
        self.s.fn(name or self.nm(), "bool", seq(self.stmts(), "x"), ["true", "false"], attrs=attrs, pre=pre, skip=skip, head=head)

    def sib(self, ctx):
        if ctx in ("file", "mod", "fn", "method", "tmethod", "impl", "implT", "trait"):
            self.leaf(ctx)
        elif ctx == "expr":
            self.s.ex(binop("*", "q", "r"))

    def emit(self, chain, marks, i=0, ctx="file"):
        """marks: level -> (text, suppresses, inner)"""
        s = self.s
        k = chain[i]
        text, off, inner = marks.get(i, ("", False, False))
        attr = text + "\n" if text and not inner else ""
        ins = text + "\n" if text and inner else ""
        last = i == len(chain) - 1

        def inside(c):
            def f(_):
                if last:
                    self.sib(c)
                else:
                    self.sib(c)
                    self.emit(chain, marks, i + 1, c)
                    self.sib(c)
            return f
        if k == "mod":
            n = self.nm("m")
            s.w(attr)
            s.block("mod " + n, n, seq(ins, inside("mod")), skip=off)
        elif k == "impl":
            s.w(attr)
            s.block("impl Foo", "Foo", seq(ins, inside("impl")), skip=off)
        elif k == "implT":
            s.w(attr)
            s.block("impl Bar for Foo", "<impl Bar for Foo>", seq(ins, inside("implT")), skip=off)
        elif k == "trait":
            n = self.nm("T")
            s.w(attr)
            s.block("trait " + n, n, seq(ins, inside("trait")), skip=off)
        elif k in FNK:
            s.fn(self.nm(), "bool", FnBody(self, chain, marks, i, last), ["true", "false"], attrs=attr, skip=off, inner=ins)
        else:
            self.expr(chain, marks, i, stmt=True)
            s.w(";\n" if k not in ("match", "block") else "\n")

    def expr(self, chain, marks, i, stmt=False):
        s = self.s
        k = chain[i]
        text, off, inner = marks.get(i, ("", False, False))
        last = i == len(chain) - 1

        def inside():
            if last:
                s.ex(binop("-", "c", "d"))
            elif chain[i + 1] in EXPRS:
                self.expr(chain, marks, i + 1)
        with s.skipped(off):
            s.w(text + ("\n" if "\n" in text or "//" in text else " ") if text else "")
            if k == "call":
                s.w("g(")
                s.ex(binop("<", "e", "f"))
                s.w(", ")
                inside()
                s.w(", ")
                s.ex(unop("-", "h"))
                s.w(")")
            elif k == "mcall":
                s.w("x.m(")
                inside()
                s.w(").n(")
                s.ex(binop("^", "e", "f"))
                s.w(")")
            elif k == "unary":
                s.ex(unop("!", lambda q: (q.w("("), inside(), q.w(")"))))
            elif k == "match":
                s.ex(match_(lambda q: (q.w("("), inside(), q.w(")")), [("1", binop(">", "a", "b"), "2", True), ("2", None, "4", True), ("_", None, unop("-", "3"), True)]))
            elif k == "block":
                s.w("{\n")
                if last:
                    self.sib("fn")
                elif chain[i + 1] == "fn":
                    self.sib("fn")
                    self.emit(chain, marks, i + 1, "fn")
                    self.sib("fn")
                else:
                    s.w("let k = ")
                    s.ex(binop("/", "c", "d"))
                    s.w(";\n")
                    self.emit(chain, marks, i + 1, "fn")
                s.w("}")


def FnBody(g, chain, marks, i, last):
    def f(s):
        s.ex(g.stmts())
        if not last:
            g.emit(chain, marks, i + 1, "fn")
        s.w("let u = ")
        s.ex(binop("%", "c", "d"))
        s.w(";\n    x")
    return f


def applicable(text, kind):
    if text in TESTFN:
        return kind in FNK
    return True


def rust_ok(kind, text):
    """Expressions take outer attributes only, and doc comments or comment-only text not at all."""
    if kind in EXPRS:
        return kind != "block" and not text.startswith("//")
    return True


CALLS = [("g(%s)", "g"), ("a::b::g(%s)", "g"), ("g::<u8>(%s)", "g"), ("Vec::<String>::g(%s)", "g"), ("<T as U>::g(%s)", "g"), ("self.g(%s)", "g"), ("x.y.g::<u8>(%s)", "g"), ("x()?.g(1, %s)", "g"), ("::g(0, %s, 1)", "g"), ("g(%s).h()", "g"), ("h(g(%s))", "g"),
         ("&g(%s)", "g"), ("return g(%s)", "g"), ("vec.iter().map(|i| g(%s))", "g"), ("if g(%s) { 1 } else { 2 }", "g"), ("S { f: g(%s) }", "g"), ("[g(%s)]", "g"), ("g(%s) as u8", "g")]
NOCALLS = ["g!(%s)", "gg(%s)", "g::h(%s)", "x.gg(%s)", "x.g[%s]", "g[%s]", "h(%s).g", "(g)(%s)", "G(%s)", "g_(%s)", "x.h(g, %s)", "h(%s, g())", "g::<u8>::h(%s)", "(x.g)(%s)"]


class C(Check):
    id = "C16"
    level = "exploration"
    batch = 1
    rule = ("programs generated with their expected mutants: every nesting of modules, impls, traits, functions and call, unary and match expressions to the depth bound, with every marker (and near-miss) on every level, and with every pair "
            "of marked levels, the marker at every position among up to nine attributes, unmarked siblings before and after each level; plus markers inside files, on external modules, and skipped calls; the tool's listing must be exactly the unmarked mutants; non-trivial when something is marked")
    assumptions = ["attribute conditions are not evaluated: cfg_attr marks whatever its condition, cfg marks only if the condition implies test through `all`", "the receiver of a skipped method call is not examined either way"]

    def bounds_for(self, tier):
        return dict(depth=3 if tier == "quick" else 4, markers=len(SKIP) + len(CFGTEST) + len(TESTFN), near_misses=len(NOT), marked_levels=2)

    def cases(self, tier):
        d = 3 if tier == "quick" else 4
        for ch in chains(d):
            for lv in range(len(ch)):
                yield dict(kind="one", chain=ch, level=lv, full=len(ch) <= 2 or tier != "quick" and len(ch) <= 3)
        for ch in chains(d):
            if len(ch) > 1:
                yield dict(kind="pairs", chain=ch)
        for ch in chains(2):
            for lv in range(len(ch)):
                if ch[lv] != "block":
                    yield dict(kind="many", chain=ch, level=lv, max=4 if tier == "quick" and len(ch) > 1 else 9)
        for t in INNER + INNER_NOT:
            for depth in (0, 1, 2):
                yield dict(kind="file", text=t, depth=depth)
        for t in SKIP + CFGTEST + NOT:
            for shape in ("mod", "inmod", "inmod2", "infile", "nest2", "nest3", "outer2", "outer3", "nestfile"):
                yield dict(kind="ext", text=t, shape=shape)
        for c in ("unsafe", "default", "new"):
            yield dict(kind="special", c=c)
        for how in ("cli", "cli2", "config", "both", "default", "nodefault", "nodefaultcfg", "clifalse+cli"):
            yield dict(kind="calls", how=how)

    # -- program builders
    def one(self, case):
        s = Src()
        g = Gen(s)
        ch, lv = case["chain"], case["level"]
        k = ch[lv]
        ms = [(t, True, False) for t in (SKIP + CFGTEST if case["full"] else SKIP[:4] + SKIP[6:7] + CFGTEST[:1] + CFGTEST[2:3])] + [(t, True, False) for t in (TESTFN if case["full"] else TESTFN[:1])]
        ms += [(t, False, False) for t in (NOT if case["full"] else NOT[:4] + NOT[5:6])]
        if k in ("mod", "impl", "implT") + FNK:
            ms += [(t, True, True) for t in INNER] + [(t, False, True) for t in INNER_NOT]
        for m in ms:
            if applicable(m[0], k) and rust_ok(k, m[0]):
                g.emit(ch, {lv: m})
                g.leaf("file")
        return s

    def many(self, case):
        """The marker at every position among up to `max` attributes."""
        s = Src()
        g = Gen(s)
        ch, lv = case["chain"], case["level"]
        k = ch[lv]
        for n in range(1, case["max"] + 1):
            for pos in range(n):
                for t in (SKIP[0], SKIP[1], CFGTEST[0], TESTFN[0], NOT[0]):
                    if not applicable(t, k):
                        continue
                    fill = FILL[:n - 1]
                    if k in EXPRS:
                        fill = [x for x in fill if x.startswith("#")] + ["#[allow(unused)]"] * sum(1 for x in fill if not x.startswith("#"))
                    t2 = "\n".join(fill[:pos] + [t] + fill[pos:])
                    g.emit(ch, {lv: (t2, t not in NOT, False)})
                    g.leaf("file")
        return s

    def pairs(self, case):
        s = Src()
        g = Gen(s)
        ch = case["chain"]
        for i, j in itertools.combinations(range(len(ch)), 2):
            for a in (SKIP[0], CFGTEST[0], NOT[0]):
                for b in (SKIP[1], CFGTEST[0], TESTFN[0]):
                    if applicable(b, ch[j]) and rust_ok(ch[i], a) and rust_ok(ch[j], b):
                        g.emit(ch, {i: (a, a not in NOT, False), j: (b, True, False)})
                        g.leaf("file")
        return s

    def special(self, c):
        s = Src()
        g = Gen(s)
        L = lambda **k: (lambda q: g.leaf("x", **k))
        if c == "unsafe":
            for pre in ("unsafe ", "pub unsafe ", "pub(crate) unsafe extern \"C\" ", "const unsafe ", "async unsafe "):
                g.leaf("file", pre=pre, skip=True)
                g.leaf("file")
                s.block("impl Foo", "Foo", seq(L(), L(pre=pre, skip=True), L()))
                s.fn(g.nm(), "bool", seq(g.stmts(), L(pre=pre, skip=True), "unsafe { ", binop("+", "a", "b"), " };\nx"), ["true", "false"])
                s.fn(g.nm(), "bool", seq(g.stmts(), L(), "x"), ["true", "false"], pre=pre, skip=True)
            for pre in ("unsafe ", "unsafe extern \"C\" "):
                s.block("trait T", "T", seq(L(), L(pre=pre, skip=True), L()))
            s.block("unsafe impl Send for Foo", "<impl Send for Foo>", L())
            s.block("unsafe trait Q", "Q", L())
            s.fn(g.nm(), "bool", seq("unsafe {\n    ", g.stmts(), "x\n    }"), ["true", "false"])
            s.fn(g.nm(), "bool", seq("let u: unsafe fn() = k;\n    ", g.stmts(), "x"), ["true", "false"], params="(f: unsafe fn(u8))")
            s.w("extern \"C\" {\n    fn c(a: u8);\n}\nunsafe extern \"C\" {\n    fn c(a: u8);\n}\n")
            g.leaf("file")
        elif c == "default":
            for t in ("Default", "std::default::Default", "::core::default::Default"):
                for ty in ("Foo", "Foo<T>", "[u8; 4]"):
                    s.block("impl%s %s for %s" % ("<T>" if "<" in ty else "", t, ty), "x", seq(L(name="default"), L(name="other"), "const Z: u8 = ", binop("+", "1", "2"), ";\n"), skip=True)
                    g.leaf("file")
                    s.block("mod m%s" % g.nm("d"), "m%s" % ("d%d" % g.n), lambda q: (q.block("impl %s for Foo" % t, "x", L(), skip=True), g.leaf("mod")))
            for hd, ns in (("impl DefaultExt for Foo", "<impl DefaultExt for Foo>"), ("impl From<Default> for Foo", "<impl From<Default> for Foo>"), ("impl Default", "Default"), ("impl Foo for Default", "<impl Foo for Default>"), ("impl Foo", "Foo"),
                           ("impl Default::Foo for X", "<impl Default::Foo for X>"), ("trait Default", "Default"), ("mod Default", "Default"), ("impl Tr for Foo<Default>", "<impl Tr for Foo<Default>>")):
                s.block(hd, ns, seq(L(name="default"), L()))
            g.leaf("file", name="default")
        elif c == "new":
            for hd, ns in (("impl Foo", "Foo"), ("impl New for Foo", "<impl New for Foo>"), ("trait N", "N"), ("impl<T> Foo<T>", "Foo<T>")):
                for pre in ("", "pub ", "const ", "async "):
                    if hd.startswith("trait") and pre in ("pub ",):
                        continue
                    s.block(hd, ns, seq(L(), L(name="new", skip=True, pre=pre), L(name="newer"), L(name="renew", pre=pre), L(name="new_with"), L(name="New"), lambda q: q.fn("new", "bool", seq(L(), "x"), [], skip=True), L()))
            g.leaf("file", name="new")
            s.block("mod new", "new", L(name="new"))
            s.block("mod nn", "nn", seq(L(name="new"), lambda q: q.block("impl X", "X", L(name="new", skip=True)), L()))
            s.fn("outer", "bool", seq(g.stmts(), L(name="new"), "x"), ["true", "false"])
            s.block("impl Foo", "Foo", lambda q: q.fn("build", "bool", seq(L(name="new"), "x"), ["true", "false"]))
        return s

    def run_case(self, R, case):
        k = case["kind"]
        fs = {"Cargo.toml": cargo_toml("ws")}
        exp, args, allow = {}, [], None
        if k in ("one", "many", "pairs", "special"):
            s = self.one(case) if k == "one" else self.many(case) if k == "many" else self.pairs(case) if k == "pairs" else self.special(case["c"])
            fs["src/lib.rs"] = s.text()
            exp["src/lib.rs"] = s.exp
        elif k == "file":
            off = case["text"] in INNER
            paths = ["src/lib.rs", "src/a.rs", "src/a/b.rs", "src/a/b/c.rs"]
            for i, p in enumerate(paths[:4]):
                s = Src()
                s.off = 1 if off and i >= case["depth"] else 0
                s.w(case["text"] + "\n" if i == case["depth"] else "")
                Gen(s).leaf("file", name="k%d" % i)
                s.w("mod %s;\n" % "abc"[i] if i < 3 else "")
                Gen(s).leaf("file", name="l%d" % i)
                fs[p] = s.text()
                exp[p] = s.exp
            vis = paths[:case["depth"] + 1] if off else paths
            allow = (set(vis), set(paths[:case["depth"]]) if off else set(paths))
        elif k == "ext":
            off = case["text"] not in NOT
            t = case["text"] + "\n"
            lib = Src()
            g = Gen(lib)
            g.leaf("file")
            shape = case["shape"]
            if shape == "mod":
                lib.w(t + "mod a;\n")
                p = "src/a.rs"
            elif shape == "inmod":
                lib.w(t + "mod q {\n    mod a;\n}\n")
                p = "src/q/a.rs"
            elif shape == "inmod2":
                lib.block("mod q", "q", seq(lambda q: g.leaf("mod"), t + "mod a;\n", lambda q: g.leaf("mod")))
                p = "src/q/a.rs"
            elif shape[:-1] in ("nest", "outer"):
                # deeper nests of inline modules, with the mark on the module's declaration or on the outermost one, and unmarked neighbours on each level
                names = ["q", "r", "s"][:int(shape[-1])]

                def nest(i):
                    def f(q):
                        q.w("mod n%d;\n" % i)
                        g.leaf("mod")
                        if i + 1 < len(names):
                            q.block("mod " + names[i + 1], names[i + 1], nest(i + 1))
                        else:
                            q.w((t if shape[0] == "n" else "") + "mod a;\n")
                        g.leaf("mod")
                    return f
                marked = shape[0] == "o"
                lib.w(t if marked else "")
                lib.block("mod q", "q", nest(0), skip=marked and off)
                for i in range(len(names)):
                    x = Src()
                    x.off = 1 if marked and off else 0
                    Gen(x).leaf("file", name="n%d" % i)
                    f = "src/%s/n%d.rs" % ("/".join(names[:i + 1]), i)
                    fs[f], exp[f] = x.text(), x.exp
                p = "src/%s/a.rs" % "/".join(names)
            elif shape == "nestfile":
                lib.w("mod z;\n")
                z = Src()
                z.w("mod y {\n" + t + "mod a;\nmod c;\n}\n")
                Gen(z).leaf("file", name="zz")
                fs["src/z.rs"], exp["src/z.rs"] = z.text(), z.exp
                c = Src()
                Gen(c).leaf("file", name="cc")
                fs["src/z/y/c.rs"], exp["src/z/y/c.rs"] = c.text(), c.exp
                p = "src/z/y/a.rs"
            else:
                lib.w("mod z;\n")
                z = Src()
                z.w(t + "mod a;\nmod c;\n")
                Gen(z).leaf("file", name="zz")
                fs["src/z.rs"], exp["src/z.rs"] = z.text(), z.exp
                c = Src()
                Gen(c).leaf("file", name="cc")
                fs["src/z/c.rs"], exp["src/z/c.rs"] = c.text(), c.exp
                p = "src/z/a.rs"
            lib.w("mod b;\n")
            g.leaf("file")
            fs["src/lib.rs"], exp["src/lib.rs"] = lib.text(), lib.exp
            a = Src()
            a.off = 1 if off else 0
            Gen(a).leaf("file", name="aa")
            fs[p], exp[p] = a.text(), a.exp
            b = Src()
            Gen(b).leaf("file", name="bb")
            fs["src/b.rs"], exp["src/b.rs"] = b.text(), b.exp
            vis = set(exp) - ({p} if off else set()) - ({x for x in exp if x.startswith("src/q/")} if off and shape[0] == "o" else set())
            allow = (vis, vis)
        elif k == "calls":
            how = case["how"]
            names = dict(cli=["g", "with_capacity"], cli2=["q1", "g", "q2", "with_capacity"], config=["g", "with_capacity"], both=["g", "z1", "with_capacity"], default=["with_capacity"], nodefault=[], nodefaultcfg=[])
            names["clifalse+cli"] = ["g"]
            names = names[how]
            cfg = ""
            if how in ("cli", "both", "clifalse+cli"):
                args += ["--skip-calls=g"]
            if how == "cli2":
                args += ["--skip-calls=q1,g", "--skip-calls", "q2"]
            if how == "config":
                cfg = 'skip_calls = ["g"]\n'
            if how == "both":
                cfg = 'skip_calls = ["z1"]\n'
            if how in ("nodefault", "clifalse+cli"):
                args += ["--skip-calls-defaults=false"]
            if how == "nodefaultcfg":
                cfg = "skip_calls_defaults = false\n"
            if cfg:
                fs[".cargo/mutants.toml"] = cfg
            s = Src()
            g = Gen(s)
            for call in ("g", "with_capacity", "z1", "q1", "q2"):
                for form, _ in CALLS:
                    a, b = form.replace("g", call).replace("vec.iter().map", "v.it") .split("%s") if form != "vec.iter().map(|i| g(%s))" else ("vec.iter().map(|i| %s(" % call, "))")
                    for arg in (binop("+", "1", "2"), unop("-", "i"), match_("w", [("1", "p", "2", True), ("4", None, "5", True), ("_", None, "3", True)]), seq("|| ", binop("<", "(k)", "l")), seq("h(", binop("&", "1", "2"), ")")):
                        inner = quiet(arg) if call in names else arg
                        s.fn(g.nm(), "", seq(binop("/", "c", "d"), ";\n    ", a, inner, b, ";\n    k = ", binop("<<", "e", "f"), ";"), ["()"])
                for form in NOCALLS:
                    a, b = form.replace("g", call).replace("G", call.upper()).split("%s")
                    arg = binop("+", "1", "2")
                    s.fn(g.nm(), "", seq(a, quiet(arg) if "!" in a else arg, b, ";\n    k = ", binop("<<", "e", "f"), ";"), ["()"])
            fs["src/lib.rs"], exp["src/lib.rs"] = s.text(), s.exp
        lab = Lab(R, fs)
        r, ms = R.list(lab.case, lab.root, args)
        if ms is None:
            return dict(viol=["listing failed: exit %s %s; source starts %r" % (r.code, r.err[-300:], fs["src/lib.rs"][:200])], n=1)
        v = []
        n = 0
        for p, e in exp.items():
            v += rgen.compare(e, ms, "%s %s" % (json.dumps(case), p), file=p)
            n += fs[p].count("fn ")
        others = {m["file"] for m in ms} - set(exp)
        if others:
            v.append("mutants in unexpected files %s" % others)
        if allow:
            lf = R.simple(lab.case, lab.root, ["--list-files"] + args)
            got = set(lf.out.splitlines())
            if not allow[1] <= got <= allow[0]:
                v.append("%s: --list-files shows %s, expected %s" % (json.dumps(case), sorted(got), sorted(allow[0])))
        exps = sum(len(e) for e in exp.values())
        return dict(viol=v, n=max(1, n), states=[h((case, i)) for i in range(n)], transitions=exps, nontrivial=[h((case, i)) for i in range(n)], extra=dict(mutants_compared=exps), sample=dict(case=case, functions=n, mutants=exps, text=fs["src/lib.rs"][:200]))


CHECK = C()
