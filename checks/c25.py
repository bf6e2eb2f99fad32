from runs import *
import rgen
from rgen import *

OPERANDS = ["a", "1", "f()", "x.y", "x[0]", "x.m()", "(a)", "a as u8", "&a", "*a", "b'c'", "\"s\"", "[1]", "Foo::BAR", "a?", "T::<u8>::f()", "x.0", "if a { 1 } else { 2 }", "{ 1 }", "vec![1 + 2]", "|x| x", "(1, 2)"]
# operands that cannot stand bare on the left of a comparison, or at the start of a statement
NOLEFT = {"a as u8", "if a { 1 } else { 2 }", "{ 1 }", "|x| x", "&a", "*a"}


def contexts():
    """name -> wrapper(e): statement(s) containing e once"""
    return {
        "tail": lambda e: e, "stmt": lambda e: seq("g();\n    ", e, ";"), "let": lambda e: seq("let v = ", e, ";"), "lettyped": lambda e: seq("let v: [u8; 2] = ", e, ";"),
        "if": lambda e: seq("if ", e, " { g() }"), "while": lambda e: seq("while ", e, " { g() }"), "ret": lambda e: seq("return ", e, ";"), "closure": lambda e: seq("let c = |q: u8| ", e, ";"),
        "closureblk": lambda e: seq("let c = move || { ", e, " };"), "arr": lambda e: seq("let v = [0, ", e, "];"), "arrlen": lambda e: seq("let v = [0; ", paren(e), "];"),
        "tuple": lambda e: seq("let v = (0, ", e, ");"), "arg": lambda e: seq("g(", e, ");"), "marg": lambda e: seq("x.g(1, ", e, ");"), "recv": lambda e: seq(paren(e), ".g();"),
        "index": lambda e: seq("x[", e, "];"), "field": lambda e: seq("let v = S { a: ", e, ", ..q };"), "range": lambda e: seq("for i in 0..", paren(e), " { g() }"),
        "forexpr": lambda e: seq("for i in ", e, " { g() }"), "loop": lambda e: seq("'l: loop { break 'l ", e, "; }"), "async": lambda e: seq("let v = async { ", e, " };"),
        "unsafe": lambda e: seq("unsafe { ", e, " }"), "block": lambda e: seq("{ { ", e, " } }"), "scrut": match_ctx, "guard": guard_ctx, "armbody": arm_ctx,
        "else": lambda e: seq("if a { 1 } else { ", e, " }"), "iflet": lambda e: seq("if let Some(_) = ", e, " { g() }"), "letelse": lambda e: seq("let Some(q) = ", paren(e), " else { return };"),
        "question": lambda e: seq(paren(e), "?;"), "await": lambda e: seq(paren(e), ".await;"), "cast": lambda e: seq("let v = ", paren(e), " as u8;"), "constitem": lambda e: seq("const Q: u8 = ", e, ";\n    g();"),
        "static": lambda e: seq("static Q: u8 = ", e, ";\n    g();"), "addrof": lambda e: seq("let v = &mut ", paren(e), ";"), "deref": lambda e: seq("*", paren(e), " = 1;"), "assign": lambda e: seq("y = ", e, ";"),
        "lhsidx": lambda e: seq("y[", e, "] = 1;"), "constblk": lambda e: seq("let v = const { ", e, " };"), "callee": lambda e: seq(paren(e), "(1);"),
        "turbofish": lambda e: seq("g::<{ ", e, " }>();"), "typelen": lambda e: seq("let v: [u8; ", paren(e), "] = q;"), "closurearg": lambda e: seq("x.map(|q| ", e, ").collect();"),
        "macro": lambda e: seq("assert!(", quiet(e), ");"), "macro2": lambda e: seq("vec![", quiet(e), "];"), "macrostmt": lambda e: seq("println!(\"{}\", ", quiet(e), ")"),
        "structpat": lambda e: seq("let S { a, .. } = ", paren(e), ";"), "group": lambda e: paren(paren(e)), "neg": lambda e: unop("-", paren(e)), "not": lambda e: unop("!", paren(e)), "star": lambda e: unop("*", paren(e)),
        "ret2": lambda e: seq("let r = || return ", e, ";"), "labelblk": lambda e: seq("'b: { if q { break 'b ", e, "; } 1 }"), "yieldmatch": lambda e: match_("z", [("1", None, e, True), ("x", None, "2", True)]),
    }


def match_ctx(e):
    return match_(e, [("1", None, "2", True), ("x", None, "3", True)])


def guard_ctx(e):
    return match_("z", [("1", e, "2", True), ("x", None, "3", True)])


def arm_ctx(e):
    return match_("z", [("1", None, seq("{ ", e, " }"), False), ("_", None, "3", True)])


FNKINDS = ["free", "pub", "crate", "const", "async", "extern", "generic", "where", "method", "traitimpl", "traitdef", "mod", "mod2", "nested", "deep", "nestedmod", "implgen", "implgentrait", "inconst", "closurefn", "macroctx",
           "rawident", "unicode", "doc", "assocconst"]


def emit_fn(s, kind, name, ret, body, reps, params="(&self)"):
    F = lambda **k: (lambda q: q.fn(name, ret, body, reps, **k))
    if kind == "free":
        F()(s)
    elif kind == "pub":
        F(pre="pub ")(s)
    elif kind == "crate":
        F(pre="pub(crate) ")(s)
    elif kind == "const":
        F(pre="const ")(s)
    elif kind == "async":
        F(pre="pub async ")(s)
    elif kind == "extern":
        F(pre='extern "C" ')(s)
    elif kind == "generic":
        F(params="<T, const N: usize>(a: T)")(s)
    elif kind == "where":
        F(post=" where T: X")(s)
    elif kind == "method":
        s.block("impl Foo", "Foo", F(params=params))
    elif kind == "traitimpl":
        s.block("impl fmt::Display for Foo", "<impl fmt::Display for Foo>", F(params=params))
    elif kind == "traitdef":
        s.block("pub trait Tr", "Tr", seq("    fn other(&self) -> bool;\n", F(params=params)))
    elif kind == "mod":
        s.block("mod m_" + name, "m_" + name, F())
    elif kind == "mod2":
        s.block("pub mod m_" + name, "m_" + name, lambda q: q.block("mod inner", "inner", lambda r: r.block("impl Foo", "Foo", F())))
    elif kind == "nested":
        s.fn("outer_" + name, "", seq(F(), "g();"), ["()"])
    elif kind == "deep":
        # functions in functions, alternating with other items
        def level(i):
            def f(q):
                q.w("let _ = ")
                q.ex(binop("+", "a", "b"))
                q.w(";\n")
                if i == 6:
                    F()(q)
                    return q.w("g();")
                if i % 3 == 2:
                    q.block("impl Foo", "Foo", lambda r: r.fn("d%d" % i, "", level(i + 1), ["()"]))
                else:
                    q.fn("d%d" % i, "", level(i + 1), ["()"])
                q.fn("after%d" % i, "", "g();", ["()"])
                q.w("g();")
            return f
        s.fn("outer_" + name, "", level(0), ["()"])
    elif kind == "nestedmod":
        s.fn("outer_" + name, "", seq("mod q {}\n    ", lambda q: q.block("impl Foo", "Foo", F()), "g();"), ["()"])
    elif kind == "implgen":
        s.block("impl<T: Clone> Foo<T>", "Foo<T>", F())
    elif kind == "implgentrait":
        s.block("impl<'a, T> From<&'a T> for Foo<T> where T: X", "<impl From<&'a T> for Foo<T>>", F())
    elif kind == "inconst":
        s.w("const _: () = {\n")
        F()(s)
        s.w("};\n")
    elif kind == "closurefn":
        s.w("static C: fn() = || {\n")
        F()(s)
        s.w("};\n")
    elif kind == "macroctx":
        s.w("m! {\n")
        quiet(F())(s)
        s.w("}\n")
    elif kind == "rawident":
        s.fn("r#" + name, ret, body, reps)
    elif kind == "unicode":
        s.fn(name + "\u00e9\u4e2d", ret, body, reps)
    elif kind == "doc":
        F(attrs="/// Doc \u00e9.\n#[inline]\n#[must_use]\n")(s)
    elif kind == "assocconst":
        s.block("impl Foo", "Foo", seq("    const Q: bool = ", binop("==", "1", "2"), ";\n", F()))


class C(Check):
    id = "C25"
    level = "exploration"
    batch = 1
    rule = ("programs generated from a grammar together with the mutants the documented rules give them: all return types over the documented constructors to the depth bound, every operator in every operand shape and context, all pairs of "
            "nested operators, all match shapes up to the arm bound, in every kind of function; the real tool's JSON listing must be exactly that multiset; non-trivial when mutants are expected")
    assumptions = ["the documented tables are those of the book plus NEWS (`<` also to `<=`, `>` also to `>=`)", "spacing inside names and replacements is not compared, only tokens"]

    def bounds_for(self, tier):
        return dict(type_depth=2 if tier == "quick" else 3, match_arms=3, operator_nesting=2, contexts=len(contexts()), fn_kinds=len(FNKINDS))

    def cases(self, tier):
        yield dict(kind="leaves")
        names = sorted(UNARY)
        for u in names:
            yield dict(kind="types", chain=[u])
        for u in names:
            for v in names:
                yield dict(kind="types", chain=[u, v], short=True)
        if tier != "quick":
            for u in names:
                for v in names:
                    yield dict(kind="types", chain=[u, v])
            for c in itertools.product(names, repeat=3):
                yield dict(kind="types", chain=list(c), short=True)
        for b in sorted(BINARY):
            yield dict(kind="bintypes", b=b)
            for u in (names if tier != "quick" else ["Option", "ref", "Vec", "Result", "Box", "tup1"]):
                yield dict(kind="bintypes", b=b, u=u)
        for errs in (["e1"], ["anyhow!(\"x, y\")", "E::A"], ["::a::b(1 + 2)"]):
            for conf in ("cli", "config", "both"):
                yield dict(kind="errors", errs=errs, conf=conf)
        for op in sorted(BIN) + ["="]:
            yield dict(kind="ops", op=op)
        for op in sorted(UN):
            yield dict(kind="unops", op=op)
        for op in sorted(BIN):
            yield dict(kind="nest", op=op)
        for ctx in sorted(contexts()):
            yield dict(kind="ctx", ctx=ctx)
        for k in FNKINDS:
            yield dict(kind="fnkind", k=k)
        yield dict(kind="ctxtop")
        for n in (1, 2, 3) + ((4,) if tier != "quick" else ()):
            for first in range(len(PATS)):
                yield dict(kind="match", n=n, first=first)
        yield dict(kind="matchnest")
        yield dict(kind="same")
        yield dict(kind="empty")

    def build(self, case):
        s = Src()
        k = case["kind"]
        i = [0]

        def nm():
            i[0] += 1
            return "f%d" % i[0]
        args, cfg = [], None
        if k == "leaves":
            for t in LEAVES:
                s.fn(nm(), t[0], "todo()", t[1])
            s.fn(nm(), "", "todo()", ["()"])
            s.fn(nm(), "()", "todo()", ["()"])
        elif k == "types":
            ch = case["chain"]
            for t in (SHORT if case.get("short") else LEAVES):
                x = t
                for u in reversed(ch):
                    x = _special_ok(u, x)
                    if x is None:
                        break
                if x is not None:
                    s.fn(nm(), x[0], "todo()", x[1])
        elif k == "bintypes":
            for a in SHORT:
                for b in SHORT:
                    x, y = a, b
                    if case.get("u"):
                        x, y = _special_ok(case["u"], a), b
                        if x is None:
                            continue
                        z = BINARY[case["b"]](x, y)
                        s.fn(nm(), z[0], "todo()", z[1])
                        z = _special_ok(case["u"], BINARY[case["b"]](a, b))
                        if z is not None:
                            s.fn(nm(), z[0], "todo()", z[1])
                    else:
                        z = BINARY[case["b"]](x, y)
                        s.fn(nm(), z[0], "todo()", z[1])
        elif k == "errors":
            errs = case["errs"]
            if case["conf"] in ("cli", "both"):
                args = ["--error=" + e for e in errs]
            if case["conf"] == "config":
                cfg = "error_values = %s\n" % json.dumps(errs)
            if case["conf"] == "both":
                cfg = "error_values = [\"cfg::E\"]\n"
                errs = None
            for u in ("Result", "Result2", "ioResult", "Option", "Vec", "Box", "ref"):
                for v in ("Result", "Result2", "Option", "arr"):
                    for t in SHORT[:4]:
                        if errs is None:
                            continue
                        x = with_errors(v, t, errs)
                        if u == "ref" and x[0].startswith("["):
                            continue
                        x = with_errors(u, x, errs)
                        s.fn(nm(), x[0], "todo()", x[1])
            if errs is None:
                # command line and configuration add up, in some order: only the set is documented
                x = with_errors("Result", SHORT[0], case["errs"] + ["cfg::E"])
                s.fn(nm(), x[0], "todo()", x[1])
            # every other type constructor too, of every leaf and of every pair: error values only ever appear in a Result
            E = errs or case["errs"] + ["cfg::E"]
            lift = lambda t: (t[0], t[1] + ["Err(%s)" % e for e in E]) if t[0] == "fmt::Result" else t
            for t in LEAVES:
                s.fn(nm(), t[0], "todo()", lift(t)[1])
                for u in sorted(UNARY):
                    if _special_ok(u, t) is not None:
                        x = with_errors(u, lift(t), E)
                        s.fn(nm(), x[0], "todo()", x[1])
            for b in sorted(BINARY):
                for a, c in itertools.product([lift(t) for t in SHORT], repeat=2):
                    z = BINARY[b](a, c)
                    z = (z[0], z[1] + ["Err(%s)" % e for e in E]) if b == "Res" else z
                    s.fn(nm(), z[0], "todo()", z[1])
                    for u in ("Option", "Box", "Result"):
                        if a[0] in ("bool", "u8") and _special_ok(u, z) is not None:
                            x = with_errors(u, z, E)
                            s.fn(nm(), x[0], "todo()", x[1])
        elif k == "ops":
            op = case["op"]
            for a in OPERANDS:
                for b in OPERANDS:
                    l, r = (paren(a) if a in NOLEFT else a), b
                    if op == "=" or op in ASSIGN:
                        s.fn(nm(), "", seq(binop(op, l, r), ";"), ["()"])
                    else:
                        s.fn(nm(), "", seq("let v = ", binop(op, l, r), ";"), ["()"])
        elif k == "unops":
            op = case["op"]
            for a in OPERANDS:
                a2 = paren(a) if a == "a as u8" or a.startswith(("|", "if", "{")) else a
                s.fn(nm(), "", seq("let v = ", unop(op, a2), ";"), ["()"])
                for op2 in UN:
                    s.fn(nm(), "", seq("let v = ", unop(op, unop(op2, a2)), ";"), ["()"])
                    s.fn(nm(), "", seq("let v = ", unop(op, paren(unop(op2, a2))), ";"), ["()"])
        elif k == "nest":
            op = case["op"]
            for op2 in sorted(BIN):
                if op2 in ASSIGN or op in ASSIGN and op2 in ASSIGN:
                    continue
                if op in ASSIGN:
                    s.fn(nm(), "", seq(binop(op, "x", binop(op2, "1", "2")), ";"), ["()"])
                    continue
                for e in (binop(op, paren(binop(op2, "1", "2")), "3"), binop(op, "3", paren(binop(op2, "1", "2"))), binop(op, paren(unop("-", "1")), unop("!", paren(binop(op2, "1", "a")))),
                          binop(op, binop(op, "1", "2") if op not in ("==", "!=", "<", ">", "<=", ">=") else "1", "3")):
                    s.fn(nm(), "bool", e, ["true", "false"])
        elif k == "ctx":
            cx = contexts()[case["ctx"]]
            for op in sorted(BIN):
                if op in ASSIGN:
                    continue
                for f in (lambda e: e, lambda e: unop("!", paren(e))):
                    s.fn(nm(), "u8", cx(f(binop(op, "a", "b"))), ["0", "1"])
            s.fn(nm(), "u8", cx(unop("-", "a")), ["0", "1"])
            s.fn(nm(), "u8", cx(paren(binop("+", unop("-", "a"), "1"))), ["0", "1"])
        elif k == "ctxtop":
            s.w("const A: u8 = ").ex(binop("+", "1", "2")).w(";\nstatic B: bool = ").ex(unop("!", "true")).w(";\n")
            s.w("pub const C: [u8; ").ex(binop("*", "1", "2")).w("] = [0; ").ex(binop("/", "1", "2")).w("];\n")
            s.w("enum E { A = ").ex(binop("<<", "1", "2")).w(", B }\nstruct S { a: [u8; ").ex(binop("|", "1", "2")).w("] }\ntype T = [u8; ").ex(binop("-", "3", "2")).w("];\n")
            s.w("mod m { const D: u8 = ").ex(binop("^", "1", "2")).w("; }\ntrait Q { const X: u8 = ").ex(binop("%", "1", "2")).w("; fn f(a: [u8; 2]); }\n")
            s.w("impl Foo { const X: u8 = ").ex(unop("-", "2")).w("; }\nmacro_rules! m { () => { 1 + 2 }; }\nm!(1 + 2);\nuse a::b;\nextern crate c;\n")
            s.w("fn p(a: [u8; ").ex(lambda q: q.mut("X", (0, 0), (0, 0), "") if False else None).w("3]) {}\n")
        elif k == "fnkind":
            for ret, reps in (("", ["()"]), ("bool", ["true", "false"]), ("Option<Foo>", ["None", "Some(Default::default())"])):
                for body in (binop("+", "a", "b"), seq("let x = ", unop("!", "y"), ";\n        x"), match_("z", [("1", binop(">", "a", "b"), "2", True), ("2", None, "4", True), ("_", None, unop("-", "3"), True)])):
                    emit_fn(s, case["k"], nm(), ret, body, reps)
        elif k == "match":
            n = case["n"]
            for arms in itertools.product(range(len(PATS)), repeat=n - 1):
                arms = [case["first"]] + list(arms)
                for style in (0, 1):
                    s.fn(nm(), "", match_("z", [PATS[a] for a in arms], nl=" " if style else "\n        "), ["()"])
        elif k == "matchnest":
            inner = match_("y", [("1", None, "2", True), ("_", None, "3", True)])
            inner2 = match_("y", [("a", binop("==", "1", "2"), "2", True), ("b", None, "3", True)])
            for x in (inner, inner2):
                for y in (inner, inner2):
                    s.fn(nm(), "", match_(x, [("1", None, y, True), ("_", None, "3", True)]), ["()"])
                    s.fn(nm(), "", match_("z", [("1", seq("(", x, ")"), y, True), ("_", None, "3", True)]), ["()"])
                    s.fn(nm(), "", match_("z", [("1", None, seq("{ ", y, " }"), False), ("2", None, seq("if a { 1 } else { ", x, " }"), False), ("_", None, "3", True)]), ["()"])
        elif k == "same":
            for ret, body, left in (("bool", "true", ["false"]), ("bool", "false", ["true"]), ("bool", "{ true }", ["true", "false"]), ("u8", "0", ["1"]), ("i8", "-1", None), ("", "()", []), ("()", "()", []), ("Option<u8>", "None", ["Some(0)", "Some(1)"]),
                                    ("Option<u8>", "Some( 1 )", ["None", "Some(0)"]), ("Vec<u8>", "vec ! [ ]", ["vec![0]", "vec![1]"]), ("String", "String :: new ( )", ['"xyzzy".into()']), ("&str", '""', ['"xyzzy"']), ("bool", "return true", ["true", "false"]),
                                    ("Result<()>", "Ok (())", []), ("u8", "1; 0", ["0", "1"]), ("u8", "0u8", ["0", "1"]), ("bool", "true;", ["true", "false"]), ("Foo", "Default::default()", []), ("(u8, bool)", "(0, true)", ["(0, false)", "(1, true)", "(1, false)"]),
                                    ("bool", "// c\n    true // d", ["false"]), ("bool", "/* a */ true", ["false"])):
                if left is None:
                    s.fn(nm(), ret, unop("-", "1"), ["0", "1"])
                    continue
                if "//" in body or "/*" in body:
                    pre, post = ("// c\n    ", " // d") if "//" in body else ("/* a */ ", "")
                    # the span covers the statements, not the comments around them
                    name = nm()
                    s.w("fn %s() -> %s {\n    %s" % (name, ret, pre))
                    a = s.pos()
                    s.w("true")
                    b = s.pos()
                    s.fns.append(dict(name=name, ret="-> " + ret))
                    s.mut("FnValue", a, b, "false")
                    s.fns.pop()
                    s.w(post + "\n}\n")
                    continue
                s.fn(nm(), ret, body, left)
        elif k == "empty":
            for pre in ("", "pub ", "async ", "const "):
                s.fn(nm(), "", "", pre=pre, empty=True)
                s.fn(nm(), "bool", "", pre=pre, empty=True)
                s.fn(nm(), "", "// only a comment\n", pre=pre, empty=True)
            s.block("impl Foo", "Foo", lambda q: q.fn("a", "", "", empty=True))
            s.block("trait T", "T", lambda q: q.fn("a", "", "", empty=True))
        return s, args, cfg

    def run_case(self, R, case):
        s, args, cfg = self.build(case)
        fs = {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": s.text()}
        if cfg:
            fs[".cargo/mutants.toml"] = cfg
        lab = Lab(R, fs)
        r, ms = R.list(lab.case, lab.root, args)
        if ms is None:
            return dict(viol=["listing failed: exit %s %s; source starts %r" % (r.code, r.err[-300:], s.text()[:200])], n=1)
        v = rgen.compare(s.exp, ms, "%s" % json.dumps(case))
        n = s.text().count("fn f")
        return dict(viol=v, n=max(1, n), states=[h((case, i)) for i in range(max(1, n))], transitions=len(s.exp), nontrivial=[h((case, i)) for i in range(n)] if s.exp else [],
                    sample=dict(case=case, functions=n, mutants=len(s.exp), text=s.text()[:160]), extra=dict(mutants_compared=len(s.exp)))


def _special_ok(u, x):
    t = x[0]
    if u in ("ref", "mut") and (t.startswith("impl ") or t == "!"):
        if "+" in t:
            return None
    if u == "ref" and t.startswith("["):
        return UNARY[u](x)
    if u == "dyn" and t.startswith("impl "):
        return UNARY[u](x)
    return UNARY[u](x)


PATS = [("_", None, "0", True), ("1", None, "10", True), ("x", None, "20", True), ("2 | 3", None, "{ 30 }", False), ("Foo { a, .. }", binop(">", "a", "0"), "40", True), ("_", "q", "50", True),
        ("[a, _]", "w(1)", "{ 60 }", True), ("(_, 1)", None, binop("+", "1", "1"), True), ("_n", None, "70", True)]

CHECK = C()
