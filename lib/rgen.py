"""Generator of Rust programs together with the mutants they must have.

A Src collects text while tracking line and column; constructs record the mutants expected of them, from the
documented rules, independently of how cargo-mutants finds them."""
import re

BIN = {"==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<": ["==", ">", "<="], ">": ["==", "<", ">="], "<=": [">"], ">=": ["<"],
       "+": ["-", "*"], "-": ["+", "/"], "*": ["+", "/"], "/": ["%", "*"], "%": ["/", "+"], "<<": [">>"], ">>": ["<<"],
       "&": ["|", "^"], "|": ["&", "^"], "^": ["|", "&"]}
for _o in ("+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"):
    BIN[_o + "="] = [x + "=" for x in BIN[_o]]
ASSIGN = {o for o in BIN if o.endswith("=") and o not in ("==", "!=", "<=", ">=")}
UN = {"!": True, "-": True, "*": False}


def toks(s):
    """Tokens of a fragment, so that spacing does not matter."""
    return re.findall(r'"(?:[^"\\]|\\.)*"|[A-Za-z_0-9\u0080-\U0010ffff.]+|\S', s or "")


class Src:
    def __init__(self, eol="\n"):
        self.buf = []
        self.line, self.col = 1, 1
        self.eol = eol
        self.ns, self.fns = [], []
        self.off = 0            # > 0: inside code that must not be mutated
        self.exp = []
        self.mods = []          # external modules that must be visited: list of (stack, name)

    def w(self, s):
        for ch in s:
            if ch == "\n":
                self.line += 1
                self.col = 1
            else:
                self.col += 1
        self.buf.append(s)
        return self

    def pos(self):
        return (self.line, self.col)

    def text(self):
        t = "".join(self.buf)
        return t if self.eol == "\n" else t.replace("\n", self.eol)

    def mut(self, genre, a, b, rep):
        if not self.off:
            f = self.fns[-1] if self.fns else None
            self.exp.append(dict(genre=genre, span=(a[0], a[1], b[0], b[1]), rep=rep, fn=f))

    # -- expressions: callables taking the Src
    def ex(self, e):
        if callable(e):
            e(self)
        else:
            self.w(e)
        return self

    def skipped(self, cond):
        return _Off(self, cond)

    def fn(self, name, ret, body, reps=None, pre="", attrs="", skip=False, params="()", head="fn ", post="", empty=False, inner=""):
        """body: callable emitting at least one statement (unless empty); reps: expected replacements."""
        start = self.pos()
        with self.skipped(skip or empty):
            self.w(attrs + pre + head + name + params + (" -> " + ret if ret else "") + post + " {")
            f = dict(name="::".join(self.ns + [name]), ret="-> " + ret if ret else "")
            self.ns.append(name)
            self.fns.append(f)
            self.w("\n    " if not empty else "")
            self.w(inner)
            a = self.pos()
            n = len(self.exp)
            self.ex(body)
            b = self.pos()
            inner = self.exp[n:]
            del self.exp[n:]
            for r in (["()"] if reps is None else reps):
                self.mut("FnValue", a, b, r)
            self.exp += inner
            self.fns.pop()
            self.ns.pop()
            self.w("\n}\n" if not empty else "}\n")
            f["span"] = start + self.pos()
        return self

    def block(self, head, name, body, skip=False):
        """mod/impl/trait: head '{' body '}'"""
        with self.skipped(skip):
            self.w(head + " {\n")
            self.ns.append(name)
            saved, self.fns = self.fns, self.fns
            self.ex(body)
            self.ns.pop()
            self.w("}\n")
        return self


class _Off:
    def __init__(self, s, cond):
        self.s, self.c = s, cond

    def __enter__(self):
        self.s.off += 1 if self.c else 0

    def __exit__(self, *a):
        self.s.off -= 1 if self.c else 0


# -- expression constructors
def binop(op, a, b, attr="", skip=False):
    def f(s):
        with s.skipped(skip):
            s.w(attr)
            # the mutants of the operator
            s.ex(a)
            s.w(" ")
            p = s.pos()
            s.w(op)
            q = s.pos()
            for r in BIN.get(op, ()):
                s.mut("BinaryOperator", p, q, r)
            s.w(" ")
            s.ex(b)
    return f


def unop(op, a):
    def f(s):
        p = s.pos()
        s.w(op)
        if UN[op]:
            s.mut("UnaryOperator", p, s.pos(), "")
        s.ex(a)
    return f


def seq(*xs):
    def f(s):
        for x in xs:
            s.ex(x)
    return f


def paren(e):
    return seq("(", e, ")")


def quiet(e):
    """Text that must not be mutated (macro arguments, skipped calls)."""
    def f(s):
        with s.skipped(True):
            s.ex(e)
    return f


def match_(scrut, arms, nl=" "):
    """arms: list of (pattern, guard or None, body, comma, attrs)"""
    def f(s):
        s.w("match ")
        s.ex(scrut)
        s.w(" {")
        wild = any(a[0] == "_" for a in arms)
        for pat, guard, body, comma in arms:
            s.w(nl)
            st = s.pos()
            s.ex(pat)
            if guard is not None:
                s.w(" if ")
                p = s.pos()
                n = len(s.exp)
                s.ex(guard)
                q = s.pos()
                inner = s.exp[n:]
                del s.exp[n:]
                s.mut("MatchArmGuard", p, q, "true")
                s.mut("MatchArmGuard", p, q, "false")
                s.exp += inner
            s.w(" => ")
            n = len(s.exp)
            s.ex(body)
            s.w("," if comma else "")
            if wild and pat != "_" and guard is None:
                s.mut("MatchArm", st, s.pos(), "")
        s.w(nl + "}")
    return f


# -- types: (text, replacements)
def leaf(text, *reps):
    return (text, list(reps))


INTS_U = ["u8", "u16", "u32", "u64", "u128", "usize"]
INTS_S = ["i8", "i16", "i32", "i64", "i128", "isize"]
LEAVES = [leaf("bool", "true", "false"), leaf("String", "String::new()", '"xyzzy".into()'), leaf("&'static str", '""', '"xyzzy"'), leaf("&str", '""', '"xyzzy"')]
LEAVES += [leaf(x, "0", "1") for x in INTS_U] + [leaf(x, "0", "1", "-1") for x in INTS_S]
LEAVES += [leaf(x, "0.0", "1.0", "-1.0") for x in ("f32", "f64")]
LEAVES += [leaf("NonZero" + x.capitalize(), "1") for x in INTS_U] + [leaf("std::num::NonZero" + x.capitalize(), "1", "-1") for x in INTS_S]
LEAVES += [leaf("()", "()"), leaf("Foo", "Default::default()"), leaf("a::b::Foo", "Default::default()"), leaf("Self", "Default::default()"), leaf("char", "Default::default()"),
           leaf("HttpResponse", "HttpResponse::Ok().finish()"), leaf("actix_web::HttpResponse", "HttpResponse::Ok().finish()"), leaf("fmt::Result", "Ok(Default::default())"),
           leaf("!"), leaf("impl Display"), leaf("impl Fn(u8) -> u8"), leaf("Self::Item", "Default::default()"), leaf("<T as Tr>::O", "Default::default()"),
           leaf("*const u8", "Default::default()"), leaf("fn(u8) -> bool", "Default::default()"), leaf("Foo<'static>", "Default::default()"), leaf("Foo<A, B>", "Default::default()")]
SHORT = [t for t in LEAVES if t[0] in ("bool", "String", "&'static str", "u8", "i32", "f64", "NonZeroU8", "()", "Foo", "fmt::Result", "!")]


def _w(text, empties, fs):
    return lambda t: (text % t[0], list(empties) + [f % r for r in t[1] for f in fs])


UNARY = {
    "Option": _w("Option<%s>", ["None"], ["Some(%s)"]),
    "Vec": _w("Vec<%s>", ["vec![]"], ["vec![%s]"]),
    "qVec": _w("std::vec::Vec<%s>", ["vec![]"], ["vec![%s]"]),
    "Result": _w("Result<%s>", [], ["Ok(%s)"]),
    "Result2": _w("Result<%s, E>", [], ["Ok(%s)"]),
    "ioResult": _w("io::Result<%s>", [], ["Ok(%s)"]),
    "Cow": _w("Cow<'static, %s>", [], ["Cow::Borrowed(%s)", "Cow::Owned(%s.to_owned())"]),
    "arr": _w("[%s; 3]", [], ["[%s; 3]"]),
    "arrn": _w("[%s; N]", [], ["[%s; N]"]),
    "rslice": _w("&[%s]", ["Vec::leak(Vec::new())"], ["Vec::leak(vec![%s])"]),
    "mslice": _w("&'a mut [%s]", ["Vec::leak(Vec::new())"], ["Vec::leak(vec![%s])"]),
    "ref": _w("&%s", [], ["&%s"]),
    "mut": _w("&mut %s", [], ["Box::leak(Box::new(%s))"]),
    "one": _w("(%s,)", [], ["(%s,)"]),
    "tup1": _w("(bool, %s)", [], ["(true, %s)", "(false, %s)"]),
    "iter": _w("impl Iterator<Item = %s>", ["::std::iter::empty()"], ["::std::iter::once(%s)"]),
    "iter2": _w("impl Iterator<Item = %s> + 'a", ["::std::iter::empty()"], ["::std::iter::once(%s)"]),
    "Wr": _w("Wr<%s>", ["Wr::new()"], ["Wr::from_iter([%s])", "Wr::new(%s)", "Wr::from(%s)"]),
    "WrL": _w("x::Wr<'a, %s>", ["Wr::new()"], ["Wr::from_iter([%s])", "Wr::new(%s)", "Wr::from(%s)"]),
    "dyn": lambda t: ("Box<dyn Fn(%s) -> %s>" % (t[0], t[0]), ["Box::new(Default::default())"]),
}
for _n in ("Box", "Cell", "RefCell", "Arc", "Rc", "Mutex"):
    UNARY[_n] = _w(_n + "<%s>", [], [_n + "::new(%s)"])
UNARY["qArc"] = _w("std::sync::Arc<%s>", [], ["Arc::new(%s)"])
for _n in ("BinaryHeap", "BTreeSet", "HashSet", "LinkedList", "VecDeque"):
    UNARY[_n] = _w(_n + "<%s>", [_n + "::new()"], [_n + "::from_iter([%s])"])


def _special(name, t):
    """Combinations whose rule looks through the constructor."""
    if name == "ref" and t[0].startswith("["):
        return None
    if name in ("ref", "mut") and t[0].startswith("impl Iterator") and "+" in t[0]:
        return None
    return UNARY[name](t)


def _prod(fmt, a, b):
    return [fmt % (x, y) for x in a[1] for y in b[1]]


BINARY = {
    "tup": lambda a, b: ("(%s, %s)" % (a[0], b[0]), _prod("(%s, %s)", a, b)),
    "BTreeMap": lambda a, b: ("BTreeMap<%s, %s>" % (a[0], b[0]), ["BTreeMap::new()"] + _prod("BTreeMap::from_iter([(%s, %s)])", a, b)),
    "HashMap": lambda a, b: ("std::collections::HashMap<%s, %s>" % (a[0], b[0]), ["HashMap::new()"] + _prod("HashMap::from_iter([(%s, %s)])", a, b)),
    "Res": lambda a, b: ("Result<%s, %s>" % (a[0], b[0]), ["Ok(%s)" % x for x in a[1]]),
    "Two": lambda a, b: ("Two<%s, %s>" % (a[0], b[0]), ["Default::default()"]),
}


def with_errors(name, t, errs):
    """UNARY result with configured error values (only for Result constructors)."""
    text, reps = UNARY[name](t)
    return (text, reps + (["Err(%s)" % e for e in errs] if name in ("Result", "Result2", "ioResult") else []))


# -- comparison with a listing
def expected_keys(exp, file=None):
    return sorted(_k(e["genre"], e["span"], e["rep"], e["fn"]["name"] if e["fn"] else None, e["fn"]["ret"] if e["fn"] else None) for e in exp)


def _k(genre, span, rep, fn, ret):
    return (tuple(span), genre, " ".join(toks(rep)), " ".join(toks(fn)) if fn is not None else "-", " ".join(toks(ret)) if ret is not None else "-")


def listed_keys(ms, file=None):
    out = []
    for m in ms:
        if file and m["file"] != file:
            continue
        sp, f = m["span"], m.get("function")
        out.append(_k(m["genre"], (sp["start"]["line"], sp["start"]["column"], sp["end"]["line"], sp["end"]["column"]), m["replacement"],
                      f["function_name"] if f else None, f["return_type"] if f else None))
    return sorted(out)


def compare(exp, ms, what, file=None, limit=3):
    e, g = expected_keys(exp), listed_keys(ms, file)
    if e == g:
        return []
    from collections import Counter
    ce, cg = Counter(e), Counter(g)
    miss, extra = list((ce - cg).elements()), list((cg - ce).elements())
    return ["%s: missing mutants %s; unexpected mutants %s" % (what, miss[:limit], extra[:limit])]
