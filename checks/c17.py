from runs import *
import itertools, json, re
import rgen
from rgen import Src, BIN

WS = ["\r\r", "\r\t\r", "\t", "\x0c", "\x0b", "\u0085", "\u2028", "\u200e", "\r", "\n", "\n\n\t"]
CHARS = ["x", "\t", "\u00e9", "\u4e2d", "\U0001f600", "e\u0301", "\u200d", "\ufeff", "\u2028", "\r", "\u00a0", "\x0c", "\n", "\n\u00e9\u4e2d\n", "{ ( a + b", "// \u00e9", "\""]
NOISE = [""] + WS + ["/*%s*/" % c for c in CHARS] + ["//%s\n" % c for c in CHARS if "\n" not in c] + ["/*/*%s*/\u00e9*/" % c for c in CHARS[:5]]
PAIR = [n for n in NOISE if n in ("\t", "\r", "\n", "/*\u00e9*/", "/*\U0001f600*/", "/*\r*/", "//\u4e2d\n", "/*\n\u00e9\u4e2d\n*/")]
STR = ["x", "\u00e9", "\u4e2d", "\U0001f600", "\t", "\ufeff", "\u2028", "\n", "a + b", "\\n", "\\\"", "/*", "//", "\\u{e9}", "\\\n   "]


class B:
    """A template under construction: text with slots, marks for expected mutants."""
    def __init__(self, s, fill):
        self.s, self.fill, self.i = s, fill, 0

    def w(self, t):
        parts = t.split("@")
        for n, p in enumerate(parts):
            if n:
                self.s.w(self.fill[self.i])
                self.i += 1
            self.s.w(p)
        return self

    def pos(self):
        return self.s.pos()

    def op(self, op, kind="BinaryOperator"):
        a = self.pos()
        self.s.w(op)
        for r in (BIN[op] if kind == "BinaryOperator" else [""]):
            self.s.mut(kind, a, self.pos(), r)
        return self

    def body(self, name, ret, reps, f):
        self.s.fns.append(dict(name=name, ret="-> " + ret if ret else ""))
        a = self.pos()
        f(self)
        for r in reps:
            self.s.mut("FnValue", a, self.pos(), r)
        return self


def t_line(b, n):
    b.w("fn@ %s() -> u8 {@ " % n)
    b.body(n, "u8", ["0", "1"], lambda b: b.w("a@ ").op("+").w("@ b"))
    b.w("@ }@\n")


def t_ops(b, n):
    b.w("fn %s() {@ " % n)
    b.body(n, "", ["()"], lambda b: b.w("a@ ").op("<<=").w("@b ").op("&&").w(" c;@ d = e").op(">=").w("@f;"))
    b.w("@}\n")


def t_un(b, n):
    b.w("fn %s() -> bool {@" % n)
    b.body(n, "bool", ["true", "false"], lambda b: b.w("").op("!", "UnaryOperator").w("@x ").op("^").w(" @").op("-", "UnaryOperator").w("@").op("!", "UnaryOperator").w("y"))
    b.w("@}\n")


def t_match(b, n):
    b.w("fn %s() {@\n    " % n)

    def f(b):
        b.w("match w {\n")
        a = b.pos()
        b.w("1@ => @2,")
        b.s.mut("MatchArm", a, b.pos(), "")
        b.w("@ k if ")
        a = b.pos()
        b.w("p(@x)")
        for r in ("true", "false"):
            b.s.mut("MatchArmGuard", a, b.pos(), r)
        b.w(" =>@ 3,\n        ")
        a = b.pos()
        b.w("4 => {@ 5 }")
        b.s.mut("MatchArm", a, b.pos(), "")
        b.w("@\n        _ => 6@ }")
    b.body(n, "", ["()"], f)
    b.w("\n}\n")


def t_impl(b, n):
    b.w("impl@ S { @pub fn %s(&self,@ q: u8) ->@ bool {\n@    " % n)
    b.body("S::" + n, "bool", ["true", "false"], lambda b: b.w("let z = |k| k ").op("*").w("@ 2;\n    z(self.q) ").op("==").w("@ q"))
    b.w("\n}@ }\n")


def t_trait(b, n):
    b.w("trait T {@ fn@ %s() {" % n)
    b.body("T::" + n, "", ["()"], lambda b: b.w("x(@);@"))
    b.s.w("}}\n") if False else b.w("}@}\n")


def t_trait_span(b, n):
    """The body ends at its last statement even when followed by noise."""
    b.w("mod m {@ fn %s() {@\n" % n)
    b.body("m::" + n, "", ["()"], lambda b: b.w("if a ").op("<").w("@ b { c }@ else {@ d }"))
    b.w("@\n}@\n}\n")


def t_items(b, n):
    """Items as first and last statements."""
    b.w("fn %s() {@ " % n)
    b.body(n, "", ["()"], lambda b: b.w("use@ q::r;@ x();@ const K: u8 = 1;@ struct Z {@ }"))
    b.w("@ }\n")


ONLY = ["static Q:@ u8 = 0;", "m!@ { a + b }", "#[allow(a)]@ let x;", " /// d\n let x;@", "x();@;", "m!(@);", "{@}", "loop {@}", "enum@ Q { A }", "return@;", "use@ x::y;", "macro_rules! z { () =>@ {} }"]


def t_item(t):
    """Only an item, a macro, an attribute or empty statements in the body."""
    t2 = t.lstrip()
    return lambda b, n: b.w("fn %s() {@%s" % (n, t[:len(t) - len(t2)])).body(n, "", ["()"], lambda b: b.w(t2.rstrip("@"))).w("@" * t2.endswith("@") + "@}\n")


TEMPLATES = dict({"only%d" % i: t_item(t) for i, t in enumerate(ONLY)}, items=t_items, line=t_line, ops=t_ops, un=t_un, match=t_match, impl=t_impl, ifelse=t_trait_span)


def slots(t):
    class Cnt(list):
        def __getitem__(self, i):
            self.n = max(getattr(self, "n", 0), i + 1)
            return ""
    c = Cnt()
    s = Src()
    TEMPLATES[t](B(s, c), "f")
    return c.n


def fills(t, tier):
    k = slots(t)
    yield [""] * k
    for i in range(k):
        for n in NOISE[1:]:
            yield [n if j == i else "" for j in range(k)]
    ps = PAIR if tier == "quick" else NOISE[1:]
    for i, j in itertools.combinations(range(k), 2):
        for a in ps:
            for c in ps:
                yield [a if x == i else c if x == j else "" for x in range(k)]


def chunks(it, n):
    it = iter(it)
    while True:
        x = list(itertools.islice(it, n))
        if not x:
            return
        yield x


def apply_diff(text, diff, label):
    """Independent application of a unified diff -> new text, or an error string in a tuple."""
    lines = diff.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    if len(lines) < 3 or lines[0] != "--- " + label or not lines[1].startswith("+++ "):
        return None, "bad header %r" % lines[:2]
    old = text.split("\n")
    nofinal = old[-1] != ""
    if not nofinal:
        old.pop()
    out, at, i = [], 0, 2
    new_nl = None
    while i < len(lines):
        m = re.fullmatch(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", lines[i])
        if not m:
            return None, "bad hunk header %r" % lines[i]
        o, oc, nn, nc = int(m[1]), int(m[2] or 1), int(m[3]), int(m[4] or 1)
        st = o - 1 if oc else o
        if st < at:
            return None, "hunks overlap"
        out += old[at:st]
        at = st
        if (nn - 1 if nc else nn) != len(out):
            return None, "hunk position on the new side is wrong"
        i += 1
        a = c = 0
        while a < oc or c < nc:
            if i >= len(lines):
                return None, "hunk ends early"
            l = lines[i]
            tag, txt = l[:1], l[1:]
            nonl = i + 1 < len(lines) and lines[i + 1].startswith("\\ ")
            if tag in (" ", "-"):
                if at >= len(old) or old[at] != txt:
                    return None, "line %d of the file is %r, the diff says %r" % (at + 1, old[at] if at < len(old) else None, txt)
                if nonl != (nofinal and at == len(old) - 1):
                    return None, "wrong end-of-file newline on the old side"
                at += 1
                a += 1
            if tag in (" ", "+"):
                out.append(txt)
                c += 1
                new_nl = not nonl
            if tag not in (" ", "-", "+"):
                return None, "bad line %r" % l
            i += 2 if nonl else 1
    tail = old[at:]
    out += tail
    final = (not nofinal) if tail else new_nl
    return "\n".join(out) + ("\n" if final else ""), None


class C(Check):
    id = "C17"
    level = "exploration"
    batch = 1
    rule = ("source texts generated from templates with slots before, inside and after every construct: every assignment of the noise alphabet (whitespace of all kinds, one to four byte and combining characters, comments, line breaks) with one "
            "or two filled slots, in LF, CRLF and mixed files with and without final newline; listed spans must be those of the constructs, each diff applied to the text by an independent patch routine must give the text with that span replaced, "
            "and in runs the file seen by cargo and the stored diff must be the same; non-trivial when the file has noise")
    assumptions = ["columns are counted in characters and lines end at LF", "CR LF line ends are written as LF in a mutated file, as documented in the source"]

    def bounds_for(self, tier):
        return dict(noise=len(NOISE), filled_slots=2, pair_noise=len(PAIR) if tier == "quick" else len(NOISE) - 1, templates=len(TEMPLATES), line_ends=3, strings=len(STR))

    def cases(self, tier):
        for t in sorted(TEMPLATES):
            for i, ch in enumerate(chunks(fills(t, tier), 60)):
                eol = ("lf", "crlf", "mixed")[i % 3]
                yield dict(kind="list", t=t, fills=ch, eol=eol, final=(i // 3) % 2 == 0)
            k = slots(t)
            for i, ch in enumerate(chunks([f for f in itertools.islice(fills(t, "quick"), 1 + k * (len(NOISE) - 1))], 10)):
                for eol in ("lf", "crlf"):
                    yield dict(kind="run", t=t, fills=ch, eol=eol, final=i % 2 == 0, args=[["--in-place"], [], ["-j2"]][i % 3])
            for n in NOISE + ["#!/bin/sh\u00e9 x\n", "\ufeff", "\ufeff/*\u00e9*/", "\n\n\n\n\n\n\n\n\n\n\n\n", "#![allow(dead_code)]", "//! \u00e9\n", "#!/bin/sh\n#![allow(dead_code)]\n"]:
                for post in ("", "\n", "\n//\u00e9", "\t", "/*\n*/", "\n\n\n\n\n\n\n\n\n\n\n\n\n"):
                    for eol in ("lf", "crlf"):
                        yield dict(kind="edge", t=t, pre=n, post=post, eol=eol)
        for a in range(len(STR)):
            yield dict(kind="strings", a=a, eol=("lf", "crlf")[a % 2], final=True)

    def text_of(self, case):
        s = Src()
        k = case["kind"]
        if k == "strings":
            i = 0
            for x in STR:
                for form in ('"%s"', 'b"%s"', 'r#"%s"#', "c\"%s\"", "f!(\"%s\")", "m!{ \"%s\" + 1 }"):
                    a = STR[case["a"]]
                    if form.startswith("b") and not (x + a).isascii() or form.startswith(("b", "c")) and "\\u" in x + a or form.startswith("r") and "\\" in x + a:
                        continue
                    if form.startswith("c") and "\0" in x:
                        continue
                    i += 1
                    n = "f%d" % i
                    s.w("fn %s() { " % n)
                    s.fns = [dict(name=n, ret="")]
                    p = s.pos()
                    s.w(form % a + "; a ")
                    q = s.pos()
                    s.w("+")
                    r = s.pos()
                    s.w(" " + form % x)
                    e = s.pos()
                    s.mut("FnValue", p, e, "()")
                    for o in ("-", "*"):
                        s.mut("BinaryOperator", q, r, o)
                    s.w(" }\n")
            return s
        if k == "edge":
            s.w(case["pre"])
            TEMPLATES[case["t"]](B(s, [""] * slots(case["t"])), "f1")
            # drop the template's own final newline
            s.buf[-1] = s.buf[-1][:-1] if s.buf[-1].endswith("\n") else s.buf[-1]
            s.w(case["post"])
            return s
        for i, f in enumerate(case["fills"]):
            s.fns = []
            TEMPLATES[case["t"]](B(s, f), "f%d" % i)
        return s

    def run_case(self, R, case):
        s = self.text_of(case)
        norm = "".join(s.buf)
        if case["kind"] in ("list", "run") and not case["final"]:
            norm = norm[:-1]
        raw = norm
        if case["eol"] == "crlf":
            raw = norm.replace("\r\n", "\n").replace("\n", "\r\n")
        elif case["eol"] == "mixed":
            raw = re.sub(r"(\n[^\n]*)\n", lambda m: m[1] + "\r\n", norm)
        norm = raw.replace("\r\n", "\n")
        lab = Lab(R, {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": raw.encode()})
        r, ms = R.list(lab.case, lab.root, ["--diff"])
        what = json.dumps({k: x for k, x in case.items() if k != "fills"})
        if ms is None:
            return dict(viol=["%s: listing failed: exit %s %s; source starts %r" % (what, r.code, r.err[:300], raw[:200])], n=1)
        v = rgen.compare(s.exp, ms, what)
        exps = []
        ls = line_starts(norm)
        for m in ms:
            sp = m["span"]
            shift = lambda p: ls[p["line"] - 1] + p["column"] - 1
            e = norm[:shift(sp["start"])] + m["replacement"] + " " + MARKER + norm[shift(sp["end"]):]
            exps.append(e)
            got, err = apply_diff(norm, m["diff"], "src/lib.rs")
            if err:
                v.append("%s: the diff of %s does not apply: %s" % (what, m["replacement"], err))
            elif got != e:
                v.append("%s: the diff of the %s at %s gives %r, expected %r" % (what, m["genre"], sp["start"], *_near(got, e)))
        names = R.simple(lab.case, lab.root, ["--list"]).out.split("\n")[:-1]
        want = ["%s:%d:%d: %s" % (m["file"], m["span"]["start"]["line"], m["span"]["start"]["column"], describe(m, norm, ls)) for m in ms]
        if names != want:
            v.append("%s: listed names differ from the text of the spans: %r, expected %r" % (what, [x for x in names if x not in want][:3], [x for x in want if x not in names][:3]))
        if case["kind"] == "run" and not v:
            lab.mutants, lab.names = ms, names
            lab.texts = [("src/lib.rs", e.encode()) for e in exps]
            res = lab.run(["--check", "--baseline=skip", "--no-shuffle", "--no-times"] + case["args"], "M" * len(ms), wall=60)
            if res.code != 0:
                v.append("%s: run ended with %s" % (what, res.code))
            seen = {}
            for c in res.children:
                w = lab.who(c)
                if isinstance(w, int) and w >= 0:
                    seen[w] = 1
                else:
                    v.append("%s: cargo saw a file that is not the text with one span replaced: %s" % (what, w))
            # two mutants may give the same text only if listed with the same span and replacement: every text must be seen
            miss = [i for i in range(len(ms)) if i not in seen and exps.index(exps[i]) not in seen]
            if miss:
                v.append("%s: mutants %s were never seen by cargo" % (what, [names[i] for i in miss][:3]))
            out = lab.out()
            for o in out.outcomes["outcomes"]:
                if not isinstance(o["scenario"], dict):
                    continue
                i = scen_index(lab, o)
                p = o.get("diff_path")
                if i is None or not p:
                    v.append("%s: outcome without a listed mutant or diff" % what)
                    continue
                got = open(os.path.join(lab.root, "mutants.out", p), newline="", encoding="utf-8").read()
                if got != ms[i]["diff"]:
                    v.append("%s: stored diff of %s differs from the listed one: %r" % (what, names[i], got[:200]))
        n = max(1, len(case.get("fills", [1])))
        return dict(viol=v[:8], n=n, states=[h((what, i, case.get("fills", [0] * n)[i] if "fills" in case else 0)) for i in range(n)], transitions=len(ms), nontrivial=[h((what, x)) for x in case.get("fills", [what])],
                    sample=dict(case=what, mutants=len(ms), text=raw[:160]), extra=dict(mutants_compared=len(ms)))


def describe(m, norm, ls):
    """The name of a mutant after its place, from its genre, span and function."""
    g, f = m["genre"], m["function"]
    if g == "FnValue":
        return "replace %s%s with %s" % (f["function_name"], " " + f["return_type"] if f["return_type"] else "", m["replacement"])
    if g == "MatchArmGuard":
        return "replace match guard with " + m["replacement"]
    if g == "MatchArm":
        return "delete match arm"
    at = lambda p: ls[p["line"] - 1] + p["column"] - 1
    t = norm[at(m["span"]["start"]):at(m["span"]["end"])]
    return ("replace %s with %s" % (t, m["replacement"]) if m["replacement"] else "delete " + t) + (" in " + f["function_name"] if f else "")


def _near(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return a[max(0, i - 20):i + 50], b[max(0, i - 20):i + 50]


CHECK = C()
