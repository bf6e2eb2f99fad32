from runs import *

SRC = ["pub fn a() {", "    g(1 + 2);", "}", "pub fn b(x: bool) -> bool {", "    !(x", "        || 3 == 4)", "}", "pub fn c() { g(0) }"]
LONG = ["pub fn a() {"] + ["    g(%d);" % i for i in range(60)] + ["}", "pub fn b() {", "    g(1);", "}"]
SMALL = ["pub fn s() {", "    g();", "}"]
REMOVED = ["    old();", "-- x", "--", "++ y", "", "@@ -1,2 +3,4 @@", "\\ No newline", "diff --git a/x b/x", "Binary files a and b differ", "\tt\u00e9\U0001f980"]


def scripts(n, maxrem=1):
    """All canonical edit scripts ending in n new lines: a list of ' ', '+', '-' (removals before additions in each change block)."""
    def rec(i, cur, can_remove):
        if can_remove:
            for r in range(1, maxrem + 1):
                yield from rec(i, cur + ["-"] * r, False)
        if i == n:
            yield cur
            return
        yield from rec(i + 1, cur + [" "], True)
        # an addition directly after an addition must not be followed by a removal before the next kept line
        yield from rec(i + 1, cur + ["+"], False)
    return rec(0, [], True)


def apply_script(script, new, removed):
    """-> list of (tag, text)"""
    out, i, k = [], 0, 0
    nn = sum(1 for t in script if t != "-")
    if nn != len(new):
        raise CheckError("script %r does not fit %d lines" % (script, len(new)))
    for t in script:
        if t == "-":
            out.append(("-", removed[k % len(removed)]))
            k += 1
        else:
            out.append((t, new[i]))
            i += 1
    return out


def touched(ops):
    """Reference: 1-based new line numbers that are added, or next to a deletion."""
    r, n, total = set(), 0, sum(1 for t, _ in ops if t != "-")
    for t, _ in ops:
        if t == "-":
            r |= {n, n + 1}
        else:
            n += 1
            if t == "+":
                r.add(n)
    return {x for x in r if 1 <= x <= total}


def hunks(ops, ctx, style="git", no_nl_old=False, no_nl_new=False):
    """Unified diff hunks."""
    idx = [i for i, (t, _) in enumerate(ops) if t != " "]
    groups = []
    for i in idx:
        if groups and i - groups[-1][1] <= 2 * ctx + (0 if ctx else 1):
            groups[-1][1] = i
        else:
            groups.append([i, i])
    out = []
    olds = [j for j, (t, _) in enumerate(ops) if t != "+"]
    news = [j for j, (t, _) in enumerate(ops) if t != "-"]
    for a, b in groups:
        lo, hi = max(0, a - ctx), min(len(ops), b + ctx + 1)
        o0 = sum(1 for t, _ in ops[:lo] if t != "+")
        n0 = sum(1 for t, _ in ops[:lo] if t != "-")
        oc = sum(1 for t, _ in ops[lo:hi] if t != "+")
        nc = sum(1 for t, _ in ops[lo:hi] if t != "-")

        def rng(s, c):
            s = s + 1 if c else s
            return "%d" % s if c == 1 and style == "git" else "%d,%d" % (s, c)
        out.append("@@ -%s +%s @@%s" % (rng(o0, oc), rng(n0, nc), " fn x" if style == "git" and lo else ""))
        for j in range(lo, hi):
            t, s = ops[j]
            out.append(t + s)
            old_end = t != "+" and olds[-1] == j and no_nl_old
            new_end = t != "-" and news[-1] == j and no_nl_new
            if old_end or new_end:
                out.append("\\ No newline at end of file")
    return out


def section(path, ops, ctx, style="git", **kw):
    """One file of a diff; '' if nothing differs."""
    hs = hunks(ops, ctx, style, **kw)
    if not hs:
        return []
    old = all(t == "+" for t, _ in ops)
    gone = all(t == "-" for t, _ in ops)
    a, b = "a/" + path, "b/" + path
    pre = []
    if style == "git":
        pre = ["diff --git %s %s" % (a, b)]
        if old:
            pre.append("new file mode 100644")
        if gone:
            pre.append("deleted file mode 100644")
        pre.append("index 1234567..89abcde" + ("" if old or gone else " 100644"))
    if style == "noprefix":
        a, b = path, path
    if old:
        a = "/dev/null"
    if gone:
        b = "/dev/null"
    ts = "\t2024-05-06 07:08:09.000000000 +0000" if style == "gnu" else ""
    if style == "gnu":
        pre = ["diff -u -r %s %s" % (a, b)]
    return pre + ["--- " + a + ts, "+++ " + b + ts] + hs


def files(nf, src=SRC, eol="\n", final=True):
    t = eol.join(src) + (eol if final else "")
    return {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "".join("mod f%d;\n" % i for i in range(nf)), **{"src/f%d.rs" % i: t for i in range(nf)}}


EXTRA = {  # sections that touch no line of any mutant's file
    "binary": ["diff --git a/logo.png b/logo.png", "index 1234567..89abcde 100644", "Binary files a/logo.png and b/logo.png differ"],
    "newbinary": ["diff --git a/logo.png b/logo.png", "new file mode 100644", "index 0000000..89abcde", "Binary files /dev/null and b/logo.png differ"],
    "rename": ["diff --git a/src/o.rs b/src/n.rs", "similarity index 100%", "rename from src/o.rs", "rename to src/n.rs"],
    "mode": ["diff --git a/x.sh b/x.sh", "old mode 100644", "new mode 100755"],
    "newempty": ["diff --git a/e.rs b/e.rs", "new file mode 100644", "index 0000000..e69de29"],
    "deleted": section("src/gone.rs", [("-", "pub fn gone() {"), ("-", "}")], 3),
    "deletedsame": None,
    "other": section("README.md", [(" ", "x"), ("-", "y"), ("+", "z")], 3),
    "latin1": section("data/caf.txt", [(" ", "caf\udce9"), ("-", "y\udce9"), ("+", "\udcff z"), ("+", " \udcc3(")], 3),
    "otherrs": section("tests/t.rs", [("+", "fn t() {}")], 3),
    "absent": section("src/absent.rs", [("+", "fn t() {}")], 3),
}
EXTRA["deletedsame"] = section("src/gone2.rs", [("-", "pub fn gone() {"), ("-", "}")], 3)


class C(Check):
    id = "C15"
    level = "exploration"
    batch = 2
    rule = ("every canonical edit script (kept, added and removed lines) leading to the new text of a small file with mutants of several span shapes, as unified diffs with each context width and dialect; "
            "other sections, file names, end-of-file markers, line endings, stale diffs and malformed diffs are enumerated; the list with --in-diff is compared with a reference line computation; "
            "non-trivial when some but not all mutants are selected")
    assumptions = ["line numbers recorded for mutants are right (decided by C17 and C25)"]

    def bounds_for(self, tier):
        return dict(lines=6 if tier == "quick" else 8, removed_per_gap=1 if tier == "quick" else 2, context=[0, 1, 3] if tier == "quick" else [0, 1, 2, 3, 8])

    def cases(self, tier):
        n = 6 if tier == "quick" else 8
        mr = 1 if tier == "quick" else 2
        for ctx in ([0, 1, 3] if tier == "quick" else [0, 1, 2, 3, 8]):
            batch = []
            for s in scripts(n, mr):
                batch.append("".join(s))
                if len(batch) == 24:
                    yield dict(kind="scripts", n=n, ctx=ctx, s=batch)
                    batch = []
            if batch:
                yield dict(kind="scripts", n=n, ctx=ctx, s=batch)
        allscripts = ["".join(s) for s in scripts(3, 2)]
        for style in ("git", "gnu", "noprefix", "plain"):
            for eof in ((0, 0), (1, 0), (0, 1), (1, 1)):
                for eol in ("\n", "\r\n"):
                    for ctx in (0, 3):
                        for i in range(0, len(allscripts), 40):
                            yield dict(kind="forms", style=style, eof=eof, eol=eol, ctx=ctx, s=allscripts[i:i + 40])
        ones = [" " * i + t + " " * (len(LONG) - i - (t == "+")) for i in range(len(LONG)) for t in "+-"]     # one change anywhere in a long function
        for ctx in (0, 3):
            for i in range(0, len(ones), 24):
                yield dict(kind="long", ctx=ctx, s=ones[i:i + 24])
        for i in range(len(REMOVED)):
            for ctx in (0, 1, 3):
                for s in ("-   ", " -  ", "  - ", "   -", "-+  ", " -+ ", " --+ ", "  -+"):
                    yield dict(kind="content", rem=[REMOVED[i], "zz"], ctx=ctx, s=s)
                    yield dict(kind="content", rem=["zz", REMOVED[i]], ctx=ctx, s=s)
        names = sorted(EXTRA)
        perms = [list(p) for k in (1, 2) for p in itertools.permutations(names, k)]
        if tier != "quick":
            perms += [list(p) for p in itertools.permutations(names, 3)]
        for p in perms:
            for pos in range(len(p) + 1):
                yield dict(kind="sections", extra=p, pos=pos)
            yield dict(kind="sections", extra=p, pos=None)
        for path in ("src/f0.rs", "src/with space.rs", "src/\u00e9.rs", "src/b/x.rs", "b/src/x.rs", "src/a.b.rs", "src/tab\tx.rs", 'src/q"x.rs', "a/src/x.rs", "a/x.rs", "a/b/x.rs", "b/a/x.rs", "b/b/x.rs",
                     "src/a/x.rs", "bb/x.rs", "w/x.rs", "i/x.rs", "new/x.rs", "m/src/lib.rs", "m/src/b/x.rs", "src/up/../x.rs", "src/up/../../y/x.rs"):
            for q in (False, True):
                for style in ("git", "noprefix", "gnu", "renamed", "moved"):
                    yield dict(kind="path", path=path, quoted=q, style=style)
        for s in [x for x in ("".join(s) for s in scripts(3, 1)) if x.strip()]:
            for ctx in (0, 1, 3):
                yield dict(kind="stale", s=s, ctx=ctx)
        for i in range(len(BAD)):
            yield dict(kind="bad", i=i)
        for i in range(len(EMPTY)):
            yield dict(kind="empty", i=i)
        for f in (["-F", "replace a"], ["-E", "replace a"], ["-f", "src/f0.rs"], ["-e", "src/f0.rs"], ["-F", "nothing"], ["--iterate"]):
            for s in ("+ +  -  +", "-        ", "        -", "++++++++"):
                yield dict(kind="filter", f=f, s=s)
        for s in ("+ + ", "-    ", "+++ ", " -+  ", "    ", "    -", "++++"):
            yield dict(kind="run", s=s)

    def sel(self, lab, diff, args=(), raw=None):
        p = os.path.join(lab.case, "d.diff")
        data = raw if raw is not None else ("\n".join(diff) + "\n" if diff else "").encode("utf-8", "surrogateescape")
        with open(p, "wb") as f:
            f.write(data)
        r, j = lab.R.list(lab.case, lab.root, ["--in-diff=" + p] + list(args))
        return r, j

    def expect(self, full, want):
        """want: file -> set of touched lines"""
        return [m for m in full if any(l in want.get(os.path.normpath(m["file"]), ()) for l in range(m["span"]["start"]["line"], m["span"]["end"]["line"] + 1))]

    def compare(self, v, what, r, got, full, want, diff):
        exp = self.expect(full, want)
        if got is None:
            v.append("%s: exit %s: %s; diff %r" % (what, r.code, r.err[-300:], diff[:12]))
            return exp
        if list(map(key, got)) != list(map(key, exp)):
            g, e = list(map(key, got)), list(map(key, exp))
            v.append("%s: selected %s, expected %s; diff %r" % (what, [x[1:4] for x in g if x not in e] and ["+%s:%d:%d" % x[1:4] for x in g if x not in e] or "-",
                                                              ["-%s:%d:%d" % x[1:4] for x in e if x not in g] or "order", diff[:14]))
        return exp

    def run_case(self, R, case):
        v = []
        k = case["kind"]
        nt = []
        n = 1
        if k in ("scripts", "forms", "content", "long"):
            ss = case["s"] if k != "content" else [case["s"]]
            eol = case.get("eol", "\n")
            eof = case.get("eof", (0, 0))
            src = {"scripts": SRC[:case.get("n")] if case.get("n") != 6 else SRC[2:], "forms": SMALL, "content": SMALL, "long": LONG}[k]
            if k == "scripts" and case["n"] == 6:
                src = ["pub fn a() { g(1 + 2) }"] + SRC[3:]
            if k == "content":
                src = ["pub fn s() {", "    g(1 +", "    2);", "}"]
            lab = Lab(R, files(len(ss), src, eol, not eof[1]))
            full = lab.list(diff=False)
            diff, want = [], {}
            for i, s in enumerate(ss):
                nnew = sum(1 for c in s if c != "-")
                ops = apply_script(s, src[:nnew], case.get("rem") or ["    old%d();" % j for j in range(9)])
                if nnew != len(src):
                    ops += [(" ", x) for x in src[nnew:]]
                if eof[0] != eof[1] and ops and ops[-1][0] == " ":
                    continue     # the last line differs then, which this script does not say
                if not any(t != " " for t, _ in ops):
                    continue
                o2 = [(t, x + ("\r" if eol == "\r\n" else "")) for t, x in ops]
                if eol == "\r\n" and eof[1]:
                    # the last new line has no line end at all
                    for j in range(len(o2) - 1, -1, -1):
                        if o2[j][0] != "-":
                            o2[j] = (o2[j][0], o2[j][1][:-1])
                            break
                diff += section("src/f%d.rs" % i, o2, case["ctx"], case.get("style", "git"), no_nl_old=eof[0], no_nl_new=eof[1])
                want["src/f%d.rs" % i] = touched(ops)
            r, got = self.sel(lab, diff)
            exp = self.compare(v, "context %d %s" % (case["ctx"], case.get("style", "")), r, got, full, want, diff)
            n = len(ss)
            nt = [h((k, s, case["ctx"], case.get("style"), eol, eof, case.get("rem"))) for i, s in enumerate(ss)
                  if 0 < sum(1 for m in exp if m["file"] == "src/f%d.rs" % i) < sum(1 for m in full if m["file"] == "src/f%d.rs" % i)]
            return dict(viol=v, n=n, states=[h((k, s, case["ctx"])) for s in ss], transitions=n, nontrivial=nt, sample=dict(diff=diff[:12], selected=len(exp)))
        if k == "sections":
            lab = Lab(R, files(2))
            full = lab.list(diff=False)
            ops = apply_script("+ +  -  +", SRC, ["old"])
            main = [section("src/f0.rs", ops, 1), section("src/f1.rs", apply_script("  +     ", SRC, []), 1)]
            seqs = [EXTRA[x] for x in case["extra"]]
            want = {}
            if case["pos"] is not None:
                seqs[case["pos"]:case["pos"]] = main
                want = {"src/f0.rs": touched(ops), "src/f1.rs": {3}}
            diff = [l for s in seqs for l in s]
            r, got = self.sel(lab, diff)
            self.compare(v, "sections", r, got, full, want, diff)
            return dict(viol=v, states=[h(case)], transitions=1, nontrivial=[h(case)], sample=case)
        if k == "path":
            written, path = case["path"], os.path.normpath(case["path"])      # as in the attribute, and as in a diff
            fs = {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": '#[path = "%s"]\nmod x;\n' % (os.path.relpath(path, "src") if path == written else written[4:]).replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t"),
                  path: "\n".join(SMALL) + "\n"}
            if path != written:
                fs["src/up/k"] = ""
            args = []
            if path.startswith("m/"):       # a file of a member, the tree given by the member's directory
                fs = {"Cargo.toml": '[workspace]\nmembers = ["m"]\nresolver = "2"\n', "m/Cargo.toml": cargo_toml("m"), path: fs[path], "src/lib.rs": fs[path],
                      **({"m/src/lib.rs": "pub mod b { pub mod x; }\n"} if path != "m/src/lib.rs" else {})}
                args = ["-d", "m"]
            # the same text in files whose path only differs in the prefixes that diffs use
            alt = path.split("/", 1)[1] if path.startswith(("a/", "b/")) else None
            if alt and alt.endswith(".rs") and not path.startswith("m/"):
                fs["src/lib.rs"] += '#[path = "../%s"]\nmod y;\n' % alt
                fs[alt] = fs[path]
            lab = Lab(R, fs, [dict(name="m", dir="m", targets=[("lib", "m", "src/lib.rs")])] if args else None)
            full = lab.list(args, diff=False)
            ops = apply_script(" + ", SMALL, [])
            d = section(path, ops, 3, case["style"] if case["style"] in ("noprefix", "gnu") else "git")
            if case["style"] == "renamed":
                d = ["diff --git a/old/o.rs b/" + path, "similarity index 90%", "rename from old/o.rs", "rename to " + path, "index 1234567..89abcde 100644", "--- a/old/o.rs"] + d[3:]
            if case["style"] == "moved":
                d = d[2:]
                d[0] = "--- a/old/o.rs"
            need_q = any(ord(c) > 127 or c in '\t"' for c in path)
            if case["quoted"] != need_q or (need_q and case["style"] == "gnu"):
                return dict(viol=v, n=0)
            if need_q:
                def q(p):
                    return '"' + "".join(c if 32 <= ord(c) < 127 and c != '"' else {"\t": "\\t", '"': '\\"'}.get(c) or "".join("\\%03o" % b for b in c.encode()) for c in p) + '"'
                d = [(x[:4] + q(x[4:]) if x.startswith(("--- ", "+++ ")) else x) for x in d]
            elif " " in path and case["style"] != "gnu":
                d = [(x + "\t" if x.startswith(("--- ", "+++ ")) else x) for x in d]
            if path.startswith("b/") and case["style"] == "noprefix":
                return dict(viol=v, n=0)      # ambiguous
            r, got = self.sel(lab, d, args)
            self.compare(v, "path %r" % path, r, got, full, {path: {2}}, d)
            return dict(viol=v, states=[h(case)], transitions=1, nontrivial=[h(case)], sample=case)
        if k == "stale":
            lab = Lab(R, files(1, SMALL))
            ops = apply_script(case["s"], SMALL, ["    old();"])
            good = section("src/f0.rs", ops, case["ctx"])
            muts = []
            for i, l in enumerate(good):
                if l[:1] in "+ " and not l.startswith("+++"):
                    for x in (l + "x", l[:1] + l[2:], l[:1] + "\u00e9", l + " ", l[:1] + " " + l[1:]):
                        if x != l:
                            muts.append(good[:i] + [x] + good[i + 1:])
                if l.startswith("@@") and any(x[:1] in "+ " and x[1:] for x in good[i + 1:]):
                    a, b = l.split(" +", 1)
                    num = b.split(" ")[0]
                    s0, c0 = (num.split(",") + ["1"])[:2]
                    if int(c0):
                        for d in (-1, 1, 2, 100):
                            if int(s0) + d >= 1:
                                muts.append(good[:i] + ["%s +%d,%s @@" % (a, int(s0) + d, c0)] + good[i + 1:])
            for x in ("", " ", "x"):      # the diff has lines that follow the last one of the tree
                for t in "+ ":
                    muts.append(section("src/f0.rs", ops + [(t, x)], case["ctx"]))
                    if t == " " and len(hunks(ops, case["ctx"])) and muts[-1][-1] != " " + x:
                        muts.pop()       # not within the context shown
            bad = 0
            for m in muts:
                r, got = self.sel(lab, m)
                bad += 1
                if r.code == 0 or got is not None:
                    v.append("a diff that does not match the tree is accepted: %r" % (m,))
                elif not r.err.strip() or r.out.strip() or r.code < 0:
                    v.append("stale diff %r: exit %s, stdout %r, stderr %r" % (m, r.code, r.out[:100], r.err[:200]))
            return dict(viol=v, n=bad, states=[h(case)], transitions=bad, nontrivial=[h(case)] if bad else [], sample=dict(case=case, variants=bad))
        if k == "bad":
            lab = Lab(R, files(1))
            raw = BAD[case["i"]]
            if raw is None:
                r, j = lab.R.list(lab.case, lab.root, ["--in-diff=" + os.path.join(lab.case, "nosuch.diff")])
            else:
                r, j = self.sel(lab, None, raw=raw)
            if r.code <= 0 or r.out.strip() or not r.err.strip():
                v.append("malformed diff %r: exit %s, stdout %r, stderr %r" % (raw, r.code, r.out[:100], r.err[:200]))
            return dict(viol=v, states=[h(case)], transitions=1, nontrivial=[h(case)], sample=dict(case=case, err=r.err[:100]))
        if k == "empty":
            lab = Lab(R, files(1))
            r, j = self.sel(lab, None, raw=EMPTY[case["i"]])
            if r.code != 0 or j != []:
                v.append("empty diff %r: exit %s, %s mutants, %s" % (EMPTY[case["i"]], r.code, None if j is None else len(j), r.err[-200:]))
            return dict(viol=v, states=[h(case)], transitions=1, nontrivial=[h(case)], sample=case)
        if k == "filter":
            lab = Lab(R, files(2))
            f = case["f"]
            if f == ["--iterate"]:
                allr = R.simple(lab.case, lab.root, ["--list"]).out.splitlines()
                write_tree(lab.root, {"mutants.out/caught.txt": "\n".join(allr[::2]) + "\n"})
            full = lab.list(f, diff=False)
            ops = apply_script(case["s"], SRC, ["old"])
            d = section("src/f0.rs", ops, 2) + section("src/f1.rs", ops, 0)
            r, got = self.sel(lab, d, f)
            self.compare(v, "filter %s" % f, r, got, full, {"src/f0.rs": touched(ops), "src/f1.rs": touched(ops)}, d)
            return dict(viol=v, states=[h(case)], transitions=1, nontrivial=[h(case)], sample=case)
        if k == "run":
            src = SMALL
            lab = Lab(R, files(2, SMALL + SRC[7:]))
            ops = apply_script(case["s"], SMALL + SRC[7:], ["old"])
            d = section("src/f0.rs", ops, 2)
            p = os.path.join(lab.case, "d.diff")
            with open(p, "w") as f:
                f.write("".join(x + "\n" for x in d))
            lab.load(["--in-diff=" + p])
            exp = self.expect(lab.list(diff=False), {"src/f0.rs": touched(ops)})
            codes = ("CMU" * 5)[:len(lab.mutants)]
            res = lab.run(["--no-shuffle", "--no-times", "--timeout=30", "--in-diff=" + p], codes, wall=20)
            v += check_children(lab, res, codes, baseline=len(lab.mutants) > 0)
            tested = sorted({lab.guess(c) for c in res.children} - {-1})
            if [key(lab.mutants[i]) for i in tested] != list(map(key, exp)):
                v.append("run with --in-diff tests %d mutants, expected %d" % (len(tested), len(exp)))
            return dict(viol=v, states=[h(case)], transitions=1, nontrivial=[h(case)] if exp else [], sample=case)


BAD = [b"not a diff\n", b"--- a/x\n", b"+++ b/x\n", b"--- a/src/f0.rs\n+++ b/src/f0.rs\n@@ -1 +1 @@\n", b"--- a/src/f0.rs\n+++ b/src/f0.rs\n@@ -x +y @@\n+z\n", b"\xff\xfe", b"@@ -1 +1 @@\n-a\n+b\n", None,
       b"--- a/src/f0.rs\n+++ b/src/f0.rs\n@@ -1,2 +1,2 @@\n-a\n+b\n"]
EMPTY = [b"", b"\n", b"\n\n", b"Binary files a/x and b/x differ\n", b"Binary files a/x and b/x differ\n\n", b"  \n"]

CHECK = C()
