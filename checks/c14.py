from runs import *

FILTERS = [[], ["-F", "replace (a|b|e|g)"], ["-E", "replace (c|d)"], ["-f", "src/lib.rs"], ["-e", "src/lib.rs"], ["--in-diff=@DIFF@"], ["--iterate"], ["--package=ws"], ["--workspace"],
           ["-F", "nothing"]]


def files(n):
    """n functions spread over two files, in a way that listing order interleaves kinds of mutants."""
    ns = [chr(97 + i) if i < 26 else "z%d" % i for i in range(n)]
    k = (n + 1) // 2
    return {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "mod m;\n" + fn_src(ns[:k]), "src/m.rs": fn_src(ns[k:])}


BAD = ["", "/", "0", "0/", "/2", "0/0", "1/0", "1/1", "2/2", "3/2", "10/3", "-1/2", "0/-1", "a/2", "0/b", "0.5/2", "0/2/3", "0//2", "0\\2", "0:2", "1 2", "0/2x", "x0/2", "1of2",
       " 0/2", "0/2 ", "0 /2", "0/ 2", "\t0/2", "0/2\n", "0x0/2", "0/0x2", "0_0/2", "00/2,1/2", "0/2,1/2", "\u0660/2", "k/n", "1", "2/1", "1/-1",
       "18446744073709551616/2", "0/18446744073709551616"]


class C(Check):
    id = "C14"
    level = "exploration"
    rule = ("for every number of mutants up to the bound, every n up to the bound and several other filters, all n shards are listed by the real tool and compared with the unsharded list; "
            "every shard of smaller configurations is also run; malformed arguments are enumerated; non-trivial when n > 1 and there are mutants")
    assumptions = ["functions with one mutant each stand for any list of mutants: sharding sees only positions"]

    def bounds_for(self, tier):
        return dict(mutants="0..%d" % (13 if tier == "quick" else 20), n="1..%d" % (15 if tier == "quick" else 25), filters=len(FILTERS), many_mutants=[255, 256, 257, 700], subsets="all 64 of six mutants, selected in 6 ways")

    def cases(self, tier):
        mx, nx = (13, 15) if tier == "quick" else (20, 25)
        for N in range(0, mx + 1):
            for n in range(1, nx + 1):
                yield dict(kind="list", N=N, n=n, f=0)
        for N in (255, 256, 257, 700) if tier == "quick" else (255, 256, 257, 258, 511, 512, 513, 700, 1025, 2049, 5000):
            for n in (2, 3, 7, 60) if tier == "quick" else (2, 3, 5, 7, 16, 60, 255, 256, 257):
                yield dict(kind="list", N=N, n=n, f=0)
        for f in range(1, len(FILTERS)):
            for N in (5, 8):
                for n in (2, 3, 5):
                    yield dict(kind="list", N=N, n=n, f=f)
        for n in (100, 1000, 4294967295, 18446744073709551615):
            yield dict(kind="big", N=5, n=n)
        for N in (3, 4):
            for n in (1, 2, 3, 4, 5):
                for k in range(n):
                    for a in ([], ["-j2"], ["-E", "replace b"], ["--shuffle"]):
                        yield dict(kind="run", N=N, n=n, k=k, args=a)
        # every subset of six mutants, selected in each way
        for n in (2, 3, 4, 6) if tier == "quick" else (2, 3, 4, 5, 6, 7):
            for S in range(64):
                for how in ("diff", "iterate", "regex", "xregex", "diff+iterate", "config"):
                    yield dict(kind="subset", N=6, n=n, S=S, how=how)
        for S in (0b0101, 0b1010, 0b0111, 0b1001, 0):
            for how in ("diff", "iterate", "regex", "diff+iterate"):
                for n in (2, 3):
                    for k in range(n):
                        yield dict(kind="run", N=4, n=n, k=k, args=[], S=S, how=how)
        for b in BAD:
            for a in (["--list"], [], ["--list-files"]):
                yield dict(kind="bad", arg=b, args=a)

    def narrow(self, R, lab, S, how):
        """Options (and files) that select exactly the mutants in S."""
        allr = R.simple(lab.case, lab.root, ["--list"]).out.splitlines()
        _r, ms = R.list(lab.case, lab.root)
        pick = [i for i in range(len(allr)) if S >> i & 1]
        drop = [i for i in range(len(allr)) if not S >> i & 1]
        fl = []
        if "+" in how:      # the first filter leaves one mutant more for the second to remove
            keep1 = sorted(set(pick + drop[:1]))
        else:
            keep1 = pick
        if "diff" in how:
            sec = ""
            for f in ("src/lib.rs", "src/m.rs"):
                t = lab.orig[f][2].decode().splitlines()
                hunks = ""
                for x, i in enumerate(j for j in keep1 if ms[j]["file"] == f):
                    ln = ms[i]["span"]["start"]["line"]
                    hunks += "@@ -%d,0 +%d,1 @@\n+%s\n" % (ln - 1 - x, ln, t[ln - 1])
                if hunks:
                    sec += "--- a/%s\n+++ b/%s\n%s" % (f, f, hunks)
            d = os.path.join(lab.case, "x.diff")
            with open(d, "w") as f:
                f.write(sec)
            fl.append("--in-diff=" + d)
        if "iterate" in how:
            write_tree(lab.root, {"mutants.out/caught.txt": "".join(allr[i] + "\n" for i in drop[::2]), "mutants.out/unviable.txt": "".join(allr[i] + "\n" for i in drop[1::2])})
            fl.append("--iterate")
        rx = "|".join("replace %s " % ms[i]["function"]["function_name"] for i in pick) or "nothing at all"
        if how == "regex":
            fl += ["-F", rx]
        if how == "xregex":
            for i in drop:
                fl += ["-E", "replace %s " % ms[i]["function"]["function_name"]]
        if how == "config":
            write_tree(lab.root, {".cargo/mutants.toml": 'examine_re = ["%s"]\n' % rx})
        return fl, [allr[i] for i in pick]

    def run_case(self, R, case):
        v = []
        kind = case["kind"]
        lab = Lab(R, files(case.get("N", 4)))
        if kind in ("list", "big", "subset"):
            if kind == "subset":
                fl, want = self.narrow(R, lab, case["S"], case["how"])
            else:
                fl = FILTERS[case.get("f", 0)]
            if "--iterate" in fl and kind != "subset":
                allr = R.simple(lab.case, lab.root, ["--list"]).out.splitlines()
                write_tree(lab.root, {"mutants.out/caught.txt": "\n".join(allr[::3]) + "\n", "mutants.out/unviable.txt": allr[1] + "\n"})
            if any("@DIFF@" in a for a in fl):
                d = os.path.join(lab.case, "x.diff")
                t = lab.orig["src/lib.rs"][2].decode().splitlines(True)
                with open(d, "w") as f:
                    f.write("--- a/src/lib.rs\n+++ b/src/lib.rs\n@@ -1,0 +1,%d @@\n%s" % (len(t), "".join("+" + x for x in t)))
                fl = [a.replace("@DIFF@", d) for a in fl]
            full = R.simple(lab.case, lab.root, ["--list"] + fl)
            if full.code != 0:
                raise ToolError("listing failed: " + full.err)
            full = full.out.splitlines()
            if kind == "subset" and full != want:
                v.append("%s: lists %s instead of %s" % (case["how"], full, want))
            n = case["n"]
            ks = range(n) if kind != "big" else [0, 1, 2, 3, 4, 5, 6, n // 2, n - 2, n - 1]
            union, sizes = [], []
            for k in ks:
                r = R.simple(lab.case, lab.root, ["--list", "--shard=%d/%d" % (k, n)] + fl)
                if r.code != 0:
                    v.append("shard %d/%d of %d mutants: exit %s %s" % (k, n, len(full), r.code, r.err[-200:]))
                    continue
                part = r.out.splitlines()
                sizes.append(len(part))
                if [x for x in full if x in part] != part:
                    v.append("shard %d/%d of %d mutants is not a sublist in listing order: %s" % (k, n, len(full), part))
                union += part
                if k % 3 == 0 and kind == "list":
                    rj, j = R.list(lab.case, lab.root, ["--shard", "%d/%d" % (k, n)] + fl)
                    if j is None or len(j) != len(part):
                        v.append("shard %d/%d: JSON listing differs from text listing" % (k, n))
            if sorted(union) != sorted(full):
                v.append("shards of %d mutants into %d do not cover each mutant exactly once: %d listed, %d distinct" % (len(full), n, len(union), len(set(union))))
            if sizes and max(sizes) - min(sizes) > 1:
                v.append("shards of %d mutants into %d have sizes %s" % (len(full), n, sizes))
            return dict(viol=v, n=len(list(ks)), states=[h((case.get("N"), n, case.get("f"), case.get("S"), case.get("how")))], transitions=len(sizes),
                        nontrivial=[h(case)] if n > 1 and full else [], sample=dict(case=case, mutants=len(full), sizes=sizes))
        if kind == "run":
            sh = "--shard=%d/%d" % (case["k"], case["n"])
            extra = [a for a in case["args"] if a != "--shuffle"]
            if case.get("how"):
                extra = self.narrow(R, lab, case["S"], case["how"])[0]
                lab.ckey = h((lab.ckey, case["S"], case["how"]))     # what is listed depends on these
            sel = [a for a in extra if not a.startswith("-j")]
            lab.load([sh] + sel)
            codes = "CMUC"[:len(lab.mutants)] if len(lab.mutants) <= 4 else "C" * len(lab.mutants)
            res = lab.run(([] if "--shuffle" in case["args"] else ["--no-shuffle"]) + ["--no-times", "--timeout=30", sh] + extra, codes, wall=20)
            ch = check_children(lab, res, codes, baseline=len(lab.mutants) > 0)
            v += ch
            tested = sorted({lab.guess(c) for c in res.children} - {-1})
            if tested != list(range(len(lab.mutants))):
                v.append("run of shard %d/%d tests %d mutants, listing shows %d" % (case["k"], case["n"], len(tested), len(lab.mutants)))
            return dict(viol=v, states=[h(case)], transitions=1, nontrivial=[h(case)] if lab.mutants else [], sample=dict(case=case, tested=len(tested)))
        r = R.run(lab.case, lab.root, case["args"] + ["--shard=" + case["arg"]], lambda c: dict(end="exit:0"), wall=20)
        if r.code == 0 or r.out.strip():
            v.append("malformed shard %r accepted: exit %s, output %r" % (case["arg"], r.code, r.out[:100]))
        if r.code != 1:
            v.append("malformed shard %r: exit %s, expected 1 (usage error)" % (case["arg"], r.code))
        if not r.err.strip():
            v.append("malformed shard %r: no message" % case["arg"])
        if r.children:
            v.append("malformed shard %r: cargo was run" % case["arg"])
        return dict(viol=v, states=[h(case)], transitions=1, nontrivial=[h(case)], sample=dict(case=case, exit=r.code, err=r.err[:100]))


CHECK = C()
