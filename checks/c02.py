from faults import *

LIBT = 'pub fn a() {\n    let _ = "a";\n}\n\npub fn b() -> bool {\n    true\n}\n'


def shape(name):
    f = {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": "mod m;\n" + fn_src(["a"]), "src/m.rs": fn_src(["b"]), "data": "d"}
    if name == "one":
        f["src/lib.rs"] = fn_src(["a", "b"])
        del f["src/m.rs"]
    elif name == "crlf":
        f["src/lib.rs"] = ("mod m;\n" + fn_src(["a"])).replace("\n", "\r\n")
        f["src/m.rs"] = fn_src(["b"]).replace("\n", "\r\n")
    elif name == "mixed":
        f["src/m.rs"] = "// x\r\n" + fn_src(["b"]) + "// y\r\n// no newline"
    elif name == "cr":
        f["src/m.rs"] = "// x \r y\n" + fn_src(["b"]) + "/* \r\n\r */"
    elif name == "utf8":
        f["src/m.rs"] = "// h\u00e9\u4e16\U0001f600\n" + fn_src(["b"]).replace('"b"', '"\u00e9\\u{1f600}\U0001f600"') + "\t\u00a0// \u2028\n"
    elif name == "bom":
        f["src/m.rs"] = "\ufeff" + fn_src(["b"])
    elif name == "nonl":
        f["src/m.rs"] = fn_src(["b"]).rstrip("\n")
    elif name == "link":
        f["src/m.rs"] = Link("../other/m.rs")
        f["other/m.rs"] = fn_src(["b"])
    elif name == "linkabs":
        f["src/m.rs"] = Link("@ROOT@/other/m.rs")
        f["other/m.rs"] = fn_src(["b"])
    elif name == "linkcrlf":
        f["src/m.rs"] = Link("../other/m.rs")
        f["other/m.rs"] = "// x\n" + fn_src(["b"]).replace("\n", "\r\n")
    elif name == "ro":
        f["src/m.rs"] = ReadOnly(fn_src(["b"]))
    elif name == "exec":
        f["src/m.rs"] = Exec(fn_src(["b"]))
    elif name == "manifest":
        f["Cargo.toml"] = cargo_toml("ws", '[dependencies]\ndep = { path = "../dep" }\n')
        f[".cargo/config.toml"] = 'paths = ["../dep"]\n'
    elif name == "long":
        f["src/m.rs"] = "// " + "x" * 9000 + "\n" + fn_src(["b"]) + "// " + "y" * 9000 + "\n"
    elif name == "same":
        f["src/m.rs"] = same_len("b")
    return f


SHAPES = ["two", "one", "crlf", "mixed", "cr", "utf8", "bom", "nonl", "link", "linkabs", "linkcrlf", "ro", "exec", "manifest", "long", "same"]


def source_groups(ops):
    """ops on source files in groups uninterrupted by other operations: apply, restore, apply, restore, ..."""
    grp, n, last = {}, -1, None
    for k, _t, op, p in ops:
        src = p.startswith("R/") and not p.startswith("R/mutants.out") and op not in ("open_read", "read")
        if src:
            if last != "src":
                n += 1
            grp[k] = n
        if src or not p.startswith("R/") or op not in ("open_read", "read"):
            last = "src" if src else "other"
    return grp


class C(Check):
    id = "C02"
    level = "fault_enumeration"
    rule = ("each shape of source file (CRLF, mixed, BOM, links, read-only ...) with all outcome vectors of two mutants, and every single error (all operations), interrupt "
            "(all operations and waits; also with the output pipe broken by the same Ctrl-C) and failing start of cargo; non-trivial when some mutation was applied in place")
    assumptions = ["a failure of the very write that restores a file is out of reach", "a killed tool (SIGKILL) cannot restore anything"]

    def bounds_for(self, tier):
        return dict(shapes=SHAPES, faults_per_run=1, mutants=2)

    def cases(self, tier):
        A = ["--timeout=30", "--build-timeout=30"]
        for s in SHAPES:
            for codes in codes_all("CMUTBS", 2) if tier == "thorough" or s in ("two", "one") else ("CM", "UT", "BS", "MB"):
                yield dict(shape=s, codes=codes, args=A)
            for a in (["--check"], ["--baseline=skip"], ["--leak-dirs"], ["--iterate"], ["--shard=0/2"], ["--in-diff=/dev/null"]):
                yield dict(shape=s, codes="CM", args=A + a)
            yield dict(shape=s, codes="CM", args=A, base="C")
            yield dict(shape=s, codes="CM", args=A, base="U")
        roots = [("two", "CM", []), ("one", "MU", []), ("crlf", "TC", []), ("link", "CB", []), ("two", "CU", ["--check"]), ("one", "MC", ["--baseline=skip"])]
        if tier == "thorough":
            roots += [(s, c, a) for s in SHAPES for c in codes_all("CMUT", 2) for a in ([],)]
        for s, codes, a in roots:
            for br in (None, "!oe", "!e"):
                yield dict(shape=s, codes=codes, args=A + a, probe=True, broken=br)

    def run_case(self, R, case):
        lab = Lab(R, shape(case["shape"]))
        before = snapshot(lab.root, skip_top=("mutants.out", "mutants.out.old"))
        applied = []

        def on_start(c, res):
            if diff_snap(before, snapshot(lab.root, skip_top=("mutants.out", "mutants.out.old"))):
                applied.append(1)
        base = case.get("base", "M") if "--baseline=skip" not in case["args"] else "skip"
        res = R.run(lab.case, lab.root, ["--no-shuffle", "--no-times", "--in-place"] + case["args"], plan_by_order(case["codes"], base), on_start=on_start,
                    fault=case.get("fault"), on_wait=on_wait_for(case), broken=case.get("broken"), wall=20)
        v = []
        lb = "%s, %s" % (case["shape"], label(case)) + (", output pipe closed" if case.get("broken") else "")
        d = diff_snap(before, snapshot(lab.root, skip_top=("mutants.out", "mutants.out.old")))
        if d and not case.get("restoring"):
            v.append("%s: source files are not as before (exit %s): %s" % (lb, res.code, "; ".join(d)[:500]))
        if res.hung:
            v.append("%s: hangs" % lb)
        if res.tmp_left:
            v.append("%s: left %s in the temporary directory" % (lb, res.tmp_left))
        more = []
        if case.get("probe"):
            ops = log_ops(res)
            grp = source_groups(ops)
            more = fault_cases(case, res, ("int",) if case.get("broken") else ("err", "int"), ("EIO", "ENOSPC"))
            for m in more:
                if m.get("fault") and ("err" in m["fault"] or "torn" in m["fault"]):
                    k = int(m["fault"].split(":")[0])
                    if grp.get(k, 0) % 2 == 1:
                        m["restoring"] = True
        return dict(viol=v, more=more, states=[h((case["shape"], case["codes"], case.get("at"), case.get("wait"), res.code))], transitions=len(res.events),
                    nontrivial=[h(case)] if applied else [], sample=dict(case=case, exit=res.code, cargo_runs=len(res.children)))


CHECK = C()
