from runs import *

DISPLAY = [["--caught"], ["--unviable"], ["-v", "-V"], ["--all-logs"], ["--no-times"], ["--colors=always"], ["-L", "trace"], ["-L", "error"],
           ["--line-col=false"], ["--diff"], ["--shuffle"]]
USAGE = [["--no-such-option"], ["--shard=2/2"], ["--shard=x"], ["--shard", "0/0"], ["--jobs=x"], ["--timeout=abc"], ["--baseline=maybe"], ["--in-place", "-j2"],
         ["--timeout=5", "--timeout-multiplier=2"], ["--build-timeout=5", "--build-timeout-multiplier=2"], ["--dir=.", "--manifest-path=Cargo.toml"],
         ["--colors=purple"], ["extra"]]
FATAL = [["-d", "/nonexistent-dir"], ["--manifest-path=nowhere/Cargo.toml"], ["--in-diff=missing.diff"], ["-F", "("], ["-E", "["],
         ["-f", "a{b"], ["-e", "[z-a]"], ["--package=nosuch", "--package=ws", "CFG:unknown_key = 1"], ["CFG:additional_cargo_args = 3"]]

# numbers that are no length of time, in every option and setting that takes one
BADNUM = ["-1", "-0.001", "nan", "inf", "-inf", "1e30"]
for _n in BADNUM:
    USAGE += [["--timeout=" + _n], ["--build-timeout=" + _n], ["--minimum-test-timeout=" + _n], ["ENV:CARGO_MUTANTS_MINIMUM_TEST_TIMEOUT=" + _n], ["CFG:minimum_test_timeout = " + _n]]
    if _n != "1e30":
        USAGE += [["--timeout-multiplier=" + _n], ["--build-timeout-multiplier=" + _n], ["CFG:timeout_multiplier = " + _n], ["CFG:build_timeout_multiplier = " + _n]]
HUGE = [["--timeout-multiplier=1e300"], ["--build-timeout-multiplier=1e300"], ["CFG:timeout_multiplier = 1e300"], ["CFG:build_timeout_multiplier = 1e25"], ["--timeout=1e19"], ["--build-timeout=1e19"], ["--minimum-test-timeout=1e19"],
        ["--timeout=1e-12"], ["--timeout-multiplier=0"], ["--minimum-test-timeout=0"]]


class C(Check):
    id = "C06"
    level = "model_checking"
    rule = ("a case is one vector of outcomes (caught, missed, unviable, test timeout, build timeout) for 0-4 mutants with a baseline result, a job count, "
            "mode and display options, run to the end on the real binary; non-trivial when a mutant or the baseline was really run")
    assumptions = ["exit statuses of cargo are chosen by a stand-in cargo"]

    def bounds_for(self, tier):
        return dict(mutants="0-4" if tier == "quick" else "0-6", jobs=[1, 2, 3], alphabet="C M U T B S")

    def cases(self, tier):
        alpha = "CMUTB"
        for n, t in ((1, "1"), (2, "2"), (2, "11"), (3, "21")):
            for codes in codes_all(alpha, n):
                for j in (1, 2, 3) if tier == "thorough" else (1, 2):
                    yield dict(tree=t, codes=codes, base="M", jobs=j)
        for codes in codes_all("CMUT", 4):
            for j in (1, 3):
                yield dict(tree="22", codes=codes, base="M", jobs=j)
        for c in "MTCU":      # as many of a kind as a byte can not count
            for rest in ("", "C" if c != "C" else "M"):
                yield dict(tree="256" if not rest else "257", codes=c * 256 + rest, base="M", jobs=4)
        for codes in ("S", "s"):
            yield dict(tree="1", codes=codes, base="M")
        for codes in codes_all("CMUTSs", 2):
            if set(codes) & set("Ss"):
                yield dict(tree="2", codes=codes, base="M")
        for codes in codes_all(alpha, 2):
            for b in "CUTSs":
                yield dict(tree="2", codes=codes, base=b)
        # every combination of baseline strategy, mode and job count, for one and two mutants
        for n in (1, 2):
            for codes in codes_all(alpha, n):
                for b in ("M", "skip"):
                    for m in ([], ["--check"], ["--in-place"], ["--check", "--in-place"], ["--test-tool=nextest"], ["--iterate"], ["--leak-dirs"]):
                        for j in (None,) if "--in-place" in m else (None, 2):
                            yield dict(tree=str(n), codes=codes, base=b, args=m, jobs=j)
        for b in ("CUTSsM", ):
            for x in b:
                if x != "T":  # a hung check of the unmutated tree has no limit
                    yield dict(tree="2", codes="MM", base=x, args=["--check"])
                for j in (2, 3):
                    yield dict(tree="2", codes="CC", base=x, jobs=j)
                yield dict(tree="0", codes="", base=x)
        for codes in ("CC", "CM", "UM", "CT", "MT", "UU"):
            for d in DISPLAY:
                yield dict(tree="2", codes=codes, base="M", args=d)
            for d in itertools.combinations(DISPLAY, 2):
                if tier == "thorough":
                    yield dict(tree="2", codes=codes, base="M", args=d[0] + d[1])
        for a in USAGE:
            yield dict(tree="1", codes="C", args=a, kind="usage")
        for a in HUGE:
            for ck in ([], ["--check"]):
                yield dict(tree="1", codes="C", args=a + ck, kind="fine")
        for a in FATAL:
            yield dict(tree="1", codes="C", args=a, kind="fatal")
        if tier == "thorough":
            for codes in codes_all("CMUT", 4):
                for b in ("skip", "M"):
                    yield dict(tree="4", codes=codes, base=b, jobs=2)

    def run_case(self, R, case):
        kind = case.get("kind", "run")
        if kind != "run":
            lab = Lab(R, tree_files("1"))
            lab.mutants, lab.texts, lab.names = [], [], []
            cfg = [a[4:] for a in case["args"] if a.startswith("CFG:")]
            env = dict(a[4:].split("=", 1) for a in case["args"] if a.startswith("ENV:"))
            args = [a for a in case["args"] if not a.startswith(("CFG:", "ENV:"))]
            if cfg:
                write_tree(lab.root, {".cargo/mutants.toml": "\n".join(cfg) + "\n"})
            res = R.run(lab.case, lab.root, args, lambda c: dict(end="exit:0", dur=0.2), env=env)
            v = []
            if "panicked" in res.err:
                v.append("panic: " + res.err[-300:])
            if kind == "fine":
                # nothing fails: every mutant is missed, except for a timeout of almost nothing
                if res.code not in ((0,) if "--check" in args else (2, 3, 4) if "--timeout=1e-12" in args else (2,)):
                    v.append("exit %s: %s" % (res.code, res.err[-300:]))
                return dict(viol=v, n=len(res.children), states=[h((kind, res.code))], transitions=len(res.events), nontrivial=[h(case)], sample=dict(case=case, exit=res.code))
            if kind == "usage" and res.code != 1:
                v.append("usage error exits with %s, expected 1" % res.code)
            if kind == "fatal" and (res.code in (0, 2, 3, 4) or res.hung):
                v.append("impossible run exits with %s" % res.code)
            if res.children:
                v.append("cargo was run despite the error")
            return dict(viol=v, states=[h((kind, res.code))], transitions=1, nontrivial=[h(case)], sample=dict(case=case, exit=res.code))
        case = dict(case)
        case["args"] = list(case.get("args", [])) + ["--timeout=30", "--build-timeout=30"]
        if "--shuffle" in case["args"]:
            pass
        lab, res, out = start_run(R, case)
        check = "--check" in case["args"]
        base = case.get("base", "M")
        codes = case["codes"]
        n = len(codes)
        if n == 0:
            exp = 0
        elif base not in ("M", "skip") and not (check and base == "C"):
            exp = 4
        else:
            exp = expected_exit(codes, True, check)
        v = []
        sig = any(c in "Ss" for c in codes) and exp == 0 and n
        if res.hung:
            v.append("run did not end")
        elif sig:
            if res.code == 0:
                v.append("exit 0 although cargo was killed by a signal for a mutant, which was neither caught nor unviable")
        elif res.code != exp:
            v.append("exit %s, expected %s" % (res.code, exp))
        return dict(viol=v, states=[h((sorted(codes), base, check, res.code))], transitions=len(res.events),
                    nontrivial=[h(case)] if res.children else [], sample=dict(case=case, observed=describe(lab, res)))


CHECK = C()
