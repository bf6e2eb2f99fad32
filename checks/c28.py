from runs import *
import vt

VERDICT = {"CaughtMutant": "caught", "MissedMutant": "MISSED", "Timeout": "TIMEOUT", "Unviable": "unviable", "Success": "ok", "Failure": "FAILED"}
COUNTED = {"missed": "MissedMutant", "caught": "CaughtMutant", "unviable": "Unviable", "timeouts": "Timeout", "succeeded": "Success"}
LINE = re.compile(r"(caught|MISSED|TIMEOUT|unviable|ok|FAILED) +(\S.*)$")
TIMES = re.compile(r" in \d+\.\d+s (?:check|build|test)(?: \+ \d+\.\d+s (?:check|build|test))*$")
TOTAL = re.compile(r"(\d+) mutants? tested( in (?:\d+\w+ ?)+)?: ?(.*)$")
FOUND = re.compile(r"Found (\d+) mutants? to test$")
SHOW = [[], ["-v"], ["-V"], ["--caught", "--unviable"]]
BYTES = ["plain", "\xe9\u754c\U0001f600 wide", "\udcff\udcfe not utf-8", "tail \udce2\udc82", "\x07bell\x08", "\x1b[31mred\x1b[0m", "cr\rcr", " ", "x" * 3000, "\xe9" * 300, "a" + "\xe9" * 300, "\udc80" * 40]


class C(Check):
    id = "C28"
    level = "model_checking"
    rule = ("a case is one vector of outcomes for 0-3 mutants and the baseline, with the options that decide what is shown, the bytes cargo printed and the terminal it is shown on, "
            "run to the end on the real binary; non-trivial when cargo was run for a mutant or the baseline")
    assumptions = ["cargo's endings and output are chosen by a stand-in cargo", "where stdout and stderr are one terminal, one job at a time: otherwise the progress display and messages of two threads may mix on it"]

    def bounds_for(self, tier):
        return dict(mutants="0-3" if tier == "quick" else "0-4", jobs=[1, 2, 3], output=len(BYTES), widths=[1, 2, 7, 20, 80, 300])

    def cases(self, tier):
        deep = tier == "thorough"
        yield dict(tree="0", codes="", base="M")
        for n, t in ((1, "1"), (2, "11"), (3, "21")):
            for codes in codes_all("CMUTBSs" if n < 3 else "CMUT", n):
                for show in SHOW if n < 3 or deep else ([], SHOW[3]):
                    yield dict(tree=t, codes=codes, base="M", args=show)
        for codes in codes_all("CMUT", 2):
            for j in (2, 3):
                for show in ([], SHOW[3]):
                    yield dict(tree="2", codes=codes, base="M", args=show, jobs=j)
            yield dict(tree="2", codes=codes, base="skip", args=SHOW[3])
            for show in ([], SHOW[3]):
                for last in "CMUT":
                    yield dict(tree="bool", codes=codes + last, base="M", args=show)
        for n in (1, 2):
            for codes in codes_all("CUTS", n):
                for show in SHOW if n == 1 or deep else ([], SHOW[3]):
                    yield dict(tree=str(n), codes=codes, base="M", args=["--check"] + show)
        for b in "CUTSs":
            for show in SHOW + [["--all-logs"], ["--check"]]:
                if not (b == "T" and "--check" in show):
                    for j in (None, 2):
                        yield dict(tree="2", codes="MM", base=b, args=show, jobs=j)
        # what cargo printed, where its log is shown, or is drawn as it grows
        for x, _ in enumerate(BYTES):
            for y in (range(len(BYTES)) if deep else (0, x)):
                for b, a in (("C", []), ("U", []), ("M", ["--all-logs"]), ("M", ["--all-logs", "--caught", "--unviable"]), ("M", [])):
                    for tty in (None, [80, "e"]):
                        yield dict(tree="2", codes="MC", base=b, args=a, out=[x, y], tty=tty)
        # terminals
        for w in (1, 2, 7, 20, 80, 300) + ((0, 3, 40, 79, 81, 1000) if deep else ()):
            for codes in ("CMUT" if not deep else codes_all("CMUTB", 2)) if not deep else [c + d for c in "CMUT" for d in "CMUT"]:
                codes = codes if len(codes) == 2 else codes * 2
                for where in ("e", "oe"):
                    for col in ([], ["--colors=always"], ["--colors=never"]):
                        yield dict(tree="2", codes=codes, base="M", args=SHOW[3] + col, tty=[w, where])
        for codes in codes_all("CMU", 3) if not deep else codes_all("CMUT", 4):
            yield dict(tree="21" if len(codes) == 3 else "22", codes=codes, base="M", args=SHOW[3], tty=[80, "oe"])
            yield dict(tree="21" if len(codes) == 3 else "22", codes=codes, base="M", args=SHOW[3], tty=[80, "e"], jobs=3)
        for codes in ("MMCU", "CTMB", "UUUU", "MCMC"):
            for where in ("e", "oe"):
                for mode in ([], ["--in-place"], ["--baseline=skip"], ["--check"], ["--in-place", "--check"], ["--iterate"], ["--all-logs"]):
                    yield dict(tree="22", codes=codes, base="M", args=SHOW[3] + mode, tty=[80, where])
        for codes in ("C" * 12, "M" * 12, "U" * 12, "T" * 12, "B" * 12, "CMUT" * 3):
            for a in ([], ["--check"]):
                for j in (None, 3):
                    yield dict(tree="66", codes=codes, base="M", args=SHOW[3] + a, jobs=j)
        # colours and times
        for col in ("always", "never", "auto"):
            for codes in ("CMUT", "MMMM", "UUUU", "CCCC", "TTTT"):
                for nt in (True, False):
                    yield dict(tree="22", codes=codes, base="M", args=SHOW[3] + ["--colors=" + col], times=not nt)
        for codes in codes_all("CMUT", 2):
            yield dict(tree="2", codes=codes, base="M", args=SHOW[3], times=True)
        for show in SHOW:
            for j in (1, 4):
                yield dict(tree="huge", codes=("CMTUBCU" * 30)[:131], base="M", args=show, jobs=j)
        for env in ({"NO_COLOR": "1"}, {"NO_COLOR": "0"}, {"NO_COLOR": ""}, {"CLICOLOR_FORCE": "1"}, {"CLICOLOR_FORCE": "0"}, {"NO_COLOR": "1", "CLICOLOR_FORCE": "1"}, {"CLICOLOR": "0"}, {"TERM": "dumb"}, {"TERM": None},
                    {"COLUMNS": "7"}, {"CARGO_TERM_COLOR": "always"}, {"CARGO_TERM_COLOR": "never"}, {"CARGO_TERM_PROGRESS_WHEN": "never"}, {"CI": "true", "GITHUB_ACTIONS": "true"}):
            for codes in ("CMUT", "MMTC"):
                for col in ([], ["--colors=always"], ["--colors=never"], ["--colors=auto"]):
                    for tty in (None, [80, "e"], [80, "oe"]):
                        yield dict(tree="22", codes=codes, base="M", args=SHOW[3] + col, env=env, tty=tty)
        # how much is selected
        for sh in ("0/2", "1/2", "2/3", "3/4", "7/8"):
            yield dict(tree="22", sel=["--shard=" + sh], base="M", args=SHOW[3])
        for sel in (["-F", "replace [ab] "], ["-E", "replace a "], ["-f", "src/m.rs"], ["-e", "*"]):
            yield dict(tree="22", sel=sel, base="M", args=SHOW[3])

    def run_case(self, R, case):
        lab = Lab(R, tree_files(case["tree"]))
        sel = case.get("sel", [])
        lab.load(sel)
        codes = case.get("codes")
        if codes is None:
            codes = ("MCUT" * 2)[:len(lab.mutants)]
        if len(codes) != len(lab.mutants):
            raise ToolError("tree %s lists %d mutants, not %d: %s" % (case["tree"], len(lab.mutants), len(codes), lab.names))
        a = list(case.get("args", []))
        base = case.get("base", "M")
        args = ["--no-shuffle", "--timeout=30", "--build-timeout=30"] + sel + a
        if not case.get("times"):
            args.append("--no-times")
        if case.get("jobs"):
            args.append("-j%d" % case["jobs"])
        if base == "skip":
            args.append("--baseline=skip")
        outs = case.get("out")

        def more(c, w):
            return dict(cmds=["out tag-%d-%s" % (c.seq, c.phase)] + (["out <%s>" % BYTES[outs[0]], "err " + BYTES[outs[1]]] if outs else []), **(dict(dur=1.7, step=0.9) if tty else {}))
        tty = case.get("tty")
        env = {"NO_COLOR": None}
        if tty:
            env["TERM"] = "xterm"
        env.update(case.get("env") or {})
        opt = next((x[9:] for x in a if x.startswith("--colors=")), env.get("CARGO_TERM_COLOR") or "auto")
        colour = {"always": True, "never": False}.get(opt)
        if env.get("CLICOLOR_FORCE", "0") != "0":
            colour = True
        if (env.get("NO_COLOR") or "0") != "0":
            colour = False
        known = env.get("NO_COLOR") != ""        # documents differ about an empty value
        res = lab.run(args, codes, base="M" if base == "skip" else base, more=more, env=env, tty=tty)
        v = []
        if res.hung:
            v.append("run did not end")
        out = lab.out()
        n = len(codes)
        both = tty and "o" in tty[1]
        text = res.err if both else res.out
        if "panicked at" in res.err or res.code == 101:
            v.append("the run panicked: %s" % res.err[res.err.find("panicked at"):][:200])
        if known and not both and not outs and n and colour is not None and colour != ("\x1b[" in res.out):
            v.append("%s on stdout" % ("no colours" if colour else "colours"))
        if known and not both and not outs and colour is None and "\x1b" in res.out:
            v.append("control sequences on a stdout that is no terminal")
        if both:
            lines = [vt.plain(x) for x in vt.screen(text, tty[0] or 80)]
        else:
            lines = [vt.plain(x) for x in res.out.split("\n")]
        rec = {}
        for o in (out.outcomes or {}).get("outcomes", []):
            rec[scen_index(lab, o)] = o
        if n and not rec:
            v.append("no outcomes recorded (exit %s): %s" % (res.code, res.err[-300:]))
        # what is to be seen
        shown = {}
        want = {}
        for i, o in rec.items():
            s = o["summary"]
            name = "Unmutated baseline" if i == -1 else lab.names[i]
            if i is None:
                continue
            if i >= 0 and s == "CaughtMutant" and not {"-v", "--caught"} & set(a) or i >= 0 and s == "Unviable" and not {"-V", "--unviable"} & set(a):
                continue
            want[name] = VERDICT[s]
            shown[name] = i
        got = {}
        order = []
        totals = None
        found = []
        for x in lines:
            m = FOUND.match(x)
            if m:
                found.append(int(m[1]))
                order.append("found")
                continue
            m = TOTAL.match(x)
            if m:
                if totals is not None:
                    v.append("two summaries")
                totals = m
                order.append("total")
                continue
            m = LINE.match(x)
            if m:
                nm = m[2]
                if case.get("times"):
                    t = TIMES.search(nm)
                    if not t:
                        v.append("no times in %r" % x)
                    else:
                        ph = re.findall(r"check|build|test", t[0])
                        nm = nm[:t.start()]
                        i = shown.get(nm)
                        if i is not None and ph != [p["phase"].lower() for p in rec[i]["phase_results"]]:
                            v.append("times of phases %s in %r" % (ph, x))
                got.setdefault(nm, []).append(m[1])
                order.append("base" if nm == "Unmutated baseline" else "mutant")
        if found != [n]:
            v.append("announced %s mutants, selected %d" % (found, n))
        for nm in sorted(set(want) | set(got)):
            w, g = [want[nm]] if nm in want else [], got.get(nm, [])
            if w != g:
                v.append("%s is shown as %s, recorded as %s" % (nm, g, w or ("something not to be shown" if nm in lab.names else "nothing")))
        base_ok = base in ("M", "skip") or ("--check" in a and base == "C")
        if n and base_ok:
            if totals is None:
                v.append("no summary at the end: %r" % (lines[-3:],))
            else:
                sums = [o["summary"] for i, o in rec.items() if i is not None and i >= 0]
                parts = dict(reversed(p.split(" ", 1)) for p in totals[3].split(", ") if p)
                exp = {k: str(sums.count(s)) for k, s in COUNTED.items() if sums.count(s)}
                if int(totals[1]) != n or parts != exp:
                    v.append("summary %r, recorded %s" % (totals[0], exp))
                if bool(totals[2]) != bool(case.get("times")):
                    v.append("elapsed time in the summary: %r" % totals[0])
        rank = ["found", "base", "mutant", "total"]
        if [rank.index(o) for o in order] != sorted(rank.index(o) for o in order):
            v.append("shown in the order %s" % order)
        # logs
        d = by_scenario(lab, res)
        for nm, i in shown.items():
            full = "--all-logs" in a or (i == -1 and VERDICT[rec[i]["summary"]] != "ok")
            for c in d.get(i, []):
                k = sum(x.rstrip("\r") == "tag-%d-%s" % (c.seq, c.phase) for x in lines)
                if k != (1 if full else 0) and not both:
                    v.append("output of cargo %s of %s is shown %d times" % (c.phase, nm, k))
                if full and outs and not both:
                    b = BYTES[outs[0]].encode("utf-8", "surrogateescape").decode("utf-8", "replace")
                    if "<%s>" % b not in res.out.replace("\r\n", "\n"):
                        v.append("output %r of cargo %s of %s is not shown" % (b[:40], c.phase, nm))
        exp = 0 if n == 0 else expected_exit(codes, base_ok, "--check" in a)
        if res.code != exp and not set(codes) & set("Ss"):
            v.append("exit %s, expected %s" % (res.code, exp))
        if base_ok and n and not set(codes) & set("Ss"):
            v += check_reports(lab, out, codes, "--check" in a, base="M", baseline=base != "skip" and "--baseline=skip" not in a)
        return dict(viol=v, states=[h((sorted(got.items(), key=str), found, res.code))], transitions=len(res.events), nontrivial=[h(case)] if res.children else [],
                    sample=dict(case=case, stdout=text[-600:], exit=res.code))


CHECK = C()
