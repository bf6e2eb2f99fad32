from runs import *
import array, fcntl, itertools, json, termios

US = "\x1f"
FEATS = [[], ["--no-default-features"], ["--all-features"], ["--features", "a"], ["--features=a,b", "--features=c d"], ["--no-default-features", "--features", "x/y"], ["--all-features", "--features=\u00e9"], ["--no-default-features", "--all-features", "--features=a", "--features=a"]]
CARGS = [[], ["--release"], ["--config", "a b=\"c\""], ["-Zx", "--locked", "-v", "-v"], ["--target=\u00e9"], [""]]
TARGS = [[], ["--lib"], ["--", "--test-threads=1", "-q"], ["--no-fail-fast", "--", "name with space", ""], ["--release"]]
GOODCFG = ["", "# nothing\n", "\n\n", "cap_lints = false\n", "additional_cargo_args = []\n", "profile = \"p\"\n"]
BADCFG = ["nonsense\n", "= 1\n", "[\n", "cap_lint = true\n", "timeout = 3\n", "jobs = 2\n", "[mutants]\ncap_lints = true\n", "cap_lints = \"yes\"\n", "cap_lints = 1\n", "copy_vcs = \"x\"\n", "error_values = \"E\"\n", "error_values = [1]\n",
          "examine_globs = \"*.rs\"\n", "exclude_globs = [[]]\n", "exclude_re = \"x\"\n", "examine_re = {}\n", "additional_cargo_args = \"--release\"\n", "additional_cargo_test_args = [true]\n", "minimum_test_timeout = \"3\"\n", "output = 1\n",
          "output = [\"x\"]\n", "profile = [\"x\"]\n", "profile = true\n", "skip_calls = \"x\"\n", "skip_calls_defaults = \"no\"\n", "test_package = true\n", "test_tool = \"make\"\n", "test_tool = \"Cargo\"\n", "test_tool = true\n",
          "timeout_multiplier = \"1\"\n", "build_timeout_multiplier = []\n", "test_workspace = \"a\"\n", "cap_lints = true\ncap_lints = true\n", "examine_re = [\"(\"]\n", "exclude_re = [\"[a\"]\n", "examine_globs = [\"a[\"]\n", "exclude_globs = [\"{a\"]\n",
          "profile = \"x\nfoo = 1\n", "additional_cargo_args = [\"a\"\n", "ADDITIONAL_CARGO_ARGS = []\n", "additional-cargo-args = []\n", "all_features = true\n", "features = [\"x\"]\n", "error_values = [\"E\"]\nerror_value = [\"E\"]\n", "\u00e9 = 1\n"]


def toml(v):
    return json.dumps(v, ensure_ascii=False) if not isinstance(v, bool) else ("true" if v else "false")


class C(Check):
    id = "C20"
    level = "exploration"
    batch = 4
    rule = ("every combination, within groups, of: test tool, profile and --check, on the command line and in the config; features, cargo arguments and test arguments on both; lint capping on both with every state of RUSTFLAGS and "
            "CARGO_ENCODED_RUSTFLAGS; jobserver and task count and jobs; config file location and start directory; each malformed config in each mode. The command line and environment of every cargo process are compared with the reference; "
            "non-trivial when some option is given")
    assumptions = ["rustc flags set in cargo's own config files are outside the property: the tool documents in the code that it does not read them", "cargo itself is replaced by a stand-in that records how it is called"]

    def bounds_for(self, tier):
        return dict(features=len(FEATS), cargo_args=len(CARGS), test_args=len(TARGS), bad_configs=len(BADCFG), mutants=1)

    def cases(self, tier):
        q = tier == "quick"
        for tc, tf, pc, pf, ck, nc in itertools.product((None, "cargo", "nextest"), (None, "cargo", "nextest"), (None, "x", "a b"), (None, "y"), (0, 1), (0, 1)):
            yield dict(k="run", cli=dict(tool=tc, profile=pc), cfg=dict(test_tool=tf, profile=pf), check=ck, nocfg=nc)
        for f, (c1, c2), (t1, t2), ck, tool in itertools.product(FEATS if not q else FEATS[:1] + FEATS[3:], itertools.product(CARGS[:4], CARGS[:3]), itertools.product(TARGS[:4], TARGS[:3]), (0, 1), (None, "nextest")):
            yield dict(k="run", cli=dict(tool=tool, features=f, cargs=c1, targs=t1), cfg=dict(additional_cargo_args=c2, additional_cargo_test_args=t2), check=ck)
        for f, ck, tool, pc in itertools.product(FEATS, (0, 1), (None, "nextest"), (None, "x")):
            yield dict(k="run", cli=dict(tool=tool, features=f, profile=pc), cfg={}, check=ck)
        for c1, c2, t1, t2, nc in itertools.product(CARGS[2:], CARGS[2:], TARGS[1:], TARGS[1:], (0, 1)):
            yield dict(k="run", cli=dict(cargs=c1, targs=t1), cfg=dict(additional_cargo_args=c2, additional_cargo_test_args=t2), nocfg=nc)
        ENC = [None, "", "-Copt-level=1", "-C" + US + "debuginfo=0", "--cfg" + US + "a=\"b c\"", "--cap-lints=allow"]
        RF = [None, "", " ", "-Dwarnings", "-C debuginfo=0 --cfg x", "  -C  opt-level=1 ", "--cap-lints=deny"]
        for a, b, en, rf, ck, nc in itertools.product((None, "true", "false"), (None, True, False), ENC, RF, (0, 1), (0, 1)):
            yield dict(k="run", cli=dict(cap=a), cfg=dict(cap_lints=b), env={"CARGO_ENCODED_RUSTFLAGS": en, "RUSTFLAGS": rf}, check=ck, nocfg=nc)
        for js, n, j, ck in itertools.product((None, "true", "false"), (None, 1, 2, 3, 16), (None, 1, 2, 3), (0, 1)):
            yield dict(k="run", cli=dict(js=js, jst=n, jobs=j), cfg={}, check=ck, tree="2")
        for e in ({"INSTA_UPDATE": "always"}, {"INSTA_FORCE_PASS": "1"}, {"INSTA_UPDATE": "auto", "INSTA_FORCE_PASS": "1", "INSTA_WORKSPACE_ROOT": "/x"}, {"CARGO": None}, {"CARGO_BUILD_JOBS": "3", "CARGO_TARGET_DIR": "tt", "A": "", "B": "x y\nz", "\u00e9": "\u00e9"},
                  {"RUST_BACKTRACE": "1", "RUST_LOG": "debug", "CARGO_INCREMENTAL": "0", "RUSTC_WRAPPER": "w"}, {"CARGO_TERM_COLOR": "always", "NO_COLOR": None, "CARGO_MUTANTS_TRACE_LEVEL": "debug"}, {"MAKEFLAGS": "-k", "CARGO_MAKEFLAGS": "-j2"}):
            for ck in (0, 1):
                for x in ([], ["--in-place"], ["--baseline=skip"], ["-j2"]):
                    yield dict(k="run", cli={}, cfg=dict(cap_lints=True), env=e, check=ck, more=x, tree="2")
        # every combination of single-valued settings at once
        for tf, pf, cf, t, p, c in itertools.product((None, "nextest"), (None, "y"), (None, True), (None, "cargo"), (None, "x"), (None, "false")):
            for fe in (FEATS[0], FEATS[4]):
                yield dict(k="run", cli=dict(tool=t, profile=p, cap=c, features=fe, cargs=["--a"], targs=["--b"]), cfg=dict(test_tool=tf, profile=pf, cap_lints=cf, additional_cargo_args=["--c"], additional_cargo_test_args=["--d"]), more=["--in-place"])
        for bad in BADCFG:
            for mode in (["--list"], ["--list", "--json"], ["--list-files"], []):
                for nc in (0, 1):
                    yield dict(k="bad", text=bad, mode=mode, nocfg=nc)
        for good in GOODCFG:
            for mode in (["--list"], ["--list-files"], []):
                yield dict(k="bad", text=good, mode=mode, nocfg=0, good=1)
        for odd in ("dir", "nonutf8", "link", "linkbad", "unreadable", "crlf", "nul"):
            for mode in (["--list"], ["--list", "--json"], ["--list-files"], []):
                for nc in (0, 1):
                    yield dict(k="bad", text=odd, odd=1, mode=mode, nocfg=nc, good=odd in ("link", "crlf"))
        # where the config is read from
        for where, how in itertools.product(("root", "member", "both", "parent"), ("root", "member", "src", "dir", "manifest", "dirmember")):
            for nc in (0, 1):
                yield dict(k="where", where=where, how=how, nocfg=nc)

    def run_case(self, R, case):
        return getattr(self, "k_" + case["k"])(R, case)

    # ---- one run against the reference command lines and environment
    def k_run(self, R, case):
        cli, cfg = case["cli"], {k: v for k, v in case["cfg"].items() if v is not None}
        files = tree_files(case.get("tree", "1"))
        if cfg:
            files[".cargo/mutants.toml"] = "".join("%s = %s\n" % (k, toml(v)) for k, v in cfg.items())
        lab = Lab(R, files)
        lab.load()
        a = ["--no-shuffle", "--no-times", "--timeout=60"] + case.get("more", [])
        if case.get("nocfg"):
            a.append("--no-config")
            cfg = {}
        if case.get("check"):
            a.append("--check")
        if cli.get("tool"):
            a.append("--test-tool=" + cli["tool"])
        if cli.get("profile"):
            a.append("--profile=" + cli["profile"])
        if cli.get("cap"):
            a += ["--cap-lints=" + cli["cap"]]
        if cli.get("js"):
            a.append("--jobserver=" + cli["js"])
        if cli.get("jst"):
            a.append("--jobserver-tasks=%d" % cli["jst"])
        if cli.get("jobs"):
            a.append("-j%d" % cli["jobs"])
        a += cli.get("features", [])
        for x in cli.get("cargs", []):
            a.append("--cargo-arg=" + x)
        if cli.get("targs"):
            a += ["--"] + cli["targs"]
        envx = dict(case.get("env") or {})
        cargo = R.t.fakecargo
        if "CARGO" in envx:     # found on the path instead
            d = os.path.join(lab.case, "bin")
            os.makedirs(d)
            os.symlink(R.t.fakecargo, os.path.join(d, "cargo"))
            envx["PATH"] = d + ":" + R.t.env["PATH"]
            cargo = "cargo"
        toks, pipes, got_in = {}, set(), set()
        answers = os.path.join(lab.case, "answers")
        with open(answers, "w") as f:
            f.write("y\n" * 100)

        def look(c, r):
            toks[c.seq], pipe = tokens(c)
            pipes.add(pipe)
            try:
                got_in.add(os.readlink("/proc/%d/fd/0" % c.pid))
            except OSError:
                pass
        codes = "M" * len(lab.mutants)
        with open(answers) as f:
            res = lab.run(a, codes, env=envx, wall=60, on_start=look, stdin=f)
        check = bool(case.get("check"))
        v = check_children(lab, res, codes, check=check, baseline="--baseline=skip" not in a)
        want = 0 if check else 2
        if res.code != want:
            v.append("exit %s, expected %d: %s" % (res.code, want, res.err[-300:]))
        tool = cli.get("tool") or cfg.get("test_tool") or "cargo"
        prof = cli.get("profile") or cfg.get("profile")
        cap = {"true": True, "false": False, None: cfg.get("cap_lints", False)}[cli.get("cap")]
        cargs = cli.get("cargs", []) + cfg.get("additional_cargo_args", [])
        targs = cli.get("targs", []) + cfg.get("additional_cargo_test_args", [])
        feats, it = [], iter(cli.get("features", []))
        for x in it:
            feats.append("--features=" + next(it) if x == "--features" else x)
        js = cli.get("js") != "false"
        for c in res.children:
            nx = tool == "nextest" and c.phase != "check"
            head = {"check": ["check", "--tests"], "build": ["nextest", "run", "--no-run"] if nx else ["test", "--no-run"], "test": ["nextest", "run"] if nx else ["test"]}.get(c.phase)
            mid = ["--package=ws@0.1.0"] + feats + ([("--cargo-profile=" if nx else "--profile=") + prof] if prof else [])
            tail = cargs + (targs if c.phase == "test" else [])
            if c.argv[0] != cargo:
                v.append("runs %s instead of %s" % (c.argv[0], cargo))
            got = c.argv[1:]
            nt = len(got) - len(tail)
            sub = got[:2] if nx else got[:1]
            rest = got[len(sub):nt]
            if "--verbose" in rest:
                rest.remove("--verbose")
            exp = head[len(sub):] + mid
            if sub != head[:len(sub)] or got[nt:] != tail or sorted(rest) != sorted(exp):
                v.append("%s runs %r, expected %r then %r then %r" % (c.phase, got, head, mid, tail))
            v += self.env_diff(res.env, c, cap, js)
            if js and cli.get("jst") and toks[c.seq] != cli["jst"]:
                v.append("the jobserver holds %s tokens, not %s" % (toks[c.seq], cli["jst"]))
            if js and not toks[c.seq]:
                v.append("no usable jobserver for %s" % c.phase)
            if v:
                break
        if answers in got_in:
            v.append("cargo can read the standard input of cargo-mutants")
        if js and len(pipes) > 1:
            v.append("%d different jobservers: the limit does not hold across all cargo processes" % len(pipes))
        v += diff_snap(lab.orig, snapshot(lab.root))
        return dict(viol=v, n=len(res.children), states=[h((c.argv[1:], sorted(c.env.items())[:0])) for c in res.children], transitions=len(res.events), nontrivial=[h(case)] if len(a) > 3 or cfg or envx else [],
                    sample=dict(case=case, argv=res.children[-1].argv[1:] if res.children else None))

    def env_diff(self, parent, c, cap, js):
        want = dict(parent)
        want["INSTA_UPDATE"] = "no"
        want["INSTA_FORCE_PASS"] = "0"
        if cap:
            en, rf = parent.get("CARGO_ENCODED_RUSTFLAGS"), parent.get("RUSTFLAGS")
            l = (en.split(US) if en else []) if en is not None else [x for x in (rf or "").split(" ") if x]
            want["CARGO_ENCODED_RUSTFLAGS"] = US.join(l + ["--cap-lints=warn"])
        got = dict(c.env)
        v = []
        mf = jsvar(got)
        if js != ("--jobserver" in mf):
            v.append("jobserver %s but the make flags are %r" % (js, mf))
        for d in (want, got):
            for k in list(d):
                if k.startswith(("SHIM_", "FC_")) or k in ("LD_PRELOAD",) or (js and k in ("CARGO_MAKEFLAGS", "MAKEFLAGS", "MFLAGS")):
                    d.pop(k)
        for k in sorted(set(want) | set(got)):
            if want.get(k) != got.get(k):
                v.append("environment variable %s is %r for cargo %s, expected %r" % (k, got.get(k), c.phase, want.get(k)))
        return v

    def k_bad(self, R, case):
        files = tree_files("1")
        if case.get("odd"):
            files.update({"dir": {".cargo/mutants.toml/x": ""}, "nonutf8": {".cargo/mutants.toml": b"profile = \"\xff\"\n"}, "link": {".cargo/mutants.toml": Link("../conf.txt"), "conf.txt": "cap_lints = true\n"},
                          "linkbad": {".cargo/mutants.toml": Link("../conf.txt"), "conf.txt": "cap_lint = true\n"}, "unreadable": {".cargo/mutants.toml": Link("/proc/self/mem")},
                          "crlf": {".cargo/mutants.toml": "cap_lints = true\r\nprofile = \"x\"\r\n"}, "nul": {".cargo/mutants.toml": b"\x00"}}[case["text"]])
        else:
            files[".cargo/mutants.toml"] = case["text"]
        lab = Lab(R, files)
        lab.load(["--no-config"])
        nc = ["--no-config"] if case["nocfg"] else []
        ok = case["nocfg"] or case.get("good")
        v = []
        if case["mode"]:
            r = R.simple(lab.case, lab.root, case["mode"] + nc)
            code, out, err = r.code, r.out, r.err
            kids = 0
            if not ok and out.strip():
                v.append("prints a listing in spite of the broken config %r" % case["text"])
        else:
            res = lab.run(["--no-times"] + nc, "C" * len(lab.mutants), wall=30)
            code, err, kids = res.code, res.err, len(res.children)
        if ok and code != 0:
            v.append("exit %s with config %r: %s" % (code, case["text"], err[-200:]))
        if not ok:
            if code == 0:
                v.append("malformed config %r is accepted" % case["text"])
            if kids:
                v.append("cargo is run in spite of the malformed config %r" % case["text"])
            if not err.strip():
                v.append("no message about the malformed config %r" % case["text"])
        return dict(viol=v, states=[h(case)], transitions=kids + 1, nontrivial=[h(case)] if not case.get("good") else [], sample=case)

    def k_where(self, R, case):
        """Only the workspace root's config counts, wherever the tool is started."""
        w = case["where"]
        files = {"Cargo.toml": "[workspace]\nmembers = ['m']\n", "m/Cargo.toml": cargo_toml("m"), "m/src/lib.rs": fn_src(["a"])}
        text = "additional_cargo_args = [\"--from-%s\"]\n"
        if w in ("root", "both"):
            files[".cargo/mutants.toml"] = text % "root"
        if w in ("member", "both"):
            files["m/.cargo/mutants.toml"] = text % "member"
        lab = Lab(R, files, [dict(name="m", dir="m", targets=[("lib", "m", "src/lib.rs")])], root="up/ws")
        write_tree(lab.case, {"up/x": "", **({"up/.cargo/mutants.toml": text % "parent"} if w == "parent" else {})})
        cwd, a = {"root": (lab.root, []), "member": (lab.root + "/m", []), "src": (lab.root + "/m/src", []), "dir": (lab.case, ["-d", lab.root]), "manifest": (lab.case, ["--manifest-path", lab.root + "/m/Cargo.toml"]), "dirmember": (lab.case + "/up", ["-d", "ws/m"])}[case["how"]]
        nc = ["--no-config"] if case["nocfg"] else []
        lab.load()
        res = lab.run(["--no-times", "--no-shuffle", "--timeout=30"] + a + nc, "C" * len(lab.mutants), cwd=cwd, wall=40)
        exp = ["--from-root"] if w in ("root", "both") and not nc else []
        v = [] if res.code == 0 else ["exit %s: %s" % (res.code, res.err[-300:])]
        for c in res.children:
            g = [x for x in c.argv if x.startswith("--from-")]
            if g != exp:
                v.append("started %s with configs at %s: cargo gets %s, expected %s" % (case["how"], w, g, exp))
        if len(res.children) != 4:
            v.append("%d cargo runs" % len(res.children))
        return dict(viol=v, n=len(res.children), states=[h(case)], transitions=len(res.events), nontrivial=[h(case)])


def jsvar(env):
    """The variable in which a cargo process looks for its jobserver."""
    for k in ("CARGO_MAKEFLAGS", "MAKEFLAGS", "MFLAGS"):
        if "--jobserver" in env.get(k, ""):
            return env[k]
    return ""


def tokens(c):
    """Tokens waiting in the jobserver the child was given, and which pipe that is."""
    mf = jsvar(c.env)
    for w in mf.split():
        if w.startswith(("--jobserver-auth=", "--jobserver-fds=")):
            x = w.split("=", 1)[1]
            try:
                p = x[5:] if x.startswith("fifo:") else "/proc/%d/fd/%d" % (c.pid, int(x.split(",")[0]))
                fd = os.open(p, os.O_RDONLY | os.O_NONBLOCK)
            except (OSError, ValueError):
                return None, None
            try:
                b = array.array("i", [0])
                fcntl.ioctl(fd, termios.FIONREAD, b)
                st = os.fstat(fd)
                return b[0], (st.st_dev, st.st_ino)
            finally:
                os.close(fd)
    return None, None


CHECK = C()
