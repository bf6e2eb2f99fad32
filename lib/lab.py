"""Reference model of a run, and the observation of a real run against it."""
import json, os, re
from core import *
from harness import h

SUMMARY = {"C": "CaughtMutant", "M": "MissedMutant", "U": "Unviable", "T": "Timeout", "B": "Timeout", "S": "Failure", "s": "Failure"}
LISTS = {"CaughtMutant": "caught.txt", "MissedMutant": "missed.txt", "Timeout": "timeout.txt", "Unviable": "unviable.txt"}
COUNTS = {"CaughtMutant": "caught", "MissedMutant": "missed", "Timeout": "timeout", "Unviable": "unviable", "Success": "success"}


def fn_src(names, sep="\n"):
    """One mutant per function: `replace NAME with ()`."""
    return sep.join("pub fn %s() {\n    let _ = \"%s\";\n}\n" % (n, n) for n in names)


def lab_files(spec):
    """spec: {'src/lib.rs': ['a','b'], 'src/m.rs': [...]}; other modules are declared from lib.rs."""
    files = {"Cargo.toml": cargo_toml("ws")}
    mods = [os.path.basename(p)[:-3] for p in spec if p != "src/lib.rs"]
    for p, names in spec.items():
        t = fn_src(names)
        if p == "src/lib.rs":
            t = "".join("mod %s;\n" % m for m in mods) + t
        files[p] = t
    return files


def plan_of(code, phase):
    """What a cargo child for a scenario with this outcome code does in this phase."""
    if code == "C":
        return "exit:0" if phase == "build" else "exit:101"
    if code == "M":
        return "exit:0"
    if code == "U":
        return "exit:101"
    if code == "T":
        return "exit:0" if phase == "build" else "hang"
    if code == "B":
        return "hang"
    if code == "S":
        return "exit:0" if phase == "build" else "sig:9"
    if code == "s":
        return "sig:11"
    raise AssertionError(code)


_cache = {}


class Lab:
    """One workspace in one case directory."""

    def __init__(self, R, files, packages=None, default_members=None, keep=False, root="ws", sub=None, git=False):
        self.R = R
        self.case = R.fresh()
        self.root = os.path.join(self.case, root)
        write_tree(self.root, files)
        self.packages = packages or [dict(name="ws", dir=".", targets=[("lib", "ws", "src/lib.rs")])]
        R.prepare(self.case, self.root, self.packages, default_members)
        self.orig = snapshot(self.root)
        self.rewritten = ()      # files in which relative paths are made absolute in a copy
        self.mutants = None
        self.ckey = h((sorted((k, str(v) if v is not DIR else "DIR") for k, v in files.items()), self.packages, default_members))

    def list(self, args=(), diff=True, **kw):
        r, l = self.R.list(self.case, self.root, (["--diff"] if diff else []) + list(args), **kw)
        if l is None:
            raise ToolError("listing failed (%s): %s %s" % (r.code, r.out[-500:], r.err[-1500:]))
        return l

    def load(self, args=()):
        ck = (self.ckey, tuple(args))
        if ck in _cache:
            self.mutants, self.texts, self.names = _cache[ck]
            return self.mutants
        self.mutants = self.list(args)
        self.texts = []
        for m in self.mutants:
            f = os.path.relpath(os.path.realpath(os.path.join(self.root, m["file"])), os.path.realpath(self.root))   # through symlinks
            t = self.orig[f][2].decode().replace("\r\n", "\n")
            self.texts.append((f, mutated_text(t, m).encode()))
        r = self.R.simple(self.case, self.root, ["--list"] + list(args))
        self.names = r.out.splitlines()
        if len(self.names) != len(self.mutants):
            raise ToolError("--list and --list --json disagree: %r" % (self.names,))
        _cache[ck] = (self.mutants, self.texts, self.names)
        return self.mutants

    def ident(self, tree, extra_ok=()):
        """Which scenario does this tree hold?  -1 the original, i mutant i, or a string describing the difference."""
        d = [k for k in set(tree) | set(self.orig) if tree.get(k) != self.orig.get(k) and not any(k == x or k.startswith(x + "/") for x in extra_ok)]
        if not d:
            return -1
        if len(d) == 1 and d[0] in tree and tree[d[0]][0] == "f":
            for i, (f, t) in enumerate(self.texts):
                if f == d[0] and tree[f][2] == t and tree[f][1] == self.orig[f][1]:
                    return i
        return "; ".join(diff_snap({k: v for k, v in self.orig.items() if k in d}, {k: v for k, v in tree.items() if k in d}))[:600]

    def who(self, c):
        """Scenario index of a child, from the tree it saw (falls back to the marker in any one file)."""
        if c.obs is None:
            c.obs = self.ident(c.tree, self.rewritten)
        return c.obs

    def guess(self, c):
        """Scenario of a child even if its tree is not quite right: by the mutated functions visible."""
        w = self.who(c)
        if isinstance(w, int):
            return w
        for i, (f, t) in enumerate(self.texts):
            if c.tree.get(f, (0, 0, b""))[2:3] == (t,):
                return i
        return -1

    def policy(self, codes, base="M", dur=None, more=None):
        """codes: outcome code per mutant index; dur: {(who, phase): seconds}"""
        def pol(c):
            w = self.guess(c)
            code = base if w < 0 else codes[w]
            end = plan_of(code, c.phase)
            if c.phase == "check":
                end = {"C": "exit:0", "M": "exit:0", "U": "exit:101", "T": "hang", "B": "hang", "S": "sig:9", "s": "sig:11"}[code]
            p = dict(end=end, step=5.0)
            if dur:
                p["dur"] = dur.get((w, c.phase), 0)
            if more:
                p.update(more(c, w) or {})
            return p
        return pol

    def run(self, args, codes, base="M", dur=None, more=None, **kw):
        return self.R.run(self.case, self.root, args, self.policy(codes, base, dur, more), **kw)

    def out(self, path=None):
        return Out(path or os.path.join(self.root, "mutants.out"), self)

    def index_of(self, m):
        """Index of a JSON mutant in the listing."""
        for i, x in enumerate(self.mutants):
            if key(x) == key(m):
                return i
        return None


def key(m):
    return (m["package"], m["file"], m["span"]["start"]["line"], m["span"]["start"]["column"], m["span"]["end"]["line"], m["span"]["end"]["column"], m["replacement"])


class Out:
    """Parsed contents of an output directory."""

    def __init__(self, path, lab=None):
        self.path = path
        self.exists = os.path.isdir(path)
        self.lists = {}
        self.errors = []
        for n in LISTS.values():
            t = read_lines(os.path.join(path, n))
            self.lists[n] = t
        self.outcomes = self._json("outcomes.json")
        self.mutants = self._json("mutants.json")

    def _json(self, n):
        try:
            with open(os.path.join(self.path, n)) as f:
                return json.load(f)
        except FileNotFoundError:
            return None
        except ValueError as e:
            self.errors.append("%s is not valid JSON: %s" % (n, e))
            return None

    def lines(self, n):
        t = self.lists[n]
        return t.splitlines() if t else []


def scen_index(lab, o):
    s = o["scenario"]
    if s == "Baseline":
        return -1
    return lab.index_of(s["Mutant"])


def expected_exit(codes, base_ok=True, check=False):
    if not base_ok:
        return 4
    sums = [summary_of(c, check) for c in codes]
    if "Timeout" in sums:
        return 3
    if "MissedMutant" in sums:
        return 2
    return 0


def summary_of(code, check=False):
    if check:
        return {"C": "Success", "M": "Success", "U": "Unviable", "T": "Timeout", "B": "Timeout", "S": "Failure", "s": "Failure"}[code]
    return SUMMARY[code]


def expected_phases(code, check=False):
    if check:
        return ["check"]
    return ["build"] if code in "UBs" else ["build", "test"]


def check_reports(lab, out, codes, check=False, base="M", done=None, baseline=True):
    """Agreement of outcomes.json, the text lists and mutants.json with what the cargo children really did."""
    v = list(out.errors)
    n = len(codes)
    done = range(n) if done is None else done
    if out.mutants is None:
        v.append("mutants.json missing")
    elif sorted(map(key, out.mutants)) != sorted(map(key, lab.mutants)):
        v.append("mutants.json does not hold the selected mutants")
    if out.outcomes is None:
        return v + ["outcomes.json missing"]
    seen = {}
    for o in out.outcomes["outcomes"]:
        i = scen_index(lab, o)
        if i is None:
            v.append("outcome for an unknown mutant %r" % (o["scenario"],))
            continue
        if i in seen:
            v.append("two outcomes for scenario %d" % i)
        seen[i] = o
        exp = summary_of(codes[i], check) if i >= 0 else ("Success" if base == "M" else "Timeout" if base in "TB" else "Failure")
        if o["summary"] != exp:
            v.append("scenario %d: summary %s, but its cargo runs mean %s (code %s)" % (i, o["summary"], exp, codes[i] if i >= 0 else base))
    want = set(done) | ({-1} if baseline else set())
    if set(seen) != want:
        v.append("outcomes.json has scenarios %s, expected %s" % (sorted(seen), sorted(want)))
    sums = [summary_of(codes[i], check) for i in done]
    if out.outcomes["total_mutants"] != len(sums):
        v.append("total_mutants=%d, expected %d" % (out.outcomes["total_mutants"], len(sums)))
    for s, c in COUNTS.items():
        if out.outcomes[c] != sums.count(s):
            v.append("%s=%d, expected %d" % (c, out.outcomes[c], sums.count(s)))
    for s, f in LISTS.items():
        exp = sorted(lab.names[i] for i in done if summary_of(codes[i], check) == s)
        if out.lists[f] is None:
            v.append("%s missing" % f)
        elif sorted(out.lines(f)) != exp or (out.lists[f] and not out.lists[f].endswith("\n")):
            v.append("%s holds %r, expected %r" % (f, out.lines(f), exp))
    return v


def check_logs(lab, out, children_of, codes, check=False):
    """Every scenario has its own log with the commands run for it, and its own diff equal to the listed one."""
    v = []
    if out.outcomes is None:
        return v
    logs, diffs = set(), set()
    for o in out.outcomes["outcomes"]:
        i = scen_index(lab, o)
        lp = o["log_path"]
        if lp in logs:
            v.append("log %s shared" % lp)
        logs.add(lp)
        try:
            t = open(os.path.join(out.path, lp), encoding="utf-8").read()
        except (OSError, ValueError) as e:
            v.append("log of scenario %s unreadable: %s" % (i, e))
            continue
        cmds = [c for c in children_of.get(i, ())]
        head = lab.names[i] if i is not None and i >= 0 else "baseline"
        if "*** %s\n" % head not in t:
            v.append("log %s does not name its scenario %s" % (lp, head))
        for j, nm in enumerate(lab.names):
            if j != i and "\n*** %s\n" % nm in t:
                v.append("log %s of %s also holds scenario %s" % (lp, head, nm))
        if t.count("*** result:") != len(cmds):
            v.append("log %s records %d results for %d cargo runs" % (lp, t.count("*** result:"), len(cmds)))
        for c in cmds:
            q = " ".join(re.sub(r"([ \\'\"])", r"\\\1", a) for a in c.argv[1:])
            if q not in t:
                v.append("log %s lacks the command %s" % (lp, q))
            tag = "tag-%d-%s" % (c.seq, c.phase)
            if c.plan and ("out " + tag) in c.plan.get("cmds", ()) and t.count(tag + "\n") != 1:
                v.append("log %s lacks the output of its own cargo run" % lp)
        for k, cs in children_of.items():
            if k != i:
                for c in cs:
                    tag = "tag-%d-%s" % (c.seq, c.phase)
                    if c.plan and ("out " + tag) in c.plan.get("cmds", ()) and tag + "\n" in t:
                        v.append("log %s of scenario %s holds output of scenario %s" % (lp, i, k))
        if i is not None and i >= 0:
            dp = o.get("diff_path")
            if not dp:
                v.append("no diff path for mutant %d" % i)
                continue
            if dp in diffs:
                v.append("diff %s shared" % dp)
            diffs.add(dp)
            try:
                d = open(os.path.join(out.path, dp), encoding="utf-8", newline="").read()
            except (OSError, ValueError) as e:
                v.append("diff of mutant %d unreadable: %s" % (i, e))
                continue
            if d != lab.mutants[i]["diff"]:
                v.append("diff file of mutant %d differs from --list --diff" % i)
    return v


def by_scenario(lab, res):
    d = {}
    for c in res.children:
        d.setdefault(lab.guess(c), []).append(c)
    return d


def check_children(lab, res, codes, check=False, base="M", baseline=True, complete=True):
    """Each child saw the right tree; each scenario ran exactly its phases, once, in order."""
    v = []
    for c in res.children:
        w = lab.who(c)
        if not isinstance(w, int):
            v.append("cargo %s saw a tree that is no single mutation: %s" % (c.phase, w))
    d = by_scenario(lab, res)
    if baseline:
        exp = expected_phases(base, check)
        got = [c.phase for c in d.get(-1, [])]
        if got != exp:
            v.append("baseline ran %s, expected %s" % (got, exp))
    elif d.get(-1):
        v.append("unmutated tree was run although the baseline is skipped")
    if complete:
        for i in range(len(codes)):
            got = [c.phase for c in d.get(i, [])]
            exp = expected_phases(codes[i], check)
            if got != exp:
                v.append("mutant %d ran %s, expected %s" % (i, got, exp))
    return v


def log_ops(res):
    """[(k, tid, op, path)] from the shim's log."""
    r = []
    for l in res.log:
        if l.startswith("O "):
            p = l.split(" ", 4)
            r.append((int(p[1]), int(p[2]), p[3], p[4] if len(p) > 4 else ""))
    return r


def decisions(res):
    """[(pos, choice, me_enabled, [enabled], why)]"""
    r = []
    for l in res.log:
        if l.startswith("D "):
            p = l.split(" ")
            r.append((int(p[1]), int(p[2]), int(p[3]), [int(x) for x in p[4].split(",")], p[5]))
    return r


def canon_path(p):
    """Paths of scratch directories get a stable name."""
    return re.sub(r"cargo-mutants-[^/]*?\.tmp", "BUILD", p)
