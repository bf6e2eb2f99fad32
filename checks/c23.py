from runs import *
import copy, itertools, json, tomllib

NAME = "ws"
# form -> path as written, relative to the workspace "up/g/ws"; @OUT@ is the case directory
FORMS = {
    "in": "sub", "in-dot": "./sub", "in-deep": "a/b/sub", "in-out-in": "a/../sub", "in-hidden": ".x/..y", "in-slash": "sub/", "in-self": ".", "in-back": "a/..", "in-dotname": "..sub", "in-dotname2": "a/...", "in-space": "a b/\u00e9",
    "in-doubleslash": "a//b/..//sub", "in-backinto": "sub/../a/../b",
    "out": "../sib", "out2": "../../x/y", "out3": "../../../z", "out-self": "..", "out-dot": "./../sib", "out-mid": "a/../../sib", "out-deepmid": "a/b/../../../sib/c", "out-then-in": "../sib/../other", "out-slash": "../sib/",
    "out-trail": "a/b/c/../../../../q", "out-prefix": "../ws2", "out-prefix2": "../w", "out-space": "../a b/\u00e9", "out-dotname": "../..x", "out-doubleslash": "..//sib", "out-dots": ".././../y",
    "abs": "/no/such/dir", "abs-dots": "/no/../such", "abs-in": "@ROOT@/sub", "abs-out": "@CASE@/up/sib",
    "round": "../ws/sub", "round2": "../../g/ws", "round-mid": "a/../../ws/sub",
}
# table -> where the entry goes
TABLES = ["dependencies", "dev-dependencies", "build-dependencies", "dev_dependencies", "build_dependencies", "replace", "patch.crates-io", "patch.url", "target.cfg.dependencies", "target.triple.dependencies", "target.cfg.dev-dependencies",
          "target.cfg.build-dependencies", "workspace.dependencies", "config.paths", "config.patch.crates-io", "config.patch.url"]
KEY = {"patch.url": ("patch", "https://github.com/x/y"), "patch.crates-io": ("patch", "crates-io"), "target.cfg.dependencies": ("target", "cfg(not(windows))", "dependencies"),
       "target.triple.dependencies": ("target", "x86_64-unknown-linux-gnu", "dependencies"), "target.cfg.dev-dependencies": ("target", "cfg(unix)", "dev-dependencies"),
       "target.cfg.build-dependencies": ("target", "cfg(unix)", "build-dependencies"), "workspace.dependencies": ("workspace", "dependencies"),
       "config.patch.crates-io": ("patch", "crates-io"), "config.patch.url": ("patch", "ssh://git@x/y.git")}
STYLES = ["inline", "inline-extra", "table", "dotted", "literal", "quoted-key", "multiline", "spaced", "crlf", "escaped"]

# things that must keep their meaning; none is a path the property speaks about
RICH = '''
# a comment
[package.metadata.x]
path = "../not-a-dependency"
int = 9223372036854775807
hex = 0xff
neg = -0
flt = 1.5e300
inf = -inf
bool = true
odt = 1979-05-27T07:32:00.999-07:00
ldt = 1979-05-27T07:32:00
ld = 1979-05-27
lt = 07:32:00
ml = """
two
  lines \\
   joined "quoted" \\u00e9"""
lit = \'C:\\..\\x\'
"quoted key" = "v"
"" = "empty key"
"a.b" = 1
nested = [[1, 2], ["a"], [{ path = "../y" }]]
empty = []
emptyt = {}
dependencies = { z = { path = "../z" } }
patch = { z = { z = { path = "../z" } } }

[[package.metadata.arr]]
path = "../a"
[[package.metadata.arr]]
dependencies = "../b"

[features]
default = ["a"]
a = []
"b-c" = ["a"]

[[bin]]
name = "ws-bin"
path = "src/../src/main.rs"

[[example]]
name = "e"
path = "../ex/e.rs"

[profile.dev]
opt-level = 0

[lints.rust]
unused = { level = "allow", priority = -1 }
'''
RICHC = '''
[build]
rustflags = ["-C", "opt-level=0"]
target-dir = "target/../target"
[alias]
x = "run -- ../y"
xs = ["run", "../y"]
[env]
P = { value = "../rel", relative = true }
[source.vendored]
directory = "vendor"
[target."cfg(unix)"]
runner = "../runner"
[metadata]
paths = ["../x"]
d = 1979-05-27T07:32:00Z
path = "../z"
'''


def q(s, style):
    if style == "literal":
        return "'%s'" % s
    if style == "multiline":
        return '"""%s"""' % s
    if style == "escaped":
        return '"' + "".join("\\u%04x" % ord(c) for c in s) + '"'
    return json.dumps(s, ensure_ascii=False)


def key(k):
    return k if re.fullmatch(r"[A-Za-z0-9_-]+", k) else json.dumps(k)


def entry(table, name, path, style):
    """TOML text of one entry; (text for header-less top, text for the rest)"""
    keys = KEY.get(table, (table,))
    h_ = ".".join(key(k) for k in keys)
    nm = key(name)
    v = q(path, style)
    if style == "inline-extra":
        return '[%s]\n%s = { version = "1", path = %s, features = ["f", "../g"], default-features = false, optional = true, package = "other" } # why\n' % (h_, nm, v)
    if style == "table":
        return '[%s.%s]\npath = %s\nversion = "=1.2.3"\n' % (h_, nm, v)
    if style == "dotted":
        return '[%s]\n%s.path = %s\n%s.version = "1"\n' % (h_, nm, v, nm)
    if style == "quoted-key":
        return '[%s]\n%s = { "path" = %s }\n' % (h_, json.dumps(name), v)
    if style == "spaced":
        return '  [ %s ]  # x\n\t%s   =   {path=%s}\n' % (h_, nm, v)
    return '[%s]\n%s = { path = %s }\n' % (h_, nm, v)


class C(Check):
    id = "C23"
    level = "exploration"
    batch = 4
    rule = ("every place a path can stand (dependency, dev, build, target-specific and workspace dependency tables, replace, patch, config paths and config patch) with every form of path (inside, outside by 1-3 levels, in and out, absolute, look-alikes of dots and of the "
            "workspace's name) and every TOML spelling of the entry, singly and in ordered pairs, in several job counts and modes; in each build directory seen by a cargo process every path must lead where the original led (inside the copy if it was inside) and everything else "
            "must parse to the same value; non-trivial when a path leads outside")
    assumptions = ["paths are resolved textually, as cargo does", "Python's tomllib reads TOML correctly", "manifests of member packages other than the workspace's own are outside the property"]

    def bounds_for(self, tier):
        return dict(tables=len(TABLES), forms=len(FORMS), styles=len(STYLES), entries=2 if tier == "quick" else 3)

    def cases(self, tier):
        for t in TABLES:                                   # every place x every form, plain spelling, several per manifest would mask
            for f in FORMS:
                yield dict(e=[[t, f, "inline"]])
        for t in TABLES:
            for s in STYLES[1:]:
                for f in ("out", "in", "out-mid") if tier == "quick" else FORMS:
                    yield dict(e=[[t, f, s]], rich=True)
        sel = ["in", "out", "abs", "out-mid"] if tier == "quick" else ["in", "out", "out2", "abs", "out-mid", "in-out-in", "in-dotname"]
        for a, b in itertools.product(TABLES, repeat=2):   # two entries, same or different tables, either order
            for fa, fb in itertools.product(sel, repeat=2):
                if tier == "quick" and ("out" not in (fa, fb) and "out-mid" not in (fa, fb)):
                    continue
                yield dict(e=[[a, fa, "inline"], [b, fb, "inline"]])
        for t in TABLES:
            for mode in ("j2", "skip", "inplace", "member", "many", "links"):
                for f in ("in", "out"):
                    yield dict(e=[[t, f, "inline"]], mode=mode, rich=True)
        for t in TABLES:                                    # all forms at once in one table
            yield dict(e=[[t, f, "inline"] for f in FORMS if not f.startswith("round")], rich=True)
        for f in FORMS:                                     # one form in all tables at once
            if not f.startswith("round"):
                yield dict(e=[[t, f, "inline"] for t in TABLES if "_" not in t], rich=True)
        if tier != "quick":
            for a, b, c in itertools.product(TABLES, repeat=3):
                for fs in (("in", "out", "out2"), ("out", "in", "out-mid")):
                    yield dict(e=[[a, fs[0], "inline"], [b, fs[1], "inline"], [c, fs[2], "inline"]])

    def texts(self, case, root, cdir):
        man, cfg, paths = {}, {}, []
        names = {}
        for i, (t, f, s) in enumerate(case["e"]):
            p = FORMS[f].replace("@ROOT@", root).replace("@CASE@", cdir)
            if t == "config.paths":
                paths.append((p, s))
                continue
            name = "dep%d" % i if t != "replace" else "dep%d:1.0.%d" % (i, i)
            d = cfg if t.startswith("config.") else man
            d.setdefault(t, []).append((name, p, s))
        # put entries of the same table under one header
        def render(d):
            out = ""
            for t, es in d.items():
                if len(es) == 1:
                    out += entry(t, *es[0])
                else:
                    first = True
                    for n, p, s in es:
                        x = entry(t, n, p, s)
                        if s in ("inline", "inline-extra", "quoted-key", "spaced", "literal", "multiline", "escaped", "crlf"):
                            out += x if first else x.split("\n", 1)[1]
                        else:
                            out += x
                        first = False
            return out
        m, c = render(man), render(cfg)
        if paths:
            st = paths[0][1]
            if st in ("table", "spaced"):
                c = "paths = [\n" + "".join("  %s, # x\n" % q(p, s) for p, s in paths) + "]\n" + c
            else:
                c = "paths = [%s]\n" % ", ".join(q(p, s) for p, s in paths) + c
        return m, c

    def run_case(self, R, case):
        mode = case.get("mode", "")
        rich = case.get("rich")
        probe = "up/g/ws"
        files = {"src/lib.rs": fn_src(["a", "b", "c"]), "src/main.rs": "fn main() {}\n"}
        pk = None
        if mode == "member":
            files["member/Cargo.toml"] = cargo_toml("member")
            files["member/src/lib.rs"] = fn_src(["m"])
        files["Cargo.toml"] = cargo_toml(NAME)
        lab = Lab(R, files, root=probe)
        m, c = self.texts(case, lab.root, lab.case)
        crlf = any(e[2] == "crlf" for e in case["e"])
        mt = cargo_toml(NAME) + (RICH if rich else "") + m
        if mode == "member":
            mt += '[workspace]\nmembers = ["member"]\n' if "[workspace" not in mt else ""
        ct = c + (RICHC if rich and c else "")
        if crlf:
            mt, ct = mt.replace("\n", "\r\n"), ct.replace("\n", "\r\n")
        try:
            wm, wc = tomllib.loads(mt), tomllib.loads(ct)
        except tomllib.TOMLDecodeError as e:
            raise CheckError("bad TOML in case %s: %s\n%s" % (case, e, mt + ct))
        if mode == "links":      # both files are links to others of the tree
            os.unlink(os.path.join(lab.root, "Cargo.toml"))
            write_tree(lab.root, {"conf/ws.toml": mt.encode(), "Cargo.toml": Link("conf/ws.toml")})
            if ct:
                write_tree(lab.root, {"conf/cargo.toml": ct.encode(), ".cargo/config.toml": Link("../conf/cargo.toml")})
        else:
            write_tree(lab.root, {"Cargo.toml": mt.encode()})
            if ct:
                write_tree(lab.root, {".cargo/config.toml": ct.encode()})
        lab.load(["--no-config"])
        before = snapshot(lab.root, skip_top=())
        args = ["--check", "--no-shuffle", "--no-times", "--timeout=60", "--no-config"]
        args += {"j2": ["-j2"], "skip": ["--baseline=skip"], "inplace": ["--in-place"], "many": ["-j3", "--baseline=skip"], "member": []}.get(mode, ["--baseline=skip"])

        def grab(c_, r_):
            out = {}
            for f in ("Cargo.toml", ".cargo/config.toml"):
                try:
                    out[f] = open(os.path.join(c_.cwd, f), "rb").read()
                except FileNotFoundError:
                    out[f] = None
            return out
        res = lab.run(args, "M" * len(lab.mutants), wall=60, on_start=grab)
        v = []
        if res.code != 0:
            v.append("exit %s: %s" % (res.code, res.err[-400:]))
        if not res.children:
            v.append("no cargo process ran")
        for ch in res.children:
            if v:
                break
            for f, want in (("Cargo.toml", wm), (".cargo/config.toml", wc if ct else None)):
                got = ch.note[f]
                if (got is None) != (want is None):
                    v.append("%s is %s in the build directory" % (f, "missing" if got is None else "new"))
                    continue
                if want is None:
                    continue
                try:
                    g = tomllib.loads(got.decode())
                except (ValueError, UnicodeDecodeError) as e:
                    v.append("%s in the build directory is not TOML: %s" % (f, e))
                    continue
                v += self.same(lab.root, ch.cwd, f, want, g)
        after = snapshot(lab.root, skip_top=("mutants.out",))
        v += ["original tree: " + x for x in diff_snap(before, after)[:3]]
        nt = [h(case)] if any(f.startswith("out") for _t, f, _s in case["e"]) else []
        return dict(viol=v, n=len(res.children), states=[h((case, ch.cwd)) for ch in res.children], transitions=len(case["e"]) * len(res.children), nontrivial=nt)

    def same(self, root, cwd, f, want, got):
        """Differences between the original and the copied file, after resolving the paths that matter."""
        want, got = copy.deepcopy(want), copy.deepcopy(got)

        def tables(d):
            r = []
            kinds = ("dependencies", "dev-dependencies", "dev_dependencies", "build-dependencies", "build_dependencies")
            if f == "Cargo.toml":
                for k in kinds + ("replace",):
                    r.append((k, d.get(k)))
                for t, x in (d.get("target") or {}).items():
                    r += [("target.%s.%s" % (t, k), x.get(k)) for k in kinds]
                r.append(("workspace.dependencies", d.get("workspace", {}).get("dependencies")))
            for s, x in (d.get("patch") or {}).items():
                r.append(("patch." + s, x))
            return [(n, x) for n, x in r if isinstance(x, dict)]

        def resolve(base, p):
            a = os.path.normpath(os.path.join(base, p))
            b = os.path.normpath(base)
            return "<tree>" + a[len(b):] if (a + "/").startswith(b + "/") else a

        for d, base in ((want, root), (got, cwd)):
            orig = d is want
            for _n, t in tables(d):
                for e in t.values():
                    if isinstance(e, dict) and isinstance(e.get("path"), str):
                        e["path"] = self.norm(e["path"], base, root, cwd, orig, resolve)
            if f != "Cargo.toml" and isinstance(d.get("paths"), list):
                d["paths"] = [self.norm(p, base, root, cwd, orig, resolve) if isinstance(p, str) else p for p in d["paths"]]
        r = []
        walk("", want, got, r)
        return ["%s: %s" % (f, x) for x in r[:4]]

    def norm(self, p, base, root, cwd, orig, resolve):
        if os.path.isabs(p) and orig:
            return "ABS " + os.path.normpath(p)       # absolute paths stay what they are
        if os.path.isabs(p):
            return "ABS " + os.path.normpath(p)
        r = resolve(base, p)
        return r if r.startswith("<tree>") else "ABS " + r


def walk(at, a, b, r):
    if type(a) is not type(b):
        r.append("%s was %r, is %r" % (at, a, b))
    elif isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                r.append("%s.%s %s" % (at, k, "is lost" if k in a else "is new"))
            else:
                walk(at + "." + k, a[k], b[k], r)
    elif isinstance(a, list):
        if len(a) != len(b):
            r.append("%s has %d elements, not %d" % (at, len(b), len(a)))
        else:
            for i, (x, y) in enumerate(zip(a, b)):
                walk("%s[%d]" % (at, i), x, y, r)
    elif a != b:
        r.append("%s led to %r, now %r" % (at, a, b))


CHECK = C()
