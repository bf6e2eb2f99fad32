from runs import *
import itertools, json, os, socket, subprocess

VCS = [".git", ".hg", ".bzr", ".svn", "_darcs", ".jj", ".pijul"]
OUT = ["mutants.out", "mutants.out.old"]
LIB = {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": fn_src(["a", "b"])}


def everything():
    """One tree with every kind of entry."""
    f = dict(LIB)
    f["Cargo.lock"] = "# lock\n"
    f["empty"] = ""
    f["bin.dat"] = bytes(range(256)) * 700
    f["exact64k"] = b"\0" * 65536
    f["nonl"] = "no newline"
    f["crlf.txt"] = "a\r\nb\r\n"
    f["run.sh"] = Exec("#!/bin/sh\n")
    f["d/deep/er/run"] = Exec("x")
    f["ro"] = ReadOnly("read only")
    f["d/ro.rs"] = ReadOnly("fn x() {}\n")
    f["emptydir"] = DIR
    f["d/emptydir/inner"] = DIR
    f[".hidden"] = "h"
    f[".hdir/.h2/file"] = "h"
    f[".cargo/config.toml"] = "[build]\nincremental = false\n"
    f[".ignore"] = "ign*\nd\nsrc\n"
    f["ign1"] = "i"
    f["d/ign2"] = "i"
    f[".rgignore"] = "*\n"
    f[".gitattributes"] = "* text\n"
    f["d/.gitkeep"] = ""
    f[".github/workflows/x.yml"] = "x"
    f["a b/\u00e9 \u65e5.txt"] = "u"
    f["~tilde#"] = "x"
    f["*glob*[x]?"] = "x"
    f["lf"] = Link("empty")
    f["ld"] = Link("d")
    f["d/up"] = Link("../src/lib.rs")
    f["dangling"] = Link("no/such")
    f["loop"] = Link("loop")
    f["self"] = Link(".")
    f["abs"] = Link("/etc/hostname")
    f["out"] = Link("../outside")
    f["hl/.hidden-link"] = Link("../.hidden")
    f["target/debug/x"] = "t"
    f["d/target/CACHEDIR.TAG"] = "t"
    f["node_modules/x/y"] = "n"
    f["d/Cargo.toml.orig"] = "x"
    f["d/x.rs.bk"] = "x"
    f["x~"] = "x"
    f["tmp.tmp"] = "x"
    f["emptyexec"] = Exec("")
    f["d/emptyexec"] = Exec("")
    f["emptyro"] = ReadOnly("")
    f["d/deep/lf"] = Link("../ro.rs")
    f["d/deep/ld"] = Link("er")
    f["d/deep/er/ldd"] = Link("../..")
    f["d/deep/er/dead"] = Link("gone")
    f["d/deep/er/abs"] = Link("/etc")
    f["e/out1/mutants.out"] = Link("../../d")
    f["e/link1/.hg"] = Link("../../d")
    for o in OUT:
        f["d/deep/%s/log/x" % o] = "x"
        f["d/deep/er/more/%s/y" % o] = "x"
        f["e/%s.d/y" % o] = "x"
        f["d/%s/caught.txt" % o] = "x"
        f["e/%s" % o] = "a file"
    for n in ("mutants.out2", "xmutants.out", "mutants.out.old2", "mutants.outx", "Mutants.out", "mutants"):
        f[n + "/k"] = "k"
    for v in VCS:
        if v != ".git":
            f[v + "/HEAD"] = "v"
            f["d/%s/deep/HEAD" % v] = "v"
            f["d/deep/er/%s/y" % v] = "v"
        f["f/" + v] = "a file"
        f["near/%sx" % v] = "k"
        f["near/x%s/k" % v] = "k"
        f["near/" + v.upper()] = "k"
    f["near/CVS/Entries"] = "c"
    f["d/sub/.git/HEAD"] = "ref: refs/heads/m\n"
    f["d/sub/file"] = "s"
    f[".gitmodules"] = "m"
    return f


def is_out(p):
    return any(c in OUT for c in p.split("/"))


def is_vcs(p):
    return any(c in VCS for c in p.split("/"))


PAT = ["x", "/x", "x/", "/x/", "*.o", "d/x", "/d/x", "d/*", "d/**", "**/x", "d/**/x", "**/d/x/", "x*", "?", "[xy]", "[!x]", "\\!x", "#x", "\\#x", "x ", "x\\ ", "*", "*/", "d/", "/d", "sub", "d/sub/", "/**/sub", "**", "sub/*", "*.O", "*.*", "X", ".x", "d/*.o", "[a-x]", "/*/x", "e/x", "d/x/", "xx"]
NEG = ["!x", "!/x", "!*.o", "!d/x", "!d/", "!*/", "!**/x", "!sub/x", "!y.o", "!/d/*"]
PATHS = ["x", "y.o", "X", ".x", "xx", "xy.o", "#x", "!x", "x ", "d/x", "d/y.o", "d/xx", "d/sub/x", "d/sub/y.o", "d/sub/d/x", "sub/x", "sub/y", "e/x/f", "e/x/y.o", "e/d/x/g", "z/q/w"]

SCALE = [("size", x) for x in (0, 1, 511, 512, 4095, 4096, 4097, 65536, 100000, 1 << 20, (9 << 20) + 7, 40 << 20)] + [("depth", x) for x in (5, 12, 20, 40, 100)] + [("name", x) for x in (100, 200, 255)] + [("many", x) for x in (50, 300, 1500)] + [("odd", x) for x in ("file", "dir", "link", "target", "fifo", "socket")]


class C(Check):
    id = "C22"
    level = "exploration"
    batch = 4
    rule = ("a tree with every kind of entry (contents, modes, hidden files, symlinks of all sorts, earlier outputs and version-control directories at several depths, and near misses of those names) under every combination of copy options, git state, "
            "job count and baseline; and trees with git ignore files (root, nested, parent, info/exclude, global) holding every pattern and ordered pair of patterns of a grammar; the build directory seen by each cargo process must hold exactly the expected "
            "entries, where what git ignores is decided by git itself; non-trivial when something is left out")
    assumptions = ["git check-ignore --no-index decides what git patterns exclude", "special files (sockets, fifos, devices) are outside the property", "contents of nested git repositories (submodules) are judged by the outer repository's patterns only where both agree"]

    def bounds_for(self, tier):
        return dict(entries=len(everything()), patterns=len(PAT) + len(NEG), pattern_list_length=2 if tier == "quick" else 3, ignore_files=5)

    def cases(self, tier):
        for git, cv, cf, gi, j, base in itertools.product(("none", "root", "file", "parent", "grand"), (None, "true", "false"), (None, True, False), (None, "true", "false"), (1, 2), ("run", "skip")):
            yield dict(k="all", git=git, cv=cv, cf=cf, gi=gi, jobs=j, base=base)
        for what in SCALE:
            for git in ("none", "root"):
                for gi in (None, "false"):
                    yield dict(k="scale", what=what, git=git, gi=gi, jobs=1)
        safe = [p for p in PAT if p not in ("*", "**", "*/", "*.*")]
        for git in ("root", "none", "parent", "file", "grand"):
            for p in PAT + NEG:
                for at in ("w", "root", "parent", "exclude", "global", "w/d"):
                    if at in ("w", "w/d") or p in safe or p in NEG:
                        if git == "root" or tier != "quick" or p in PAT[:8]:
                            yield dict(k="pat", git=git, at={at: [p]})
        for git in ("root", "parent", "grand", "file"):
            for at in ("w", "root", "parent", "exclude", "global", "w/d"):
                for p in (PAT[:8] + NEG[:2] if tier == "quick" else safe + NEG):
                    if not (git == "file" and at == "exclude"):
                        yield dict(k="pat", git=git, at={at: [p]}, cv=1)
                        yield dict(k="pat", git=git, at={at: [p]}, gi="false", cv=PAT.index(p) % 2 if p in PAT else 0)
        for a, b in itertools.product(PAT + NEG, repeat=2):
            if a != b and (b[0] == "!" or a[0] == "!" or tier != "quick"):
                yield dict(k="pat", git="root", at={"w": [a, b]})
        for a, b in itertools.product(safe, NEG):
            yield dict(k="pat", git="root", at={"root": [a], "w": [b]})
            yield dict(k="pat", git="root", at={"root": [b], "exclude": [a]})
            yield dict(k="pat", git="root", at={"root": [b], "global": [a]})
            if tier != "quick":
                yield dict(k="pat", git="root", at={"exclude": [b], "global": [a]})
                yield dict(k="pat", git="parent", at={"parent": [a], "w": [b]})
                yield dict(k="pat", git="root", at={"w": [a], "w/d": [b]})
        for a, b in itertools.product(safe[:8], NEG[:4]):
            yield dict(k="pat", git="parent", at={"parent": [a], "root": [b]})
            yield dict(k="pat", git="root", at={"parent": [a], "root": [b]})
            yield dict(k="pat", git="root", at={"w": [a, b]}, gi="false")
        if tier != "quick":
            for a, b, c in itertools.product(PAT, NEG, PAT + NEG):
                yield dict(k="pat", git="root", at={"w": [a, b, c]})

    def run_case(self, R, case):
        return getattr(self, "k_" + case["k"])(R, case)

    def k_scale(self, R, case):
        """Sizes of files, depth of directories, lengths of names and numbers of entries."""
        kind, n = case["what"]
        files = {"Cargo.toml": LIB["Cargo.toml"], "src/lib.rs": fn_src(["only"])}
        if kind == "size":
            files["d/big.bin"] = ("0123456789abcde\n" * (n // 16 + 1))[:n]
        elif kind == "depth":
            files["/".join("d%d" % i for i in range(n)) + "/f.txt"] = "deep"
        elif kind == "name":
            files["d/" + "n" * n] = "long"
            files["e" * n + "/x"] = "long"
        elif kind == "many":
            for i in range(n):
                files["d/f%d" % i] = str(i)
        elif kind == "odd":      # names that are not UTF-8, and things that are neither files, directories nor links
            files.update({"file": {"d/\udcff\udcfe.txt": "x"}, "dir": {"d\udce9/x": "x"}, "link": {"l\udce9": Link("d")}, "target": {"l": Link("\udce9")}}.get(n, {}))
            files["d/z"] = "z"
        lab = self.mk(R, files, True)
        top = self.setup_git(lab.case, lab.root, case["git"])
        before = snapshot(lab.root, skip_top=())
        want = self.expect(R, lab, top, before, False, case["gi"] != "false")
        if kind == "odd":
            if n == "fifo":
                os.mkfifo(os.path.join(lab.root, "d/pipe"))
            elif n == "socket":
                s = socket.socket(socket.AF_UNIX)
                s.bind(os.path.join(lab.root, "d/sock"))
                s.close()
            else:                # either copied, or the run ends before any cargo is run
                res = lab.run(["--no-shuffle", "--no-times", "--timeout=60"], "M" * len(lab.mutants), wall=60)
                if res.code not in (0, 2, 3, 4) and not res.children and res.err.strip() and "panicked" not in res.err:
                    return dict(viol=[], n=1, states=[h(case)], transitions=1, nontrivial=[h(case)], sample=dict(case=case, exit=res.code))
        v, res, nd = self.go(R, lab, case, ["--gitignore=" + case["gi"]] if case["gi"] else [], want)
        return dict(viol=v, n=len(res.children), states=[h((case, c.seq)) for c in res.children], transitions=len(want) * len(res.children), nontrivial=[h(case)], sample=dict(case=case, kept=len(want), of=len(before), dirs=nd))

    def setup_git(self, case_dir, root, git, excl=()):
        """A minimal repository whose top is the tree itself or a directory above it."""
        repo = {"hooks": ["x"]}
        top = {"root": root, "file": root, "parent": os.path.dirname(root), "grand": os.path.dirname(os.path.dirname(root)), "none": None}[git]
        if top is None:
            return None
        gd = os.path.join(top, ".git")
        if git == "file":
            gd = os.path.join(case_dir, "realgit")
            write_tree(top, {".git": "gitdir: %s\n" % gd})
        write_tree(gd, {"HEAD": "ref: refs/heads/main\n", "objects/x": DIR, "refs/heads": DIR, "config": "[core]\n\trepositoryformatversion = 0\n\tbare = false\n"})
        if excl:
            write_tree(gd, {"info/exclude": "".join(p + "\n" for p in excl)})
        return top

    def ignored(self, R, case_dir, top, root, paths):
        env = R.env(case_dir, root)
        env.update(GIT_CONFIG_NOSYSTEM="1", GIT_CEILING_DIRECTORIES=os.path.dirname(case_dir))
        pre = os.path.relpath(root, top)
        pre = "" if pre == "." else pre + "/"
        full = [pre + p for p in paths]
        p = subprocess.run(["git", "-c", "safe.directory=*", "check-ignore", "--no-index", "-z", "--stdin"], cwd=top, env=env, input="\0".join(full).encode("utf-8", "surrogateescape") + b"\0", capture_output=True)
        if p.returncode not in (0, 1):
            raise CheckError("git check-ignore: " + p.stderr.decode())
        s = set(p.stdout.decode("utf-8", "surrogateescape").split("\0"))
        return {x for x, f in zip(paths, full) if f in s}

    def expect(self, R, lab, top, snap, vcs, gi):
        keep = {k: v for k, v in snap.items() if not is_out(k) and (vcs or not is_vcs(k))}
        if top and gi:
            ign = self.ignored(R, lab.case, top, lab.root, [k for k in keep if not is_vcs(k)])
            keep = {k: v for k, v in keep.items() if not any(a in ign for a in anc(k))}
        return keep

    def compare(self, want, got, what):
        v = []
        for k in sorted(set(want) | set(got)):
            a, b = want.get(k), got.get(k)
            if a is None:
                v.append("%s holds %s, which should be left out" % (what, k))
            elif b is None:
                v.append("%s lacks %s" % (what, k))
            elif a[0] != b[0] or (a[0] == "l" and a[1] != b[1]):
                v.append("%s: %s is %s, not %s" % (what, k, b[:2], a[:2]))
            elif a[0] == "f" and a[2] != b[2]:
                v.append("%s: content of %s differs" % (what, k))
            elif a[0] == "f" and (a[1] & 0o111) != (b[1] & 0o111):
                v.append("%s: mode of %s is %o, not %o" % (what, k, b[1], a[1]))
        return v[:6]

    def go(self, R, lab, case, args, want):
        n = len(lab.mutants)
        res = lab.run(["--no-shuffle", "--no-times", "--timeout=60"] + args, "M" * n, wall=60, on_start=lambda c, r: snapshot(c.cwd, skip_top=()))
        v = []
        if res.code != (0 if "--check" in args else 2):
            v.append("exit %s: %s" % (res.code, res.err[-400:]))
        dirs = {}
        seen = set()
        for c in res.children:
            t = dict(c.note)
            m = [(f, x) for f, x in lab.texts if t.get(f, (0, 0, b""))[2:] == (x,)]
            if m:
                t[m[0][0]] = (t[m[0][0]][0], t[m[0][0]][1], lab.orig[m[0][0]][2])
            what = "the build directory of a %s of %s" % (c.phase, "mutant" if m else "the baseline")
            v += self.compare(want, t, what)
            dirs.setdefault(c.cwd, 0)
            seen.add(bool(m))
            if v:
                break
        if not res.children:
            v.append("no cargo run at all")
        return v, res, len(dirs)

    def mk(self, R, files, deep, loadargs=("--no-config",)):
        lab = Lab(R, files, root="up/g/ws")
        lab.load(list(loadargs))
        return lab

    def k_all(self, R, case):
        files = everything()
        if case["cf"] is not None:
            files[".cargo/mutants.toml"] = "copy_vcs = %s\n" % str(case["cf"]).lower()
        files[".gitignore"] = "target\n/node_modules/\n*.bk\nd/emptydir\n"
        lab = self.mk(R, files, True)
        top = self.setup_git(lab.case, lab.root, case["git"])
        vcs = case["cv"] == "true" if case["cv"] else bool(case["cf"])
        gi = case["gi"] != "false"
        before = snapshot(lab.root, skip_top=())
        want = self.expect(R, lab, top, before, vcs, gi)
        for o in OUT:
            write_tree(lab.root, {o + "/old": "x"})
        a = []
        if case["cv"]:
            a.append("--copy-vcs=" + case["cv"])
        if case["gi"]:
            a.append("--gitignore=" + case["gi"])
        if case["jobs"] > 1:
            a.append("-j%d" % case["jobs"])
        if case["base"] == "skip":
            a.append("--baseline=skip")
        v, res, nd = self.go(R, lab, case, a, want)
        v += diff_snap({k: x for k, x in before.items()}, {k: x for k, x in snapshot(lab.root, skip_top=OUT).items()})[:3]
        return dict(viol=v, n=len(res.children), states=[h((case, c.seq)) for c in res.children], transitions=len(want) * len(res.children), nontrivial=[h(case)], sample=dict(case=case, kept=len(want), of=len(before), dirs=nd))

    def k_pat(self, R, case):
        files = {"Cargo.toml": LIB["Cargo.toml"], "src/lib.rs": fn_src(["only"])}
        for p in PATHS:
            files["w/" + p] = "1"
            files[p] = "1"
        at = case["at"]
        for where, pats in at.items():
            if where in ("root", "w", "w/d"):
                files[("" if where == "root" else where + "/") + ".gitignore"] = "".join(p + "\n" for p in pats)
        lab = self.mk(R, files, False)
        if "parent" in at:
            write_tree(os.path.dirname(lab.root), {".gitignore": "".join(p + "\n" for p in at["parent"])})
        if "global" in at:
            write_tree(os.path.join(lab.case, "home"), {".config/git/ignore": "".join(p + "\n" for p in at["global"])})
        top = self.setup_git(lab.case, lab.root, case["git"], at.get("exclude", ()))
        snap = snapshot(lab.root, skip_top=())
        want = self.expect(R, lab, top, snap, bool(case.get("cv")), case.get("gi") != "false")
        if any(k not in want for k in ("Cargo.toml", "src/lib.rs")):
            return dict(viol=[], n=0)
        a = ["--check", "--baseline=skip"] + (["--gitignore=" + case["gi"]] if case.get("gi") else []) + (["--copy-vcs=true"] if case.get("cv") else [])
        v, res, nd = self.go(R, lab, case, a, want)
        v = ["%s with ignore files %s: %s" % (case["git"], at, x) for x in v]
        return dict(viol=v, states=[h(sorted(want))], transitions=len(want), nontrivial=[h(case)] if len(want) < len([k for k in snap if not is_vcs(k)]) else [])


def anc(k):
    p = k.split("/")
    return ["/".join(p[:i]) for i in range(1, len(p) + 1)]


CHECK = C()
