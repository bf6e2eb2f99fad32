from runs import *
import itertools, json, re

# Text with every construct that is read: attributes, modules, impls, traits, generics, macros, literals of all kinds, operators, match arms.
SRC = '''#![allow(dead_code)]
//! d\u00e9
use std::{fmt, result::Result as R};
mod m;
#[path = "q.rs"]
mod p;
macro_rules! k { ($($x:expr),*) => { 1 $(+ $x)* } }
#[cfg_attr(test, mutants::skip)]
pub fn a<'x, T: Into<u8>>(x: &'x [T; 3], c: char) -> Option<Vec<&'x str>> where T: Copy {
    match c { 'a'..='z' if 1 < 2 && c != '\\u{7f}' => None, '\\'' | '"' => Some(vec!["\\"{\\n"]), _ => R::<_, ()>::Ok(vec![]).ok() }
}
impl<T> S<T> { const N: usize = 0x1_f + 2; async fn b(&mut self) -> R<(u8, impl Iterator<Item = [i32; 2]>), Box<dyn Fn(&str) -> bool>> { x += !y as u8 << 1; r#"/*"#; b'\\xff' } }
trait Tr { fn new() -> Self; unsafe fn u(); fn d(&self) -> std::collections::BTreeMap<String, f64> { /* /* n */ */ -1.5e3 } }
#[cfg(test)] mod t { #[test] fn t() {} }
'''
CONFIG = '''examine_globs = ["src/**/*.rs", "x[ab]?{c,d}"]
exclude_re = ["impl (Debug|Display) for \\\\w+$"]
error_values = ["Err(anyhow!(\\"x\\"))", 'E::A { b: 1 }']
timeout_multiplier = 1.5
minimum_test_timeout = 3
test_tool = "cargo"
test_package = ["a", "b"]
additional_cargo_args = ["--all-features"]
copy_vcs = true
'''
MANIFEST = '''[package]
name = "ws"
version = "0.1.0"
[dependencies]
a = { path = "../a", version = "1" }
"b" = "2"
[target.'cfg(unix)'.dependencies.c]
path = """../c"""
[patch.crates-io]
d = { git = "https://x/y", path = "d" }
[workspace]
members = ["m"]
'''
CARGOCFG = '''paths = ["../p", 'q']
[patch.crates-io]
d = { path = "../d" }
[build]
rustflags = ["-C", "opt-level=0"]
'''
LIST = '''src/lib.rs:2:5: replace a with ()
src/lib.rs:6:5: replace b with ()
'''
DIFF = '''From 0 Mon Sep 17 00:00:00 2001
diff --git a/src/lib.rs b/src/lib.rs
index 1234567..89abcde 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,2 +1,3 @@ fn x() {
 pub fn a() {
-    q();
+    let _ = "a";
 }
@@ -4,0 +5,1 @@
+pub fn b() {
diff --git a/src/old.rs b/src/m.rs
similarity index 100%
rename from src/old.rs
rename to src/m.rs
diff --git a/n b/n
new file mode 100644
--- /dev/null
+++ b/n
@@ -0,0 +1 @@
+x
\\ No newline at end of file
'''
TOK = ["{", "}", "(", ")", "[", "]", "<", ">", "'", '"', "#", "!", "/*", "//", "\\", "\0", "\r", "\n", "\t", ",", ";", "=", "-", ".", "::", "&", "*", "fn ", "|", "mod ", "\u00e9", "\u2028", "\ufeff", "\udcff", "\udcc3("]

# return types and bodies that are right or wrong in unusual ways
TYPES = ["Vec<>", "Option<>", "Result<>", "Result<,>", "Option<'a>", "HashMap<K>", "HashMap<K, V, S>", "BTreeMap<>", "Box<>", "Arc<'a, T>", "Result<T, E, F>", "Vec<3>", "Vec<{ N }>", "Option<A = B>", "Iterator<Item = T>",
         "impl Iterator", "impl Iterator<>", "impl Iterator<Item>", "impl Iterator<Item = >", "impl ?Sized", "impl", "dyn", "dyn Fn()", "&", "&mut", "&'static", "*const", "*mut u8", "[]", "[u8]", "[u8; ]", "[u8; N + 1]", "[u8; _]",
         "[[u8; 2]; 3]", "()", "(,)", "(u8)", "(u8,)", "((),)", "!", "_", "Self", "Self::T", "<T as X>::Y", "<T>::Y", "::std::vec::Vec<u8>", "crate::Vec<u8>", "m!()", "m!{}", "fn()", "fn(u8) -> u8", "unsafe extern \"C\" fn(...)", "for<'a> Fn(&'a u8) -> &'a u8",
         "impl for<'a> Fn(&'a u8)", "Option", "Result", "Vec", "Fn(u8) -> u8", "Vec(u8) -> u8", "Option(u8)", "Cow<'_>", "Cow<'_, str>", "Cow<str>", "Rc<dyn X + 'a>", "(impl X, impl Y)", "Option<Option<Option<Option<Option<u8>>>>>", "Vec<Vec<Vec<Vec<bool>>>>",
         "Result<Result<bool, ()>, Result<(), ()>>", "[(bool, bool, bool, bool); 2]", "(bool, bool, bool, bool, bool, bool, bool, bool)", "HttpResponse", "HttpResponse<>", "NonZeroU8<>", "NonZero", "NonZero<>", "NonZero<u8>", "Mutex<>", "r#type", "r#Vec<u8>", "Vec<r#fn>",
         "typeof(x)", "impl 'a", "impl X + 'a", "dyn 'a", "u8 + u8", "bool where", "T where T: X", "Option<u8>::T", "Vec<u8>>", "Vec<<u8>", "Vec::<u8>", "Vec::<>", "std::vec::Vec::<u8>", "{ u8 }", "\"x\"", "1", "'a", "'a'", "..", "impl Iterator<Item = impl Iterator<Item = u8>>"]


# values of the wrong type or out of range, for every key that is read
VALUES = ["1", "-1", "0", "18446744073709551616", "1.5", "-0.5", "0.0", "nan", "inf", "-inf", "1e308", "1e-308", '""', '"x"', '"\\u0000"', "[]", '[""]', "[1]", "[[]]", '["x", 1]', "[{}]", "true", "false", "{}", "{ a = 1 }", '{ path = 1 }', '{ path = "" }', '{ path = ["x"] }', '{ path = "/" }', "1979-05-27T07:32:00Z", "'['", '"("', '"*{"', '"\\\\"', '"--"', '"\u00e9"', '"../.."']
CONFIG_KEYS = ["additional_cargo_args", "additional_cargo_test_args", "all_features", "build_timeout_multiplier", "cap_lints", "copy_vcs", "error_values", "examine_globs", "examine_re", "exclude_globs", "exclude_re", "features", "gitignore", "minimum_test_timeout", "no_default_features", "output", "profile", "skip_calls", "skip_calls_defaults", "test_package", "test_tool", "test_workspace", "timeout_multiplier", "timeout", "nosuch", '""', '"a.b"', "a.b"]
MAN_KEYS = ["dependencies", "dependencies.a", "dependencies.a.path", "dev-dependencies", "build-dependencies.a", "target", "target.x", "target.x.dependencies", "target.'cfg(x)'.dependencies.a.path", "patch", "patch.x", "patch.x.a", "patch.x.a.path", "replace", "replace.'a:1.0.0'", "replace.'a:1.0.0'.path", "workspace", "workspace.dependencies", "workspace.dependencies.a", "workspace.dependencies.a.path", "lib", "lib.path", "nosuch", "''"]
CARGOCFG_KEYS = ["paths", "patch", "patch.x", "patch.x.a", "patch.x.a.path", "build", "build.rustflags", "include", "nosuch"]
WHOLE = ["", "\n", "\ufeff", "\ufeff\n", "\ufeffpub fn a() -> bool { true }\n", "#!/bin/sh\npub fn a() -> bool { true }", "#!/bin/sh", "#![x]", "//", "/**/", "/*", "//!", "/// x", "/** x", "\r", "\r\n", "\0", "\u2028", "pub fn a() -> bool {\rtrue }\r", "pub fn a() -> bool {\r\n  true\r\n}\r\n", "pub fn a() -> bool { 1 == 2 }" * 400, "\n" * 70000 + "pub fn a() -> bool { true }", " " * 70000 + "pub fn a() -> bool { true }",
         "pub fn a() -> bool { " + "x == 1 && " * 150 + "true }", "pub fn a() -> u8 { " + "{" * 60 + "1" + "}" * 60 + " }", "mod a { " * 40 + "fn f() -> u8 { 2 } " + "}" * 40, "pub fn " + "x" * 5000 + "() -> bool { true }", "pub fn a() -> " + "Option<" * 40 + "u8" + ">" * 40 + " { x }", "pub fn a(" + "x: u8, " * 1000 + ") -> bool { true }", "pub fn r#fn() -> r#bool { true }", "pub fn \u00e9() -> bool { true }", "pub fn a() -> bool { \"\u00e9\" == \"\U0001f600\" }", "\udcff", "// \udcff\npub fn a() -> bool { true }", "\ufffepub fn a() {}"]
OPTS = [o + v for o in ("--shard=", "--timeout=", "--build-timeout=", "--timeout-multiplier=", "--build-timeout-multiplier=", "--minimum-test-timeout=", "--jobs=", "--file=", "--exclude=", "--re=", "--exclude-re=", "--package=", "--features=", "--cargo-arg=", "--error=", "--level=", "--colors=", "--test-tool=", "--test-package=", "--profile=", "--baseline=", "--cap-lints=", "--gitignore=", "--copy-vcs=", "--in-diff=", "--config=", "--jobserver-tasks=", "--sharding=", "--completions=", "--nosuch=")
        for v in ("", "0", "1", "-1", "1.5", "nan", "inf", "-inf", "1e308", "1e-308", "18446744073709551616", "true", "x", "[", "(", "{", "*", "**", "\\", "/", ".", "..", "0/0", "1/0", "0/1", "3/2", "1/2", "-1/2", "1/", "/2", "1/2/3", "a/b", "18446744073709551615/18446744073709551615", "0/18446744073709551616", "\u00e9", "\udcff", "a,b", ",", "--", " ", "src/lib.rs")]

ENVS = ["CARGO_ENCODED_RUSTFLAGS", "RUSTFLAGS", "CARGO_TERM_COLOR", "CARGO_MUTANTS_JOBS", "CARGO_MUTANTS_TRACE_LEVEL", "CARGO_MUTANTS_MINIMUM_TEST_TIMEOUT", "NO_COLOR", "CLICOLOR_FORCE", "TERM", "COLUMNS", "HOME", "PATH", "TMPDIR", "MAKEFLAGS", "CARGO_MAKEFLAGS", "MFLAGS", "CARGO", "LANG", "USER", "TZ", "NEXTEST_PROFILE", "CARGO_TARGET_DIR", "CARGO_HOME"]
ENVVALS = ["", "0", "-1", "x", "nan", "inf", "1.5", "1e308", "18446744073709551616", "\udcff", "\u00e9", "\x1f", "\x1f\x1f-C\x1f", " ", "-- --jobserver-auth=3,4", "--jobserver-auth=fifo:/nosuch", "--jobserver-fds=-1,-1", "/nosuch", "Cargo.toml", "x" * 4000, "auto\n"]

# unusual pieces of a diff
DIFFS = [(a, b, x) for a in ("1", "0", "2", "18446744073709551615", "18446744073709551616", "-1", "") for b in ("1,3", "0,0", "1", "1,0", "2,99999", "18446744073709551615,2", "18446744073709551614,3", "99999999999999999999,1", "3,1 @@ @@", "", ",", "1,3,4", "1, 3")
         for x in (" a\n+b\n c\n", "", "+b\n", "-b\n", " a\n", "\\ No newline at end of file\n", "+\r\n", "+b\n\\ No newline at end of file\n+c\n", "@@ -1 +1 @@\n", "x\n")]
HUNKS = ["@@ -1,0 +2,1 @@\n+    let _ = \"a\";\n", "@@ -2,0 +3,1 @@\n+}\n", "@@ -0,0 +1,1 @@\n+pub fn a() {\n", "@@ -2,1 +1,0 @@\n-x\n", "@@ -1,1 +0,0 @@\n-x\n", "@@ -3,1 +3,1 @@\n-x\n+}\n"]


# attributes and module declarations in odd forms
ATTRS = ["cfg", "cfg()", "cfg(,)", "cfg(test,)", "cfg(all)", "cfg(all())", "cfg(all(test, any()))", "cfg(not)", "cfg(not())", "cfg(not(test, test))", "cfg(all(all(all(test))))", "cfg(1)", "cfg(\"test\")", "cfg(test = 1)", "cfg = test", "cfg[test]", "cfg{test}", "cfg(::test)", "cfg(a::test)", "cfg(unix test)", "cfg(feature = )", "cfg(any(test,,))",
         "cfg_attr", "cfg_attr()", "cfg_attr(test)", "cfg_attr(test,)", "cfg_attr(test, )", "cfg_attr(, mutants::skip)", "cfg_attr(all(), mutants::skip, )", "cfg_attr(a = \"b\", mutants::skip = 1)", "cfg_attr(test, mutants::)", "cfg_attr(test, ::mutants::skip)", "cfg_attr = 1", "cfg_attr(test, cfg_attr(test, mutants::skip))", "cfg_attr(1, mutants::skip)", "cfg(all(1))", "cfg(all(test test))", "cfg(all(,))", "cfg(all(\"x\"))", "cfg(all[test])", "cfg(all{1})", "cfg(not(1))", "cfg(any(1))", "cfg(all(all(1)))", "cfg_attr(all(1), mutants::skip)", "cfg_attr(test, mutants::skip 1)", "cfg_attr(test, 1)", "cfg_attr(test, mutants(skip))", "mutants(skip)", "path = \"a\\nb\"", "path = c\"x\"", "path = 1 + 1", "path = -1", "path = \"~/x\"", "path = \"m\"", "path = \"m.rs\\u{0}\"",
        
         "mutants", "mutants()", "mutants::skip()", "mutants::skip = 1", "mutants::skip(,)", "mutants::", "::mutants::skip", "mutants::skip::x", "mutants<u8>::skip", "path", "path()", "path = 1", "path = x!()", "path = \"\"", "path = \".\"", "path = \"..\"", "path = \"/\"", "path = \"lib.rs\"", "path = \"../src/lib.rs\"", "path = \"m.rs/\"", "path = \"\\0\"", "path = r#\"m.rs\"#", "path = b\"m.rs\"", "path = \"m.rs\"x",
         "path = \"../../../../../../../../..\"", "test", "test()", "test = 1", "tokio::test", "test_case()", "doc = \"\"", "doc", "unsafe(no_mangle)", "unsafe()", "r#cfg(test)", "cfg(r#test)", "rustfmt::skip", "", "!", "(x)", "a b", "allow(x) allow(y)", "derive(", "x = {", "\"x\""]
ITEMS = ["%s pub fn g() -> u8 { 1 + 2 }\n", "%s mod m;\n", "%s mod t { pub fn g() -> bool { true } }\n", "%s impl X { fn g() -> u8 { 2 } }\n", "impl X { %s fn g() -> u8 { 2 } }\n", "trait X { %s fn g() -> u8 { 2 } }\n", "pub fn g() -> u8 { %s { 1 } }\n", "fn g() -> u8 { match x { %s 1 => 2, _ => 3 } }\n", "fn g(%s x: u8) -> u8 { 2 }\n", "%s use m;\n", "mod t { %s mod u; }\n", "%s"]
HEADS = ["src/lib.rs", "b/src/lib.rs", "b//src/lib.rs", "/b/src/lib.rs", "b", "b/", "", "/", ".", "..", "b/../b/src/lib.rs", '"b/src/lib.rs"', '"b/src/lib.rs', '"', '""', '"\\', '"b/src/\\303\\251.rs"', '"b/\\x"', '"b/\\"', '"b/\\777"', "b/src/lib.rs\t", "b/src/lib.rs\t2002-02-21 23:30:50.442260588 -0800",
         "b/src/lib.rs\t2002-02-21 23:30:50 -0800", "b/src/lib.rs\t2002-99-99 99:99:99.9 +9999", "b/src/lib.rs\t0000-00-00 00:00:00 +0000", "b/src/lib.rs\t1970-01-01T00:00:00Z", "b/src/lib.rs\t2002-02-21 23:30:60.999999999999999999999 -0800", "b/src/lib.rs\t99999-01-01 00:00:00 +0000", "b/src/lib.rs\tx",
         "b/src/lib.rs\t\t", "b/src/lib.rs (revision 2)", "b/src/lib.rs 2002-02-21", "b/src/\u00e9.rs", "b/src/\udcff.rs", "b/src/lib.rs\r", "b/src/lib.rs\0", "/dev/null", "b/dev/null", "b/" + "x/" * 3000 + "y"]


class C(Check):
    id = "C29"
    level = "exploration"
    batch = 2
    rule = ("a rich text of each kind of file that is read (source, module, cargo-mutants config, manifest, cargo config, diff, list of an earlier run) is cut off after every character, and every one of a set of tokens is put in before every character and in place of "
            "every character; odd types, attributes, hunks, whole files, values of each configuration and manifest key, values of options and environment variables, and kinds of directory entry are enumerated too; each is listed or run with the real binary, which must work, or fail with a message and without output, and never panic, die or hang; non-trivial when the outcome is a failure")
    assumptions = ["the metadata given by cargo itself is right", "source nested deeper than the stack allows is not given"]

    def bounds_for(self, tier):
        return dict(tokens=len(TOK) if tier != "quick" else "7 of %d (3 where the tool is run), in turn" % len(TOK), types=len(TYPES), diffs=len(DIFFS), headers=len(HEADS), attributes=len(ATTRS), values=len(VALUES), keys=len(CONFIG_KEYS + MAN_KEYS + CARGOCFG_KEYS), options=len(OPTS), variables=len(ENVS))

    def cases(self, tier):
        for kind, text in (("src", SRC), ("config", CONFIG), ("manifest", MANIFEST), ("cargocfg", CARGOCFG), ("list", LIST), ("text", DIFF)):
            for i in range(0, len(text) + 1, 6):
                yield dict(kind=kind, at=list(range(i, min(i + 6, len(text) + 1))), all=tier != "quick")
        for i in range(0, len(TYPES), 10):
            yield dict(kind="type", i=i)
        for i in range(0, len(DIFFS), 20):
            yield dict(kind="diff", i=i)
        for ctx, keys in (("config", CONFIG_KEYS), ("manifest", MAN_KEYS), ("cargocfg", CARGOCFG_KEYS)):
            for i in range(len(keys)):
                for j in range(0, len(VALUES), 13):
                    yield dict(kind="value", ctx=ctx, k=i, at=list(range(j, min(j + 13, len(VALUES)))))
        for i in range(0, len(WHOLE), 4):
            yield dict(kind="whole", i=i)
        for i in range(len(ENVS)):
            yield dict(kind="env", i=i)
        for i in range(0, len(OPTS), 40):
            yield dict(kind="opt", i=i)
        for i in range(0, len(ATTRS), 4):
            yield dict(kind="attr", i=i)
        for i in range(0, len(HEADS), 4):
            yield dict(kind="head", i=i)
        for k in (1, 2, 3):
            for hs in itertools.product(range(len(HUNKS)), repeat=k):
                if k < 3 or tier != "quick" or hs[0] != hs[2]:
                    yield dict(kind="hunks", h=list(hs))
        for f in ("src/lib.rs", "src/m.rs", "Cargo.toml", ".cargo/mutants.toml", ".cargo/config.toml", "mutants.out", "mutants.out/caught.txt", "mutants.out/lock.json", "mutants.out.old", "d.diff"):
            for what in ("missing", "empty", "dir", "loop", "dangling", "null", "deep"):
                yield dict(kind="entry", f=f, what=what)
                yield dict(kind="entry", f=f, what=what, it=True)

    def variants(self, case, text):
        for i in case["at"]:
            yield text[:i]
            toks = TOK if case["all"] else [TOK[(i * 7 + k) % len(TOK)] for k in range(3 if case["kind"] in ("manifest", "cargocfg") else 7)]
            for t in toks:
                yield text[:i] + t + text[i:]
                yield text[:i] + t + text[i + 1:]
            yield text[:i] + text[i + 1:]

    def lines(self, root, f):
        with open(os.path.join(root, f), "rb") as o:
            return o.read().count(b"\n") + 1

    def judge(self, v, what, r, listing=True, root=None):
        """The run works or says what is wrong."""
        if r.code in (101, 134) or r.code < 0 or "panicked" in r.err:
            v.append("%s: exit %s: %s" % (what, r.code, " / ".join(x for x in r.err.splitlines() if "panicked" in x or "assert" in x)[:300] or r.err[-200:]))
        elif r.code:
            if not r.err.strip():
                v.append("%s: exit %s without a message" % (what, r.code))
            if listing and r.out.strip():
                v.append("%s: exit %s but something is listed: %r" % (what, r.code, r.out[:80]))
        elif listing:
            nlines = {}
            try:
                for m in json.loads(r.out):
                    s, e = m["span"]["start"], m["span"]["end"]
                    nl = nlines.setdefault(m["file"], self.lines(root, m["file"]))
                    if e["line"] > nl:
                        v.append("%s: span %s in a file of %d lines" % (what, m["span"], nl))
                    if not (1, 1) <= (s["line"], s["column"]) <= (e["line"], e["column"]):
                        v.append("%s: span %s" % (what, m["span"]))
            except (ValueError, KeyError, TypeError) as x:
                v.append("%s: what is listed makes no sense: %r" % (what, x))
        return bool(r.code)

    def run_case(self, R, case):
        v, n, nt = [], 0, 0
        k = case["kind"]
        files = {"Cargo.toml": cargo_toml("ws"), "src/lib.rs": fn_src(["a", "b"]) + ("mod m;\n" if k == "entry" else ""), "src/m.rs": fn_src(["c"]), "src/q.rs": fn_src(["d"])}
        lab = Lab(R, files)
        lab.load()

        def put(f, text):
            p = os.path.join(lab.root, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as o:
                o.write(text.encode("utf-8", "surrogateescape"))
        ls = ["--list", "--json", "--diff"]

        def go(what, args, listing=True):
            nonlocal n, nt
            n += 1
            r = R.simple(lab.case, lab.root, args)
            nt += self.judge(v, what, r, listing, lab.root)
            return r
        if k == "src":
            for t in self.variants(case, SRC):
                put("src/lib.rs", t)
                go("source %r" % t[max(0, len(t) - 60):] if len(t) <= case["at"][-1] else "source with %r at %d" % (t[case["at"][0]:case["at"][0] + 12], case["at"][0]), ls)
        elif k == "type":
            for ty in TYPES[case["i"]:case["i"] + 10]:
                for body in ("{ x }", "{}", "{ match x { _ => 1 } }"):
                    for fn in ("pub fn f() -> %s %s\n", "impl X { fn f(&self) -> %s %s }\n", "trait X { fn f(&self) -> %s %s }\n", "impl %s { fn f() %s }\n", "impl X<%s> for Y { fn f() %s }\n", "impl X for %s { fn f() %s }\n"):
                        put("src/lib.rs", fn % (ty, body))
                        go("type %r in %r" % (ty, fn), ls)
        elif k == "whole":
            for t in WHOLE[case["i"]:case["i"] + 4]:
                put("src/lib.rs", t)
                for a in (ls, ["--list", "--colors=always", "--diff"], ["--list-files"]):
                    go("source %r %s" % (t[:40], a), a, a is ls)
        elif k == "opt":
            for o in OPTS[case["i"]:case["i"] + 40]:
                n += 1
                r = R.simple(lab.case, lab.root, ls + [o])
                nt += self.judge(v, "option %r" % o, r, not o.startswith("--completions="), lab.root)
        elif k == "env":
            name = ENVS[case["i"]]
            for val in ENVVALS:
                what = "%s=%r" % (name, val[:40])
                n += 2
                r = R.simple(lab.case, lab.root, ls, extra_env={name: val})
                nt += self.judge(v, what, r, True, lab.root)
                for a in (["--cap-lints=true"], ["-j2"]):
                    res = lab.run(["--check", "--no-shuffle", "--baseline=skip", "-F", "replace a "] + a, "M" * 9, wall=60, shim=False, env={name: val})
                    if res.hung:
                        v.append("%s: hangs" % what)
                    nt += self.judge(v, what, res, False)
        elif k == "value":
            ctx = case["ctx"]
            for i in case["at"]:
                key = {"config": CONFIG_KEYS, "manifest": MAN_KEYS, "cargocfg": CARGOCFG_KEYS}[ctx][case["k"]]
                what = "%s %s = %s" % (ctx, key, VALUES[i])
                put({"config": ".cargo/mutants.toml", "manifest": "Cargo.toml", "cargocfg": ".cargo/config.toml"}[ctx], (cargo_toml("ws") + "\n" if ctx == "manifest" else "") + ("[%s]\n%s = %s\n" % (key.rpartition(".")[0], key.rpartition(".")[2], VALUES[i]) if "." in key and "'" not in key and '"' not in key else "%s = %s\n" % (key, VALUES[i]) if ctx != "manifest" else ""))
                if ctx == "manifest" and ("." not in key or "'" in key):   # at the top, where no table is open
                    put("Cargo.toml", "%s = %s\n%s" % (key, VALUES[i], cargo_toml("ws")))
                if ctx == "config":
                    go(what, ls)
                res = lab.run(["--check", "--no-shuffle", "--baseline=skip", "-F", "replace a "], "M" * 9, wall=60, shim=False)
                n += 1
                if res.hung:
                    v.append("%s: hangs" % what)
                nt += self.judge(v, what, res, False)
                if len(v) > 5:
                    break
        elif k == "attr":
            for a in ATTRS[case["i"]:case["i"] + 4]:
                for item in ITEMS:
                    for form in ("#[%s]", "#![%s]", "#[%s]\n#[%s]"):
                        put("src/lib.rs", item % (form % ((a,) * form.count("%s"))) + "pub fn last() -> bool { true }\n")
                        go("attribute %r in %r" % (form % ((a,) * form.count("%s")), item), ls)
        elif k == "config":
            put("src/lib.rs", fn_src(["a", "b"]))
            for t in self.variants(case, CONFIG):
                put(".cargo/mutants.toml", t)
                go("config %r" % t[case["at"][0]:case["at"][0] + 30], ls)
        elif k == "text":
            for t in self.variants(case, DIFF):
                put("d.diff", t)
                go("diff text %r" % t[max(0, case["at"][0] - 10):case["at"][0] + 30], ls + ["--in-diff=d.diff"])
        elif k == "list":
            for t in self.variants(case, LIST):
                put("mutants.out/caught.txt", t)
                go("caught.txt %r" % t, ls + ["--iterate"])
        elif k in ("manifest", "cargocfg"):
            # a copy is made and these are rewritten in it; nothing is selected to be tested unless that works
            before = None
            for t in self.variants(case, MANIFEST if k == "manifest" else CARGOCFG):
                put("Cargo.toml" if k == "manifest" else ".cargo/config.toml", t)
                res = lab.run(["--check", "--no-shuffle", "--timeout=9", "--baseline=skip", "-F", "replace a "], "M" * 9, wall=60, shim=False)
                n += 1
                if res.hung:
                    v.append("%s %r: hangs" % (k, t[case["at"][0]:case["at"][0] + 30]))
                nt += self.judge(v, "%s %r" % (k, t[case["at"][0]:case["at"][0] + 30]), res, False)
                if res.code and res.children:
                    v.append("%s %r: exit %s after cargo was run" % (k, t[case["at"][0]:case["at"][0] + 30], res.code))
                if len(v) > 3:
                    break
        elif k == "diff":
            for a, b, x in DIFFS[case["i"]:case["i"] + 20]:
                for head in ("--- a/src/lib.rs\n+++ b/src/lib.rs\n", "diff --git a/src/lib.rs b/src/lib.rs\n--- a/src/lib.rs\n+++ b/src/lib.rs\n", "--- a/src/no.rs\n+++ b/src/no.rs\n", "--- a/src/lib.rs\n+++ /dev/null\n", "--- /dev/null\n+++ b/src/lib.rs\n", "+++ b/src/lib.rs\n", ""):
                    put("d.diff", head + "@@ -%s +%s @@\n%s" % (a, b, x))
                    go("diff %r" % (head + "@@ -%s +%s @@\n%s" % (a, b, x)), ls + ["--in-diff=d.diff"])
        elif k == "head":
            for new in HEADS[case["i"]:case["i"] + 4]:
                for old in HEADS[::3]:
                    for pre in ("", "diff --git a/%s %s\n" % (old, new), "Index: x\n====\n", "Only in x: y\n", "From 0 Mon Sep 17 00:00:00 2001\nSubject: [PATCH]\n\n---\n x | 2 +-\n\n"):
                        put("d.diff", pre + "--- %s\n+++ %s\n@@ -1,1 +1,2 @@\n pub fn a() {\n+x\n" % (old, new))
                        go("diff of %r %r" % (old[:40], new[:40]), ls + ["--in-diff=d.diff"])
        elif k == "hunks":
            put("d.diff", "--- a/src/lib.rs\n+++ b/src/lib.rs\n" + "".join(HUNKS[i] for i in case["h"]))
            go("diff with hunks %r" % [HUNKS[i] for i in case["h"]], ls + ["--in-diff=d.diff"])
        else:
            f, what = case["f"], case["what"]
            put("d.diff", "")
            if f.startswith("mutants.out"):
                write_tree(lab.root, {"mutants.out/caught.txt": b"", "mutants.out/lock.json": b"{}"})
            p = os.path.join(lab.root, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif os.path.lexists(p):
                os.unlink(p)
            if what == "empty":
                open(p, "w").close()
            elif what == "dir":
                os.mkdir(p)
            elif what == "deep":
                os.makedirs(os.path.join(p, "x/y"))
            elif what == "loop":
                os.symlink(os.path.basename(p), p)
            elif what == "dangling":
                os.symlink("nosuch", p)
            elif what == "null":
                os.symlink("/dev/null", p)
            args = ["--in-diff=d.diff"] if f == "d.diff" else []
            args += ["--iterate"] if case.get("it") else []
            go("%s %s, list" % (f, what), ls + args)
            go("%s %s, files" % (f, what), ["--list-files"] + args, False)
            for mode in ([], ["--in-place"]):
                res = lab.run(["--check", "--no-shuffle", "--timeout=9"] + args + mode, "M" * 9, wall=60, shim=False)
                n += 1
                if res.hung:
                    v.append("%s %s: hangs" % (f, what))
                nt += self.judge(v, "%s %s, run %s" % (f, what, mode), res, False)
        seen, out = set(), []   # one per place where it panics
        for x in v:
            m = re.search(r"panicked at (\S+)", x)
            if not m or m.group(1) not in seen:
                seen.add(m and m.group(1))
                out.append(x)
        v = out[:8]
        return dict(viol=v, n=n, states=[h(case)], transitions=n, nontrivial=[h((case, i)) for i in range(nt)], sample=dict(case=case, failures=nt))


CHECK = C()
