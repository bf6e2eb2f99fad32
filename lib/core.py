"""Core of the black-box model checker for cargo-mutants: build, scratch trees, controlled runs."""
import fcntl, json, os, re, selectors, shutil, signal, socket, stat, struct, subprocess, sys, tempfile, termios, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MARKER = "/* ~ changed by cargo-mutants ~ */"


class CheckError(Exception):
    """The machinery itself failed (not a verdict)."""


class ToolError(CheckError):
    """The program under test failed where it must not, so that the case cannot even be set up: a violation."""


def base_env():
    """A small, fixed environment, the toolchain's variables included."""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True,
                         env={k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "RUSTUP_HOME", "CARGO_HOME")})
    env = dict(kv.split("=", 1) for kv in out.stdout.decode().split("\0") if "=" in kv)
    for k in list(env):
        if k in ("_", "SHLVL", "PWD", "OLDPWD"):
            del env[k]
    return env


def mk_scratch():
    base = "/tmp"
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 2 << 30 and os.access("/dev/shm", os.W_OK):
            base = "/dev/shm"
    except OSError:
        pass
    return tempfile.mkdtemp(prefix="vmc-", dir=base)


def build(scratch):
    """Build cargo-mutants from /repo's working tree; returns the path of a private copy of the binary."""
    env = base_env()
    target = os.path.join(REPO, "target")
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):  # never trust mtimes: force this one crate to be rebuilt
        for d in os.listdir(fp):
            if re.fullmatch(r"cargo-mutants-[0-9a-f]{16}", d):
                for f in os.listdir(os.path.join(fp, d)):
                    if f.endswith("bin-cargo-mutants"):
                        os.unlink(os.path.join(fp, d, f))
    cmd = ["cargo", "build", "--offline", "--locked", "--bin", "cargo-mutants"]
    p = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("build of /repo failed:\n" + p.stderr[-3000:])
    dst = os.path.join(scratch, "cargo-mutants")
    shutil.copy2(os.path.join(target, "debug", "cargo-mutants"), dst)
    return dst


def build_native(scratch):
    fc = os.path.join(scratch, "fakecargo")
    sh = os.path.join(scratch, "shim.so")
    nat = os.path.join(VERIF, "native")
    for cmd in (["gcc", "-O1", "-w", "-static", "-o", fc, os.path.join(nat, "fakecargo.c")],
                ["gcc", "-O1", "-w", "-fPIC", "-shared", "-o", sh, os.path.join(nat, "shim.c"), "-ldl", "-lpthread"]):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("native build failed: " + p.stderr[-2000:])
    return fc, sh


class Tools:
    """Paths shared by all worker processes of one check."""
    def __init__(self, scratch):
        self.scratch = scratch
        self.mutants = build(scratch)
        self.fakecargo, self.shim = build_native(scratch)
        self.env = base_env()
        self.real_cargo = shutil.which("cargo", path=self.env["PATH"])


# ---------------------------------------------------------------------------- trees
class Link(str):
    """A symlink with this target."""


class Exec(str):
    """An executable file."""


class ReadOnly(str):
    pass


DIR = object()


def write_tree(root, spec):
    """spec: relpath -> str | bytes | Link | Exec | DIR"""
    os.makedirs(root, exist_ok=True)
    for rel, c in spec.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if c is DIR:
            os.makedirs(p, exist_ok=True)
        elif isinstance(c, Link):
            os.symlink(str(c).replace("@ROOT@", root), p)
        else:
            data = c if isinstance(c, bytes) else c.encode()
            fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.write(fd, data) if data else None
            os.close(fd)
            if isinstance(c, Exec):
                os.chmod(p, 0o755)
            elif isinstance(c, ReadOnly):
                os.chmod(p, 0o444)


def snapshot(root, skip_top=("mutants.out", "mutants.out.old", "target"), mtimes=None):
    """relpath -> ('f', mode, bytes) | ('l', target) | ('d', mode)"""
    out = {}
    stack = [""]
    while stack:
        d = stack.pop()
        try:
            ents = list(os.scandir(os.path.join(root, d) if d else root))
        except FileNotFoundError:
            continue
        for e in ents:
            rel = (d + "/" + e.name) if d else e.name
            if not d and e.name in skip_top:
                continue
            try:
                st = e.stat(follow_symlinks=False)
                if stat.S_ISLNK(st.st_mode):
                    out[rel] = ("l", os.readlink(e.path))
                elif stat.S_ISDIR(st.st_mode):
                    out[rel] = ("d", stat.S_IMODE(st.st_mode))
                    stack.append(rel)
                elif stat.S_ISREG(st.st_mode):
                    with open(e.path, "rb") as f:
                        out[rel] = ("f", stat.S_IMODE(st.st_mode), f.read())
                    if mtimes is not None:
                        mtimes[rel] = st.st_mtime
                else:
                    out[rel] = ("?", st.st_mode)
            except FileNotFoundError:
                continue
    return out


def diff_snap(a, b):
    """Human-readable difference of two snapshots, [] if equal."""
    r = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if x is None:
                r.append("added %s" % k)
            elif y is None:
                r.append("missing %s" % k)
            elif x[0] == "f" and y[0] == "f" and x[2] == y[2]:
                r.append("mode of %s: %o -> %o" % (k, x[1], y[1]))
            elif x[0] == y[0] == "f":
                r.append("content of %s: %r -> %r" % (k, x[2][:160], y[2][:160]))
            else:
                r.append("%s: %r -> %r" % (k, x[:2], y[:2]))
    return r


# ---------------------------------------------------------------------------- cargo metadata
def make_metadata(root, packages, default_members=None):
    """packages: list of dict(name, dir, targets=[(kind, name, relsrc)], version?)"""
    pk, ids = [], {}
    for p in packages:
        d = os.path.normpath(os.path.join(root, p["dir"]))
        ver = p.get("version", "0.1.0")
        base = os.path.basename(d)
        pid = "path+file://%s#%s" % (d, ver if base == p["name"] else "%s@%s" % (p["name"], ver))
        ids[p["name"]] = pid
        targets = []
        for kind, name, src, *more in p["targets"]:
            crate = {"lib": "lib", "proc-macro": "proc-macro", "cdylib": "cdylib", "rlib": "rlib", "staticlib": "staticlib", "dylib": "dylib"}.get(kind, "bin")
            targets.append(dict(kind=[kind], crate_types=[crate], name=name, src_path=os.path.join(d, src),
                                edition="2021", doc=True, doctest=crate == "lib", test=True))
            for x in more:      # other attributes of the target
                targets[-1].update(x)
        pk.append(dict(name=p["name"], version=ver, id=pid, license=None, license_file=None, description=None, source=None,
                       dependencies=[], targets=targets, features={}, manifest_path=os.path.join(d, "Cargo.toml"),
                       metadata=None, publish=None, authors=[], categories=[], keywords=[], readme=None, repository=None,
                       homepage=None, documentation=None, edition="2021", links=None, default_run=None, rust_version=None))
        pk[-1].update(p.get("attrs", {}))
    members = [ids[p["name"]] for p in packages]
    dm = members if default_members is None else [ids[n] for n in default_members]
    return dict(packages=pk, workspace_members=members, workspace_default_members=dm, resolve=None,
                target_directory=os.path.join(root, "target"), build_directory=os.path.join(root, "target"),
                version=1, workspace_root=root, metadata=None)


def cargo_toml(name, extra="", version="0.1.0"):
    return '[package]\nname = "%s"\nversion = "%s"\nedition = "2021"\n%s' % (name, version, extra)


# ---------------------------------------------------------------------------- controlled runs
class Child:
    def __init__(self, kind, pid, pgid, cwd, argv, env, seq):
        self.kind, self.pid, self.pgid, self.cwd, self.argv, self.env, self.seq = kind, pid, pgid, cwd, argv, env, seq
        self.tree = None          # snapshot of cwd at start
        self.tree_end = None      # snapshot of cwd when told to finish
        self.end_seq = None       # event number of its end
        self.plan = None
        self.ended = None         # how we told it to end
        self.conn = None
        self.polled = False
        self.acks = 0
        self.killed_at = None     # virtual ns of first kill by the tool
        self.kill_sigs = []
        self.first_w = None
        self.start_v = None
        self.end_v = None
        self.eof = False
        self.waits = 0
        self.wait_at = []         # event number current at each poll
        self.alive_at_exit = None
        self.obs = None
        self.note = None

    @property
    def phase(self):
        a = self.argv[1:]
        if not a:
            return "?"
        if a[0] == "check":
            return "check"
        if a[0] in ("test", "nextest", "build"):
            return "build" if "--no-run" in a or a[0] == "build" else "test"
        return a[0]


class Result:
    pass


_seq = 0


class Terminal:
    """A pseudo-terminal whose output is collected in a file."""

    def __init__(self, cols, out):
        self.master, self.slave = os.openpty()
        fcntl.ioctl(self.slave, termios.TIOCSWINSZ, struct.pack("HHHH", 24, cols, 0, 0))
        a = termios.tcgetattr(self.slave)
        a[1] &= ~termios.OPOST
        termios.tcsetattr(self.slave, termios.TCSANOW, a)
        self.out = out

    def start(self):
        os.close(self.slave)
        self.thread = threading.Thread(target=self.pump, daemon=True)
        self.thread.start()

    def pump(self):
        try:
            while True:
                d = os.read(self.master, 65536)
                if not d:
                    break
                self.out.write(d)
        except OSError:
            pass

    def join(self):
        self.thread.join(5)
        self.out.flush()
        os.close(self.master)


class Runner:
    """Runs cargo-mutants under control in one scratch area; one per worker process."""

    def __init__(self, tools, workdir):
        self.t = tools
        self.work = workdir
        os.makedirs(workdir, exist_ok=True)
        self.n = 0

    def fresh(self, name="ws"):
        """A fresh empty case directory; the previous ones are removed."""
        self.n += 1
        d = os.path.join(self.work, "c%d" % self.n)
        prev = os.path.join(self.work, "c%d" % (self.n - 1))
        if os.path.isdir(prev):
            self.rmtree(prev)
        os.makedirs(d)
        return d

    @staticmethod
    def rmtree(d):
        def onerr(f, p, e):
            try:
                os.chmod(os.path.dirname(p), 0o755)
                f(p)
            except OSError:
                pass
        shutil.rmtree(d, onerror=onerr)

    def cleanup(self):
        self.rmtree(self.work)

    # -- environment of the tool
    def env(self, case, root, extra=None, tmp=None):
        e = {k: v for k, v in self.t.env.items()
             if k in ("PATH", "RUSTUP_HOME", "CARGO_HOME", "RUSTUP_TOOLCHAIN", "CARGO_NET_OFFLINE")}
        home = os.path.join(case, "home")
        tmpd = tmp or os.path.join(case, "tmp")
        fc = os.path.join(case, "fc")
        for d in (home, tmpd, fc):
            os.makedirs(d, exist_ok=True)
        e.setdefault("RUSTUP_HOME", os.path.join(os.environ.get("HOME", "/root"), ".rustup"))
        e.setdefault("CARGO_HOME", os.path.join(os.environ.get("HOME", "/root"), ".cargo"))
        e.update(HOME=home, TMPDIR=tmpd, XDG_CONFIG_HOME=os.path.join(home, ".config"), LANG="C.UTF-8", USER="nobody",
                 CARGO=self.t.fakecargo, FC_DIR=fc, FC_ROOT=root, FC_REAL_CARGO=self.t.real_cargo or "/bin/false",
                 NO_COLOR="1")
        if extra:
            for k, v in extra.items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v
        return e

    def prepare(self, case, root, packages, default_members=None):
        fc = os.path.join(case, "fc")
        os.makedirs(fc, exist_ok=True)
        with open(os.path.join(fc, "metadata.json"), "w") as f:
            json.dump(make_metadata(root, packages, default_members), f)

    def simple(self, case, root, args, extra_env=None, cwd=None, timeout=60):
        """Run without controller (listing commands)."""
        env = self.env(case, root, extra_env)
        p = subprocess.run([self.t.mutants, "mutants"] + list(args), cwd=cwd or root, env=env, stdin=subprocess.DEVNULL,
                           capture_output=True, timeout=timeout)
        r = Result()
        r.code = p.returncode
        r.out = p.stdout.decode("utf-8", "surrogateescape")
        r.err = p.stderr.decode("utf-8", "surrogateescape")
        return r

    def list(self, case, root, args=(), **kw):
        r = self.simple(case, root, ["--list", "--json"] + list(args), **kw)
        if r.code != 0:
            return r, None
        try:
            return r, json.loads(r.out)
        except ValueError:
            return r, None

    def run(self, case, root, args, policy, *, env=None, cwd=None, shim=True, fault=None, sched=None, pts=None, seed=1, reads=False,
            clock=True, wall=30.0, tree_root=None, on_start=None, on_wait=None, snap=True, hold_policy=None, popen_hook=None,
            stop_when=None, extra_roots=None, exe=None, on_tick=None, tick=0.5, broken=None, tty=None, stdin=None):
        """policy(child) -> dict(dur=seconds, end='exit:N'|'sig:N'|'hang', step=seconds, int=n, tool='kill'|'int' ...)."""
        global _seq
        e = self.env(case, root, env)
        self.nrun = getattr(self, "nrun", 0) + 1
        sock = os.path.join(case, "s%d" % self.nrun)
        logf = os.path.join(case, "log%d" % self.nrun)
        e["FC_SOCK"] = sock
        if shim:
            e["LD_PRELOAD"] = self.t.shim if not exe else exe[1]
            e["SHIM_LOG"] = logf
            e["SHIM_CTL"] = sock
            roots = ["R=" + root, "T=" + e["TMPDIR"]] + list(extra_roots or [])
            e["SHIM_ROOTS"] = ":".join(roots)
            e["SHIM_SEED"] = str(seed)
            if clock:
                e["SHIM_CLOCK"] = "1"
            if fault:
                e["SHIM_FAULT"] = fault
            if sched is not None:
                e["SHIM_SCHED"] = ",".join(map(str, sched))
                if pts:
                    e["SHIM_PTS"] = ",".join(pts)
            if reads:
                e["SHIM_READS"] = "1"
        ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        ls.bind(sock)
        ls.listen(64)
        ls.setblocking(False)
        sel = selectors.DefaultSelector()
        sel.register(ls, selectors.EVENT_READ, ("listen", None))
        out_f = open(os.path.join(case, "out%d" % self.nrun), "w+b")
        err_f = open(os.path.join(case, "err%d" % self.nrun), "w+b")
        t0 = time.monotonic()
        fo, fe = out_f, err_f
        rdr = [None]
        bw = None
        if broken:          # nobody reads the tool's output: writing to it fails with EPIPE
            br, bw = os.pipe()
            if "!" in broken:    # the reader goes away together with the interrupt
                rdr[0] = br
            else:
                os.close(br)
            fo, fe = (bw if "o" in broken else fo), (bw if "e" in broken else fe)
        term = None
        if tty:             # (columns, "e" | "oe"): a terminal of that width
            term = Terminal(tty[0], err_f)
            fo, fe = (term.slave if "o" in tty[1] else fo), term.slave
        proc = subprocess.Popen([exe[0] if exe else self.t.mutants, "mutants"] + list(args), cwd=cwd or root, env=e, stdin=stdin or subprocess.DEVNULL,
                                stdout=fo, stderr=fe, start_new_session=True)
        if bw is not None:
            os.close(bw)
        if term:
            term.start()
        res = Result()
        res.children, res.grand, res.events, res.hung, res.aborted = [], [], [], False, []
        res.proc = proc
        res.env = e
        by_pid, pend = {}, {}
        pend_w = []
        killed_pg = {}
        quiet = [0.0]
        par = clock and sched is None and ("CARGO_MUTANTS_JOBS" in e or any(re.match(r"(-j|--jobs=?)(?!1$)", a) for a in args))
        bufs = {}
        pidfd = None
        try:
            pidfd = os.pidfd_open(proc.pid)
            sel.register(pidfd, selectors.EVENT_READ, ("proc", None))
        except (OSError, AttributeError):
            pidfd = None
        seqno = [0]

        def ev(*a):
            seqno[0] += 1
            if a[0] == "int" and rdr[0] is not None:
                os.close(rdr[0])
                rdr[0] = None
            res.events.append((seqno[0],) + a)
            return seqno[0]

        def snap_child(c):
            if not snap:
                return None
            return snapshot(c.cwd)

        def send(c, s):
            try:
                c.conn.sendall(s.encode("utf-8", "surrogateescape") + b"\n")
            except OSError:
                pass

        def tell_end(c):
            end = c.plan.get("end", "exit:0")
            if end == "hang":
                return False
            kind, n = end.split(":")
            if c.tree_end is None and snap and c.plan.get("snap_end", False):
                c.tree_end = snap_child(c)
            c.ended = end
            c.end_seq = ev("end", c.seq, end)
            send(c, "%s %s" % ("exit" if kind == "exit" else "kill", n))
            return True

        def answer(conn, b):
            try:
                conn.sendall(b)
            except OSError:
                pass

        def moved():
            """Something other than a repeated poll happened."""
            quiet[0] = time.monotonic()

        def unsettled(c):
            """With several workers and real threads, time may not jump while another worker is between starting its clock and its first poll."""
            if not par:
                return False
            now = time.monotonic()
            if now - quiet[0] > 5:
                return False
            return now - quiet[0] < 0.005 or any(not x.polled and not x.eof and x.killed_at is None for x in res.children)

        def serve_w(conn, c, v):
            """The tool polls child c at virtual time v."""
            cmds = c.plan.get("cmds", ())
            nf = sum(1 for x in cmds if x.startswith("fork"))
            if cmds and not c.eof and c.killed_at is None and time.monotonic() - c.t < 5 and (
                    c.acks < len(cmds) or sum(1 for g in res.grand if g.pgid == c.pgid) < nf):
                pend_w.append((conn, c, v))   # not before it has done what it was told and its grandchildren exist
                return
            c.polled = True
            due = c.ended is not None or c.killed_at is not None or (
                c.plan.get("end", "exit:0") != "hang" and v - (v if c.first_w is None else c.first_w) >= int(c.plan.get("dur", 0) * 1e9))
            if not due and unsettled(c):
                time.sleep(0.0003)
                answer(conn, b"A" + struct.pack("<q", 0) + b"N")
                return
            moved()
            c.waits += 1
            c.wait_at.append(seqno[0])
            if c.first_w is None:
                c.first_w = v
            if on_wait:
                a = on_wait(c, res)
                if a == "kill":
                    ev("toolkill")
                    answer(conn, b"X")
                    return
                if a == "int":
                    ev("int")
                    answer(conn, b"I")
                    return
            p = c.plan
            if c.ended is None and c.killed_at is not None and (not p.get("ignterm") or 9 in c.kill_sigs):
                answer(conn, b"R")     # it is dying
            elif c.ended is None and p.get("end", "exit:0") != "hang":
                d = int(p.get("dur", 0) * 1e9)
                el = v - c.first_w
                if el >= d:
                    tell_end(c)
                    c.end_v = v
                    answer(conn, b"R")
                else:
                    # advance in steps so that limits are noticed on the way
                    st = min(d - el, int(p.get("step", 3600) * 1e9) if "stepf" not in p else int(p["stepf"](el / 1e9) * 1e9))
                    fin = el + st >= d
                    if fin:
                        tell_end(c)
                        c.end_v = v + st
                    answer(conn, b"A" + struct.pack("<q", st) + (b"R" if fin else b"N"))
            elif c.ended is not None:
                answer(conn, b"R")
            else:
                st = p["stepf"]((v - c.first_w) / 1e9) if "stepf" in p else p.get("step", 0.25)
                answer(conn, b"A" + struct.pack("<q", int(st * 1e9)) + b"N")

        def pid_gone(pid):
            try:
                with open("/proc/%d/stat" % pid) as f:
                    return f.read().rsplit(")", 1)[1].split()[0] in ("Z", "X")
            except OSError:
                return True

        def on_msg(conn, line):
            parts = line.split()
            if parts[0] == "W":
                pid, v = int(parts[1]), int(parts[2])
                if pid in by_pid:
                    serve_w(conn, by_pid[pid], v)
                else:
                    pend[pid] = (conn, v, "W")
            elif parts[0] == "S":
                moved()
                pid = int(parts[1])
                if pid in by_pid:
                    answer(conn, b"K")
                else:
                    pend[pid] = (conn, 0, "S")
            elif parts[0] == "B":
                answer(conn, b"K")
            elif parts[0] == "N":
                ev(parts[1])
                answer(conn, b"K")
            elif parts[0] == "K":
                pg, sig, v = int(parts[1]), int(parts[2]), int(parts[3])
                if sig:
                    killed_pg.setdefault(abs(pg), (v, sig))
                for c in res.children + res.grand:
                    if c.eof:
                        continue
                    if c.pgid == pg or c.pid == pg or c.pid == -pg or c.pgid == -pg:
                        if sig:
                            c.kill_sigs.append(sig)
                        if sig and c.killed_at is None:
                            c.killed_at = v
                            c.end_seq = c.end_seq or ev("killed", c.seq, sig)
                answer(conn, b"K")

        def on_hello(conn, data):
            parts = data.split(b"\0")[:-1]
            parts = [x.decode("utf-8", "surrogateescape") for x in parts]
            if parts[0] == "shim":
                bufs[conn] = ["shim", b""]
                return
            kind, pid, pgid, cw, argc = parts[0], int(parts[1]), int(parts[2]), parts[3], int(parts[4])
            argv = parts[5:5 + argc]
            cenv = dict(x.split("=", 1) for x in parts[5 + argc:] if "=" in x)
            c = Child(kind, pid, pgid, cw, argv, cenv, len(res.children) + len(res.grand) + len(res.aborted))
            c.conn = conn
            bufs[conn] = ["child", c]
            if kind == "grandchild":
                res.grand.append(c)
                return
            c.start_seq = ev("start", c.seq)
            if pgid in killed_pg:      # killed before it could report its start
                c.killed_at = killed_pg[pgid][0]
                c.kill_sigs.append(killed_pg[pgid][1])
                c.end_seq = ev("killed", c.seq, killed_pg[pgid][1])
                c.plan = {}
                c.t = time.monotonic()
                res.aborted.append(c)
                if pid in pend:
                    cn, v, k = pend.pop(pid)
                    answer(cn, b"R" if k == "W" else b"K")
                return
            c.t = time.monotonic()
            res.children.append(c)
            by_pid[pid] = c
            c.real, c.mtimes = time.time(), {}
            c.tree = snapshot(c.cwd, mtimes=c.mtimes) if snap else None
            if on_start:
                c.note = on_start(c, res)
            c.plan = policy(c) or {}
            for cmd in c.plan.get("cmds", ()):
                send(c, cmd)
            if pid in pend:
                cn, v, k = pend.pop(pid)
                if k == "W":
                    serve_w(cn, c, v)
                else:
                    answer(cn, b"K")
            if not shim:
                if not c.plan.get("hold"):
                    tell_end(c)

        def close_conn(conn):
            b = bufs.pop(conn, None)
            try:
                sel.unregister(conn)
            except (KeyError, ValueError):
                pass
            conn.close()
            if b and b[0] == "child":
                b[1].eof = True
                if b[1].end_seq is None:
                    b[1].end_seq = ev("eof", b[1].seq)

        done = False
        last_tick = t0
        while True:
            evs = sel.select(0.05)
            now = time.monotonic()
            for key, _m in evs:
                k, _x = key.data
                if k == "listen":
                    try:
                        conn, _ = ls.accept()
                    except OSError:
                        continue
                    conn.setblocking(True)
                    bufs[conn] = ["new", b""]
                    sel.register(conn, selectors.EVENT_READ, ("conn", conn))
                elif k == "proc":
                    done = True
                elif k == "conn":
                    conn = key.fileobj
                    b = bufs.get(conn)
                    if b is None:
                        continue
                    try:
                        data = conn.recv(1 << 20)
                    except OSError:
                        data = b""
                    if not data:
                        close_conn(conn)
                        continue
                    if b[0] == "new":
                        b[1] += data
                        if len(b[1]) >= 4:
                            n = struct.unpack("<I", b[1][:4])[0]
                            if len(b[1]) >= 4 + n:
                                rest = b[1][4 + n:]
                                on_hello(conn, b[1][4:4 + n])
                                if rest and bufs[conn][0] == "shim":
                                    bufs[conn][1] = rest
                                    b = bufs[conn]
                                    while b"\n" in b[1]:
                                        ln, b[1] = b[1].split(b"\n", 1)
                                        on_msg(conn, ln.decode())
                    elif b[0] == "shim":
                        b[1] += data
                        while b"\n" in b[1]:
                            ln, b[1] = b[1].split(b"\n", 1)
                            on_msg(conn, ln.decode())
                    elif b[0] == "child":
                        b[1].acks += data.count(b"k")     # commands carried out
            if done or proc.poll() is not None:
                break
            for pid in list(pend):
                if pid not in by_pid and pid_gone(pid):
                    cn, v, k = pend.pop(pid)
                    answer(cn, b"R" if k == "W" else b"K")
            if pend_w:
                todo, pend_w[:] = list(pend_w), []
                for a_ in todo:
                    serve_w(*a_)
            if hold_policy and not shim:
                hold_policy(res, tell_end, now)
            if on_tick and now - last_tick > tick:
                last_tick = now
                on_tick(res)
            if shim:
                for c in res.children:  # children nobody polls: the tool waits in some other way
                    if c.waits == 0 and c.ended is None and not c.eof and now - c.t > 1.0 and not c.plan.get("never"):
                        tell_end(c)
            if stop_when and stop_when(res):
                break
            if now - t0 > wall:
                res.hung = True
                break
        if res.hung or (stop_when and proc.poll() is None):
            proc.kill()
        proc.wait()
        # anything still alive that the tool should have stopped?
        deadline = time.monotonic() + (0.3 if proc.returncode != -9 else 0.0)
        while time.monotonic() < deadline:
            live = [c for c in res.children + res.grand + res.aborted if not c.eof]
            if not live:
                break
            for key, _m in sel.select(0.02):
                k, _x = key.data
                if k == "conn":
                    conn = key.fileobj
                    try:
                        data = conn.recv(1 << 16)
                    except OSError:
                        data = b""
                    if not data:
                        close_conn(conn)
                elif k == "proc":
                    sel.unregister(key.fileobj)
        for c in res.children + res.grand + res.aborted:
            c.alive_at_exit = not c.eof
            if not c.eof:
                try:
                    exe_ = os.readlink("/proc/%d/exe" % c.pid)
                    if exe_ == self.t.fakecargo:
                        os.kill(c.pid, signal.SIGKILL)
                except OSError:
                    pass
        for conn in list(bufs):
            close_conn(conn)
        sel.close()
        ls.close()
        if pidfd is not None:
            os.close(pidfd)
        if rdr[0] is not None:
            os.close(rdr[0])
        os.unlink(sock)
        if term:
            term.join()
        for f, a in ((out_f, "out"), (err_f, "err")):
            f.seek(0)
            setattr(res, a, f.read().decode("utf-8", "replace"))
            f.close()
        res.code = proc.returncode
        res.wall = time.monotonic() - t0
        res.log = []
        if shim:
            try:
                with open(logf, errors="replace") as f:
                    res.log = f.read().splitlines()
            except OSError:
                pass
        res.proc = None
        for c in res.children + res.grand + res.aborted:
            c.conn = None
        res.tmp_left = sorted(os.listdir(e["TMPDIR"])) if os.path.isdir(e["TMPDIR"]) else []
        return res


# ---------------------------------------------------------------------------- mutant text
def line_starts(text):
    r = [0]
    for i, ch in enumerate(text):
        if ch == "\n":
            r.append(i + 1)
    return r


def span_offsets(text, span):
    """Character offsets of a span with 1-based lines and 1-based char columns."""
    ls = line_starts(text)
    a = ls[span["start"]["line"] - 1] + span["start"]["column"] - 1
    b = ls[span["end"]["line"] - 1] + span["end"]["column"] - 1
    return a, b


def mutated_text(text, m):
    a, b = span_offsets(text, m["span"])
    rep = m["replacement"]
    return text[:a] + rep + " " + MARKER + text[b:] if True else None


def load_json(path):
    with open(path) as f:
        return json.load(f)


def read_lines(path):
    try:
        with open(path, encoding="utf-8", newline="\n") as f:
            return f.read()
    except FileNotFoundError:
        return None
