"""Check driver: enumerates cases (possibly generated from earlier results), runs them in parallel on the real
binary, confirms violations by replaying them, writes evidence and replay files."""
import hashlib, json, multiprocessing as mp, os, queue, re, shutil, signal, subprocess, sys, threading, time, traceback
import core
from core import CheckError, ToolError, Runner, Tools, VERIF, mk_scratch

FINDINGS = os.path.join(VERIF, "known_findings.jsonl")


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.transitions = 0
        self.states = set()
        self.nontrivial = set()
        self.extra = {}

    def merge(self, d):
        self.evaluations += d.get("n", 1)
        self.transitions += d.get("transitions", 0)
        self.states.update(d.get("states", ()))
        self.nontrivial.update(d.get("nontrivial", ()))
        for k, v in d.get("extra", {}).items():
            self.extra[k] = self.extra.get(k, 0) + v


def h(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "surrogateescape"), digest_size=8).hexdigest()


class Check:
    """Subclass per property.
    cases(tier): iterable of JSON-able cases.
    run_case(R, case): returns dict(viol=[str...], n=, transitions=, states=[..], nontrivial=[..], more=[cases], sample=any)
    """
    id = None
    level = "exploration"
    rule = ""
    assumptions = []
    bounds = {}
    quick_cap = 400   # seconds; a safety net only
    thorough_cap = 7200
    case_wall = 120

    def setup(self, tools):
        pass

    def cases(self, tier):
        raise NotImplementedError

    def run_case(self, R, case):
        raise NotImplementedError


_W = {}


def _init(check, tools, base, counter):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    with counter.get_lock():
        counter.value += 1
        i = counter.value
    _W["check"] = check
    _W["R"] = Runner(tools, os.path.join(base, "w%d" % i))


def run_case(check, R, case):
    """What the tool produced (a span outside the file, a name that is missing) may make no sense to the check: that is a violation too."""
    try:
        return check.run_case(R, case)
    except (IndexError, KeyError, ValueError, TypeError, AttributeError) as e:
        last = traceback.extract_tb(e.__traceback__)[-1]
        viol = "what the tool produced cannot be made sense of (%s: %s at %s:%d in %r)" % (type(e).__name__, e, os.path.basename(last.filename), last.lineno, last.line)
    except ToolError as e:
        viol = str(e)[:1500]
    return dict(viol=[viol], states=[], transitions=0, nontrivial=[])


def _one(batch):
    out = []
    for case in batch:
        t1 = time.monotonic()
        try:
            r = run_case(_W["check"], _W["R"], case)
            r["case"] = case
            r["wall"] = time.monotonic() - t1
        except CheckError as e:
            r = dict(error=str(e), case=case)
        except Exception:
            r = dict(error=traceback.format_exc(), case=case)
        out.append(r)
    return out


def load_findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def finding_for(findings, case, viol):
    """A finding matches one violation text of one specific kind of case: both patterns must match."""
    c = json.dumps(case, sort_keys=True)
    for f in findings:
        if re.search(f["case_re"], c) and re.search(f["violation_re"], viol):
            return f
    return None


def run_check(check, tier, replay=None):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = mk_scratch()
    rc = 3
    try:
        tools = Tools(scratch)
        check.tier = tier
        check.seed = seed
        check.setup(tools)
        if replay:
            R = Runner(tools, os.path.join(scratch, "w0"))
            case = json.load(open(replay))["case"]
            r = run_case(check, R, case)
            print(json.dumps(dict(case=case, viol=r.get("viol")), indent=1))
            if r.get("viol"):
                print("VIOLATION property=%s replay=%s" % (check.id, replay))
                return 1
            return 0
        rc = _drive(check, tier, seed, tools, scratch, t0)
        return rc
    except CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 3
    finally:
        Runner.rmtree(scratch)


def _drive(check, tier, seed, tools, scratch, t0):
    st = Stats()
    cap = check.quick_cap if tier == "quick" else check.thorough_cap
    findings = load_findings(check.id)
    bad, errors, samples, slow = [], [], [], []
    known_hit = {}
    capped = False
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    ctx = mp.get_context("fork")
    counter = ctx.Value("i", 0)
    pool = ctx.Pool(nproc, _init, (check, tools, scratch, counter))
    pending = 0
    doneq = queue.Queue()
    src = iter(check.cases(tier))
    backlog = []
    exhausted = False
    nbatch = getattr(check, "batch", 4)
    dedup = getattr(check, "dedup", None)
    seen_keys = set()

    def submit():
        nonlocal pending, exhausted
        while pending < nproc * 3:
            batch = []
            while len(batch) < nbatch:
                if backlog:
                    batch.append(backlog.pop() if not dedup else backlog.pop(0))
                elif not exhausted:
                    try:
                        batch.append(next(src))
                    except StopIteration:
                        exhausted = True
                else:
                    break
            if not batch:
                return
            pool.apply_async(_one, (batch,), callback=doneq.put, error_callback=lambda e: doneq.put(e))
            pending += 1
    try:
        submit()
        last = time.monotonic()
        while pending:
            try:
                rs = doneq.get(timeout=5)
            except queue.Empty:
                if time.monotonic() - last > check.case_wall * 3:
                    errors.append("worker stalled")
                    break
                continue
            last = time.monotonic()
            pending -= 1
            if isinstance(rs, BaseException):
                errors.append(repr(rs))
                rs = []
            for r in rs:
                if r.get("error"):
                    errors.append("%s\ncase: %s" % (r["error"], json.dumps(r["case"])[:2000]))
                    continue
                st.merge(r)
                slow.append((r["wall"], r["case"]))
                if len(slow) > 50:
                    slow.sort(key=lambda x: -x[0])
                    del slow[5:]
                if r.get("sample") is not None and (len(samples) < 4 or (len(samples) < 8 and st.evaluations % 97 == 0)):
                    samples.append(r["sample"])
                for m in r.get("more", ()):
                    if dedup:
                        k = dedup(m)
                        if k is not None:
                            if k in seen_keys:
                                continue
                            seen_keys.add(k)
                    backlog.append(m)
                fresh = []
                for v in r.get("viol", ()):
                    f = finding_for(findings, r["case"], v)
                    if f:
                        known_hit.setdefault(f["id"], [f, 0])[1] += 1
                    else:
                        fresh.append(v)
                if fresh:
                    bad.append((r["case"], fresh))
            if len(errors) > 20 or len(bad) >= (40 if not os.environ.get("VERIF_ALL") else 4000):
                break
            if time.monotonic() - t0 > cap:
                capped = True
                break
            submit()
    finally:
        pool.terminate()
        pool.join()
    # confirm violations: each must fail again, twice, in a fresh place
    confirmed, flaky = [], 0
    R = Runner(tools, os.path.join(scratch, "confirm"))
    for case, viol in bad[:12]:
        ok = True
        for _ in range(2):
            try:
                r = run_case(check, R, case)
            except Exception as e:
                errors.append("while confirming: " + traceback.format_exc())
                ok = False
                break
            if not [v for v in r.get("viol", ()) if not finding_for(findings, case, v)]:
                ok = False
                break
        if ok:
            confirmed.append((case, viol))
            if len(confirmed) >= 3:
                break
        else:
            flaky += 1
    cov = dict(evaluations=st.evaluations, distinct_nontrivial=len(st.nontrivial)) if check.level != "model_checking" else \
        dict(states=len(st.states), transitions=st.transitions, traces_validated_against_impl=st.evaluations)
    cov.update(rule=check.rule, samples=samples[:6], exhaustive=not capped and not errors, bounds=check.bounds_for(tier) if hasattr(check, "bounds_for") else check.bounds,
               unconfirmed=flaky)
    cov.update(st.extra)
    ev = dict(property=check.id, tier=tier, seed=seed, level=check.level, coverage=cov,
              assumptions=check.assumptions, wall_s=round(time.monotonic() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
        f.write("\n")
    for fid, (f, n) in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (check.id, f["what"], n))
    print("%s %s: evaluations=%d distinct=%d states=%d transitions=%d capped=%s flaky=%d errors=%d %.1fs" % (
        check.id, tier, st.evaluations, len(st.nontrivial), len(st.states), st.transitions, capped, flaky, len(errors), time.monotonic() - t0))
    if os.environ.get("VERIF_ALL"):
        seen_v = {}
        for case, viol in bad:
            for x in viol:
                seen_v.setdefault(x[:400], case)
        for x, c in list(seen_v.items())[:int(os.environ["VERIF_ALL"])]:
            print("  all: %s\n      %s" % (x, json.dumps(c)[:700]))
    if os.environ.get("VERIF_SLOW"):
        for w, c in sorted(slow, key=lambda x: -x[0])[:5]:
            print("  slow %.2fs %s" % (w, json.dumps(c)[:300]))
    if confirmed:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for case, viol in confirmed:
            p = os.path.join(rd, "%s-%s.json" % (check.id, h(case)))
            with open(p, "w") as f:
                json.dump(dict(property=check.id, case=case, violation=viol), f, indent=1)
            for v in viol[:3]:
                print("  " + v[:600])
            print("VIOLATION property=%s replay=%s" % (check.id, p))
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR: " + e[-3000:], file=sys.stderr)
        return 3
    if st.evaluations == 0:
        print("ERROR: nothing evaluated", file=sys.stderr)
        return 3
    return 0
