"""Runs disturbed once, at every operation: errors, kills and interrupts; shared by several checks."""
from runs import *

ERRS = {"EIO": 5, "ENOSPC": 28, "EACCES": 13, "ENOENT": 2}


def plan_by_order(codes, base="M"):
    """Outcomes assigned by the order in which scenarios start, whatever the trees look like (one job)."""
    st = dict(n=-1 if base != "skip" else 0, dirs={})

    def pol(c):
        first = c.phase in ("build", "check")
        if first:
            st["dirs"][c.cwd] = st["n"]
            st["n"] += 1
        w = st["dirs"].get(c.cwd, -1)
        code = "M" if w < 0 and base in ("M", "skip") else base if w < 0 else codes[w % len(codes)]
        end = plan_of(code, c.phase)
        return dict(end=end, step=5.0)
    return pol


def fault_cases(case, res, kinds, errs, waits=2, ops=None, reads=()):
    """Every single-fault variation of the run just made."""
    more = []
    for k, _t, op, path in (log_ops(res) if ops is None else ops):
        at = [op, canon_path(path)]
        if "err" in kinds:
            for e in errs:
                more.append(dict(case, probe=False, fault="%d:err=%d" % (k, ERRS[e]), at=at))
            if op == "write":
                more.append(dict(case, probe=False, fault="%d:torn" % k, at=at))
        for kind in ("kill", "int"):
            if kind in kinds and not op.endswith("read"):
                more.append(dict(case, probe=False, fault="%d:%s" % (k, kind), at=at))
        if "tornkill" in kinds and op == "write":
            more.append(dict(case, probe=False, fault="%d:tornkill" % k, at=at))
    for c in res.children:
        for w in range(1, min(waits, c.waits) + 1):
            for kind in ("kill", "int"):
                if kind in kinds:
                    more.append(dict(case, probe=False, wait=[c.seq, w, kind]))
    return more


def on_wait_for(case):
    if not case.get("wait"):
        return None
    s, w, kind = case["wait"]
    return lambda c, r: kind if (c.seq, c.waits) == (s, w) else None


def ops_after(res, n):
    """Operations logged after the n-th scheduling decision (earlier ones belong to shorter schedules)."""
    seen, out = 0, []
    for l in res.log:
        if l.startswith("D "):
            seen += 1
        elif l.startswith("O ") and seen >= n:
            p = l.split(" ", 4)
            out.append((int(p[1]), int(p[2]), p[3], p[4] if len(p) > 4 else ""))
    return out


def delivered(res):
    return any(l.startswith("F ") for l in res.log) or any(e[1] in ("int", "toolkill") for e in res.events)


def label(case):
    if case.get("wait"):
        return "%s at wait %d of child %d" % (case["wait"][2], case["wait"][1], case["wait"][0])
    if case.get("fault"):
        return "%s at %s %s" % (case["fault"].split(":")[1], case["at"][0], case["at"][1])
    return "undisturbed"
