"""Depth-first enumeration of schedules: children of an executed schedule."""
from lab import *


def children(prefix, res, bound, depth=None, free=("exit", "join", "futex_wait", "wait")):
    """All schedules that first differ from this execution after `prefix`, with at most `bound` preemptions.
    A switch away from a thread that could go on counts as a preemption, except at `free` points."""
    ds = decisions(res)
    out = []
    used = 0
    choices = [c for _p, c, _e, _en, _w in ds]
    for p, c, me, en, why in ds:
        cost_here = 1 if me and why not in free else 0
        if p >= len(prefix) and (depth is None or p < depth):
            for a in range(len(en)):
                if a == c:
                    continue
                if used + (cost_here if a != 0 else 0) <= bound:
                    out.append(choices[:p] + [a])
        if c != 0:
            used += cost_here
    return out
