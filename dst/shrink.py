"""Minimise a failing plan: fewer operations first, then simpler operations, keeping the same violation class."""

import copy
import json
from time import monotonic  # taken before any run replaces it

from dst.engine import fork_execute


def size(plan):
    return len(json.dumps(plan))


class Budget:
    def __init__(self, n):
        self.left = n
        self.used = 0


def minimise(plan, prop, kind, budget=900):
    b = Budget(budget)
    until = monotonic() + 150

    def fails(candidate):
        if monotonic() > until:
            b.left = 0
        if b.left <= 0:
            return False
        b.left -= 1
        b.used += 1
        r = fork_execute(candidate)
        return (not r["ok"]) and r.get("kind") == kind and (prop in r.get("props", ()) or "*" in r.get("props", ()))

    def with_ops(ops):
        c = dict(plan)
        c["ops"] = ops
        return c

    ops = list(plan["ops"])
    # truncate the tail by halving, then ddmin
    n = 2
    while len(ops) >= 1 and b.left > 0:
        chunk = max(1, len(ops) // n)
        reduced = False
        starts = list(range(0, len(ops), chunk))
        for s in reversed(starts):
            cand = ops[:s] + ops[s + chunk:]
            if fails(with_ops(cand)):
                ops = cand
                n = max(n - 1, 2)
                reduced = True
                break
        if not reduced:
            if chunk == 1:
                break
            n = min(len(ops), n * 2)
    plan = with_ops(ops)

    # simpler operations
    changed = True
    rounds = 0
    while changed and b.left > 0 and rounds < 3:
        changed = False
        rounds += 1
        for i in range(len(plan["ops"])):
            for path, alt in simpler(plan["ops"][i]):
                cand = copy.deepcopy(plan)
                try:
                    put(cand["ops"][i], path, alt)
                except (IndexError, TypeError, KeyError):
                    continue  # an earlier simplification already removed this part
                if cand["ops"][i] == plan["ops"][i]:
                    continue
                if fails(cand):
                    plan = cand
                    changed = True
        for key, val in list(plan.get("config", {}).items()):
            for alt in simpler_config(val):
                cand = copy.deepcopy(plan)
                cand["config"][key] = alt
                if fails(cand):
                    plan = cand
                    changed = True
                    break
    return plan, b.used


def put(op, path, alt):
    cur = op
    for p in path[:-1]:
        cur = cur[p]
    cur[path[-1]] = alt


def simpler(op):
    """Candidate replacements (path, value) of the arguments of one operation; the operation name stays."""
    out = []
    for i in range(1, len(op)):
        v = op[i]
        if v is None or isinstance(v, bool):
            continue
        if isinstance(v, int):
            if v > 1:
                out += [((i,), 0), ((i,), 1)]
                if v > 20:
                    out.append(((i,), v // 2))
        elif isinstance(v, (list, dict)) and v:
            out.append(((i,), None))
            out.append(((i,), type(v)()))
            if isinstance(v, dict):
                for k in v:
                    rest = dict(v)
                    del rest[k]
                    if rest:
                        out.append(((i,), rest))
            elif len(v) > 1:
                out.append(((i,), v[:1]))
            for j, x in enumerate(v) if isinstance(v, list) else ():
                if isinstance(x, (list, dict, str)) and x:
                    out.append(((i, j), 1))
    return out


def simpler_config(v):
    if isinstance(v, float) and v:
        return [0.0]
    return []
