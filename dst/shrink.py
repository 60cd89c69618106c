"""Minimises a failing case: fewer operations, fewer arguments, fewer faults, while the same violation persists."""
import copy
import json
import time


def size(case):
    return len(json.dumps(case["prog"]))


def _paths(ops, path=()):
    for i, o in enumerate(ops):
        yield path + (i,)
        if o["op"] == "hc":
            yield from _paths(o["ops"], path + (i,))
        elif o["op"] == "par":
            for j, t in enumerate(o["threads"]):
                yield from _paths(t, path + (i, j))


def _get_list(prog, path):
    """The list that holds the operation at ``path``."""
    cur = prog["ops"]
    p = list(path[:-1])
    while p:
        o = cur[p.pop(0)]
        if o["op"] == "hc":
            cur = o["ops"]
        else:
            cur = o["threads"][p.pop(0)]
    return cur


def shrink(case, key, test, budget, limit=600):
    """``test(case)`` returns the set of violation keys of a case.  Returns the smallest case found and the number of trials."""
    t0 = time.monotonic()
    best = case
    n = 0

    def attempt(c):
        nonlocal best, n
        if n >= limit or time.monotonic() - t0 > budget:
            raise TimeoutError
        n += 1
        if key in test(c):
            best = c
            return True
        return False

    def without(c, paths):
        c = copy.deepcopy(c)
        for p in sorted(paths, reverse=True):
            del _get_list(c["prog"], p)[p[-1]]
        return c

    try:
        # whole operations, largest groups first
        changed = True
        while changed:
            changed = False
            ps = list(_paths(best["prog"]["ops"]))
            k = max(1, len(ps) // 2)
            while k >= 1:
                ps = list(_paths(best["prog"]["ops"]))
                i = len(ps)
                while i > 0:
                    lo = max(0, i - k)
                    grp = [p for p in ps[lo:i]]
                    # not an operation together with the block that holds it
                    grp = [p for p in grp if not any(p != q and p[:len(q)] == q for q in grp)]
                    if grp and attempt(without(best, grp)):
                        changed = True
                        ps = list(_paths(best["prog"]["ops"]))
                        i = min(lo, len(ps))
                    else:
                        i = lo
                k //= 2
        # blocks around operations
        for p in reversed(list(_paths(best["prog"]["ops"]))):
            try:
                o = _get_list(best["prog"], p)[p[-1]]
            except (IndexError, KeyError, TypeError):
                continue
            if o["op"] == "hc":
                c = copy.deepcopy(best)
                _get_list(c["prog"], p)[p[-1]:p[-1] + 1] = copy.deepcopy(o["ops"])
                attempt(c)
            elif o["op"] == "par":
                c = copy.deepcopy(best)
                _get_list(c["prog"], p)[p[-1]:p[-1] + 1] = [x for t in copy.deepcopy(o["threads"]) for x in t]
                if not attempt(c):
                    for m in (1, 4, 16, 64):
                        c = copy.deepcopy(best)
                        x = _get_list(c["prog"], p)[p[-1]]
                        x["sched"] = x["sched"][:m]
                        if attempt(c):
                            break
        # arguments
        for p in list(_paths(best["prog"]["ops"])):
            o = _get_list(best["prog"], p)[p[-1]]
            for k in ("faults", "prior", "ics", "from", "to", "name", "pathlib", "tick", "set", "oref", "cast", "clk", "rs", "exc"):
                if k in _get_list(best["prog"], p)[p[-1]]:
                    c = copy.deepcopy(best)
                    _get_list(c["prog"], p)[p[-1]].pop(k)
                    attempt(c)
            for k in list(o.get("kw", {})):
                c = copy.deepcopy(best)
                _get_list(c["prog"], p)[p[-1]]["kw"].pop(k)
                attempt(c)
            fs = _get_list(best["prog"], p)[p[-1]].get("faults")
            if fs and len(fs) > 1:
                for i in range(len(fs) - 1, -1, -1):
                    c = copy.deepcopy(best)
                    x = _get_list(c["prog"], p)[p[-1]]["faults"]
                    if i < len(x):
                        x.pop(i)
                        attempt(c)
            for where in ("data",):
                d = _get_list(best["prog"], p)[p[-1]].get(where)
                if isinstance(d, dict) and "lay" in d:
                    c = copy.deepcopy(best)
                    _get_list(c["prog"], p)[p[-1]][where].pop("lay")
                    attempt(c)
            s = _get_list(best["prog"], p)[p[-1]].get("name")
            if isinstance(s, dict) and s.get("s") not in ("A", "N") and o["op"] == "add":
                c = copy.deepcopy(best)
                _get_list(c["prog"], p)[p[-1]]["name"] = {"s": "N" + str(p[-1])}
                attempt(c)
    except TimeoutError:
        pass
    return best, n
