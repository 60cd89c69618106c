"""What one seed means for each property: the base execution, its variants and what must agree between them.

``evaluate(case, ctx)`` is a pure function of the case (and of the library): it returns the violations of the case's
property, and statistics.  A case is JSON: {"prop", "seed", "prog", "var", "hash"}.
"""
import copy
import os
import random

from . import rp66, simio, spec

PROPS = ["C01", "C02", "C03", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C18",
         "C19", "C20"]
DIFFERENTIAL = {"C02", "C10", "C11", "C14", "C20"}


class V:
    """One violation."""

    def __init__(self, rule, msg, op=None):
        self.rule, self.msg, self.op = rule, msg, op

    def key(self):
        k = self.rule
        if self.rule in ("unexpected_raise", "breach_raises_outside"):
            # different exceptions are different violations
            m = self.msg.split("raised", 1)[-1]
            k += ":" + "".join(c for c in m if not c.isdigit())[:40]
        return k

    def __repr__(self):
        return f"{self.rule}: {self.msg}"


class HarnessFailure(Exception):
    pass


class Ctx:
    """Where runs happen, and the totals over everything run."""

    def __init__(self, root, run, remote=None):
        self.root, self._run, self.remote = root, run, remote
        self.n = 0
        self.tot = {"runs": 0, "steps": 0, "writes": 0, "ok_writes": 0, "failed_writes": 0, "crashes": 0, "switches": 0,
                    "skips": 0, "sim_seconds": 0.0, "hung": 0, "variants": 0, "compared": 0, "records": 0, "rows": 0,
                    "rejected": 0}
        self.fired, self.seam, self.sigs, self.ops = {}, {}, set(), {}
        self.distinct = set()

    def run(self, prog, remote=False, keep=True):
        self.n += 1
        root = os.path.join(self.root, f"r{self.n % 8}")
        f = self.remote.run if remote and self.remote else self._run
        out = f(prog, root, keep)
        out["root"] = root
        t = self.tot
        t["runs"] += 1
        if "harness" in out:
            raise HarnessFailure(out["harness"] + "\n" + out.get("tb", ""))
        if out.get("hung"):
            t["hung"] += 1
            out.update(problems=[], outcomes=[], writes={}, sig=[], fired={}, seam={}, steps=0, switches=0, mono=0)
            return out
        t["steps"] += out["steps"]
        t["switches"] += out["switches"]
        t["sim_seconds"] += out["mono"]
        for w in out["writes"].values():
            t["writes"] += 1
            t["ok_writes"] += w["ok"]
            t["failed_writes"] += not w["ok"]
            t["crashes"] += w["crashed"]
            t["records"] += w.get("records", 0)
            t["rows"] += sum(v or 0 for v in w.get("frames", {}).values())
        for k, v in out["fired"].items():
            self.fired[k] = self.fired.get(k, 0) + v
        for k, v in out["seam"].items():
            self.seam[k] = self.seam.get(k, 0) + v
        for o in out["outcomes"]:
            self.ops[f"{o[1]}:{o[2]}"] = self.ops.get(f"{o[1]}:{o[2]}", 0) + 1
            t["skips"] += o[2] == "skip"
        for s in out["sig"]:
            self.sigs.add(hash_sig(s))
        if out["writes"]:
            # executions that reached a write, told apart by operations, outcomes, faults and the shapes of the files
            self.distinct.add(hash_sig(([o[1:3] for o in out["outcomes"]], [(w["ok"], w["fired"], sorted(w["counts"].items()))
                                        for w in out["writes"].values()], out["sig"], out["switches"])))
        return out


def hash_sig(s):
    import hashlib
    return hashlib.blake2b(repr(s).encode(), digest_size=8).hexdigest()


def make_case(prop, seed, tier):
    from . import gen
    prog, _ = gen.generate(prop, seed, tier)
    return {"prop": prop, "seed": seed, "prog": prog, "var": seed, "hash": seed % 4}


def own(prop, out):
    if out.get("hung"):
        return [V("no_progress", "the run did not finish within its processor time limit")]
    return [V(rule, msg, op) for tags, rule, msg, op in out["problems"] if prop in tags]


def evaluate(case, ctx):
    prop = case["prop"]
    base = ctx.run(case["prog"])
    vs = own(prop, base)
    if not base.get("hung") and prop in DIFFERENTIAL:
        vs += globals()["diff_" + prop](case, base, ctx)
    return vs, base


# ------------------------------------------------------------------------------------------------- program surgery

def ops_iter(ops, path=()):
    for i, o in enumerate(ops):
        p = path + (i,)
        yield p, o
        if o["op"] == "hc":
            yield from ops_iter(o["ops"], p)
        elif o["op"] == "par":
            for j, t in enumerate(o["threads"]):
                yield from ops_iter(t, p + (j,))


def ops_filter(ops, keep, path=()):
    """Copy of the operations without those ``keep(path, op)`` refuses."""
    out = []
    for i, o in enumerate(ops):
        p = path + (i,)
        if not keep(p, o):
            continue
        if o["op"] == "hc":
            o = dict(o, ops=ops_filter(o["ops"], keep, p))
        elif o["op"] == "par":
            o = dict(o, threads=[ops_filter(t, keep, p + (j,)) for j, t in enumerate(o["threads"])])
        out.append(o)
    return out


def serialise(ops):
    """The same operations without threads: one thread's after the other's."""
    out = []
    for o in ops:
        if o["op"] == "par":
            for t in o["threads"]:
                out += serialise(t)
        elif o["op"] == "hc":
            out.append(dict(o, ops=serialise(o["ops"])))
        else:
            out.append(o)
    return out


def owner_map(ops):
    """Which file each operation belongs to (None: environment)."""
    lf, obj, own_ = {}, {}, {}
    for p, o in ops_iter(ops):
        k = o["op"]
        f = None
        if k == "file":
            f = o["id"]
        elif k == "lf":
            f = o["f"]
            lf[o["id"]] = f
        elif k == "add":
            f = lf.get(o["lf"])
            obj[o["id"]] = f
        elif "f" in o:
            f = o["f"]
        elif "lf" in o:
            f = lf.get(o["lf"])
        elif "o" in o:
            f = obj.get(o["o"])
        own_[p] = f
    return own_


def out_bytes(out, wid):
    w = out["writes"].get(wid)
    if not w or not w["ok"]:
        return None
    with simio.REAL_OPEN(os.path.join(out["root"], wid + ".out"), "rb") as fh:
        return fh.read()


def differ(a, b):
    """Where and how two files differ."""
    n = min(len(a), len(b))
    i = next((k for k in range(n) if a[k] != b[k]), n)
    msg = f"{len(a)} and {len(b)} bytes, first difference at {i}: {a[max(0, i - 12):i + 12].hex()} / {b[max(0, i - 12):i + 12].hex()}"
    try:
        ra, rb = rp66.parse_physical(a).records, rp66.parse_physical(b).records
        if len(ra) != len(rb):
            return msg + f"; {len(ra)} and {len(rb)} records"
        for k, (x, y) in enumerate(zip(ra, rb)):
            if (x.type, x.is_eflr, x.body) != (y.type, y.is_eflr, y.body):
                return msg + f"; record {k} (type {x.type}/{y.type}, {len(x.body)}/{len(y.body)} bytes)"
    except Exception:                                                        # noqa: description only
        pass
    return msg


VOLATILE = ("FILE-SET-NUMBER", "CREATION-TIME")


def same_but_volatile(a, b):
    """Equal record for record, leaving out the two values that may legitimately be drawn afresh."""
    try:
        ra, rb = rp66.parse_physical(a).records, rp66.parse_physical(b).records
        if len(ra) != len(rb):
            return False
        for x, y in zip(ra, rb):
            if (x.type, x.is_eflr) != (y.type, y.is_eflr):
                return False
            if x.body == y.body:
                continue
            if not x.is_eflr:
                return False
            sx, sy = rp66.parse_eflr(x), rp66.parse_eflr(y)
            if sx.type != "ORIGIN" or len(sx.objects) != len(sy.objects):
                return False
            for p, q in zip(sx.objects, sy.objects):
                if p.name != q.name or list(p.attrs) != list(q.attrs):
                    return False
                for lab in p.attrs:
                    u, v = p.attrs[lab], q.attrs[lab]
                    if lab not in VOLATILE and (u.values, u.code, u.units, u.count) != (v.values, v.code, v.units, v.count):
                        return False
        return True
    except Exception:                                                        # noqa
        return False


def compare(ctx, prog, a, b, remote=False):
    """None when equal; otherwise a description.  Values drawn from sources the simulator does not own do not count."""
    ctx.tot["compared"] += 1
    if a == b:
        return None
    if same_but_volatile(a, b):
        return None if not _repeatable(ctx, prog) else differ(a, b)
    return differ(a, b)


def _repeatable(ctx, prog):
    x, y = ctx.run(prog), ctx.run(prog)
    return {k: w.get("sha") for k, w in x["writes"].items()} == {k: w.get("sha") for k, w in y["writes"].items()}


# ------------------------------------------------------------------------------------------------------------ C14

def diff_C14(case, base, ctx):
    """Each output against that of a fresh process that only ever built this specification and wrote it once."""
    ops = case["prog"]["ops"]
    own_ = owner_map(ops)
    res = []
    r = random.Random(case["var"])
    flat = [(p, o) for p, o in ops_iter(ops) if o["op"] == "write" and base["writes"].get(o["id"], {}).get("ok")]
    if len(flat) > 4:
        first = r.sample(flat[:-2], 2)
        flat = first + flat[-2:]
    par = any(o["op"] == "par" for o in ops)
    for p, w in flat:
        f = w["f"]

        def keep(q, o):
            if o["op"] in ("hc", "par", "env"):
                return True
            if own_.get(q) != f or o["op"] == "read":
                return False
            if o["op"] == "write":
                return o["id"] == w["id"]
            # what was done to the specification after this write is not part of it
            return q < p or par and q[:-1] != p[:-1] and q[0] <= p[0]

        d = ops_filter(ops, keep)
        d = [o for o in d if o["op"] != "hc" or o["ops"]]
        if par:
            d = serialise(d)
        for q, o in ops_iter(d):
            if o["op"] == "write":
                o.pop("prior", None)
        d = copy.deepcopy(d)
        for _, o in ops_iter(d):
            if o["op"] == "write":
                o.pop("faults", None)
                o.pop("prior", None)
        x = out_bytes(base, w["id"])
        fresh = ctx.run({"ops": d}, remote=True)
        ctx.tot["variants"] += 1
        if fresh.get("hung"):
            return res + [V("no_progress", "fresh process: no end")]
        if w["id"] not in fresh["writes"] or not fresh["writes"][w["id"]]["ok"]:
            res.append(V("fresh_fails", f"write {w['id']} succeeds here but in a fresh process: "
                         f"{fresh['writes'].get(w['id'], {}).get('exc')}", p))
            continue
        y = out_bytes(fresh, w["id"])
        m = compare(ctx, case["prog"], x, y)
        if m:
            res.append(V("history_dependence", f"write {w['id']} of file {f}: after this history and in a fresh process: {m}", p))
    return res


# ------------------------------------------------------------------------------------------------------------ C20

def diff_C20(case, base, ctx):
    """The same history without the calls that were refused and the writes that failed."""
    ops = case["prog"]["ops"]
    drop = set()
    for path, k, st, msg in base["outcomes"]:
        if st == "raise" and k in ("add", "nf", "lf", "write", "file"):
            drop.add(tuple(path))
    dropped_w = set()
    for p, o in ops_iter(ops):
        if p in drop and o["op"] == "write":
            dropped_w.add(o["id"])
    if not drop:
        return []
    ctx.tot["rejected"] += len(drop)
    clean = {"ops": copy.deepcopy(ops_filter(ops, lambda q, o: q not in drop))}
    out = ctx.run(clean)
    ctx.tot["variants"] += 1
    if out.get("hung"):
        return [V("no_progress", "without the rejected calls: no end")]
    res = []
    a = [(k, st, msg) for path, k, st, msg in base["outcomes"] if tuple(path) not in drop]
    b = [(k, st, msg) for path, k, st, msg in out["outcomes"]]
    a = [x for x in a if x[0] != "write"]
    b = [x for x in b if x[0] != "write"]
    for i, (x, y) in enumerate(zip(a, b)):
        if x[:2] != y[:2]:
            res.append(V("outcome_differs", f"operation {i}: {x} after the rejected calls, {y} without them"))
            break
    else:
        if len(a) != len(b):
            res.append(V("outcome_differs", f"{len(a)} outcomes after the rejected calls, {len(b)} without them"))
    for wid, w in base["writes"].items():
        if wid in dropped_w or w["crashed"]:
            continue
        v = out["writes"].get(wid)
        if v is None:
            continue
        if not v["ok"]:
            if w["ok"] and not v["hard"]:
                res.append(V("outcome_differs", f"write {wid} succeeds after the rejected calls but raises without them: {v['exc']}"))
            continue
        m = compare(ctx, case["prog"], out_bytes(base, wid), out_bytes(out, wid))
        if m:
            res.append(V("rejected_call_left_trace", f"write {wid} with and without the rejected calls: {m}"))
            break
    # a write that failed for a cause of its own arguments or the environment: the same call, with the cause removed,
    # by the specification as it was at that point
    return res


# ------------------------------------------------------------------------------------------------------------ C10

def diff_C10(case, base, ctx):
    r = random.Random(case["var"])
    prog = case["prog"]
    res = []
    ml = {}
    for _, o in ops_iter(prog["ops"]):
        if o["op"] in ("file", "sul"):
            fid = o.get("id") or o["f"]
            ml[fid] = max(ml.get(fid, 0), o.get("ml", 8192 if o["op"] == "file" else 0))
    rows = max([1] + [n or 0 for w in base["writes"].values() for n in w.get("frames", {}).values()])

    def variant(change):
        p = copy.deepcopy(prog)
        for _, o in ops_iter(p["ops"]):
            if o["op"] == "write":
                change(o)
        return p

    def sizes(o):
        m = ml.get(o["f"], 8192)
        size = base["writes"].get(o["id"], {}).get("size", 1000)
        c = r.choice([m, m, m + 1, m + 2, m + r.randrange(m), 2 * m, 3 * m - 1, size + 1, size, size - 80, size // 2,
                      size // 3, 1 << 20])
        c = max(m, c)
        if r.random() < .25:
            c = r.choice([float(c), None, "def"])
        o["ocs"] = c
        o["ics"] = r.choice([None, 1, 1, 2, 3, max(1, rows - 1), rows, rows + 1, rows * 2, r.randint(1, rows + 1)])
        o.pop("faults", None)
        o["prior"] = r.choice([None, None, "short", "long"])
        if r.random() < .3:
            o["faults"] = [{"site": "write", "n": r.randint(1, 6), "kind": r.choice(["SHORT", "EINTR", "STALL"]),
                            "frac": r.choice([.01, .5, .99])}]

    for k in range(3):
        v = ctx.run(variant(sizes))
        ctx.tot["variants"] += 1
        res += own("C10", v)
        for wid, w in base["writes"].items():
            x = v["writes"].get(wid)
            if x is None or x.get("crashed"):
                continue
            if w["ok"] != x["ok"]:
                if (w["hard"] or x["hard"]):
                    continue
                res.append(V("chunk_size_outcome", f"write {wid}: {w['exc'] or 'succeeds'} and, with other chunk sizes, "
                             f"{x['exc'] or 'succeeds'}"))
                return res
            if w["ok"]:
                m = compare(ctx, prog, out_bytes(base, wid), out_bytes(v, wid))
                if m:
                    res.append(V("chunk_size_visible", f"write {wid} with other chunk sizes: {m}"))
                    return res
    # the process dies right after some flush
    ws = [wid for wid, w in base["writes"].items() if w["ok"] and len(w["flushes"]) > 1]
    if ws:
        wid = r.choice(ws)
        n = r.randint(1, len(base["writes"][wid]["flushes"]) + 1)
        final = out_bytes(base, wid)
        name = {}

        def crash(o):
            if o["id"] == wid:
                o["faults"] = [{"site": "flushed", "n": n, "kind": "CRASH"}]
                o["prior"] = r.choice([None, "long"])
                o["ocs"] = o["ocs"]
                name["n"] = (o.get("name") or wid) + ".dlis"

        v = ctx.run(variant(crash))
        ctx.tot["variants"] += 1
        if v["writes"].get(wid, {}).get("crashed"):
            with simio.REAL_OPEN(os.path.join(v["root"], name["n"]), "rb") as fh:
                left = fh.read()
            bounds = set(rp66.parse_physical(final).vr_bounds) | {len(final)}
            if final[:len(left)] != left or len(left) not in bounds:
                res.append(V("crash_not_prefix", f"a crash after flush {n} of write {wid} leaves {len(left)} bytes that are not a "
                             f"record-aligned prefix of the final {len(final)}"))
    return res


# ------------------------------------------------------------------------------------------------------------ C02

def diff_C02(case, base, ctx):
    """The logical records handed to the writer do not depend on how it may cut them: with other record lengths and
    other results of the write calls, reassembly gives the same records."""
    r = random.Random(case["var"])
    prog = case["prog"]
    res = []
    for k in range(2):
        p = copy.deepcopy(prog)
        new = {}
        for _, o in ops_iter(p["ops"]):
            if o["op"] == "file":
                if o.get("exp", "ok") != "ok" or not isinstance(o.get("ml", 8192), int):
                    continue
                o["ml"] = 16384 if k == 0 and r.random() < .6 else r.choice(
                    [20, 22, 24, 26, 28, 30, 32, 34, 36, 40, 44, 48, 52, 56, 64, 100, 128, 254, 256, 258, 1000, 4096, 8192])
                new[o["id"]] = o["ml"]
            elif o["op"] == "sul":
                if "ml" in o and o["f"] in new:
                    o["ml"] = new[o["f"]]
            elif o["op"] == "write":
                m = new.get(o["f"])
                if m is None:
                    continue
                if not isinstance(o["ocs"], (int, float)) or o["ocs"] < m or r.random() < .5:
                    o["ocs"] = max(m, r.choice([m, m + 1, 2 * m, 3 * m - 1, 1 << 16]))
                o.pop("faults", None)
                if r.random() < .3:
                    o["faults"] = [{"site": "write", "n": r.randint(1, 6), "kind": r.choice(["SHORT", "STALL"]),
                                    "frac": r.choice([.01, .5, .99])}]
        v = ctx.run(p)
        ctx.tot["variants"] += 1
        res += own("C02", v)
        for wid, w in base["writes"].items():
            x = v["writes"].get(wid)
            if x is None or not w["ok"] or not x["ok"]:
                continue
            a, b = out_bytes(base, wid), out_bytes(v, wid)
            ctx.tot["compared"] += 1
            pa, pb = rp66.parse_physical(a), rp66.parse_physical(b)
            if pa.broken or pb.broken:
                continue
            ra = [(q.is_eflr, q.type, bytes(q.body)) for q in pa.records]
            rb = [(q.is_eflr, q.type, bytes(q.body)) for q in pb.records]
            if ra == rb or same_but_volatile(a, b):
                continue
            i = next((j for j, (x_, y_) in enumerate(zip(ra, rb)) if x_ != y_), min(len(ra), len(rb)))
            res.append(V("record_sequence", f"write {wid}: {len(ra)} and, with maximum record lengths {new}, {len(rb)} records; "
                         f"record {i}: {ra[i][1:] if i < len(ra) else None!r:.200} / {rb[i][1:] if i < len(rb) else None!r:.200}"))
            return res
    return res


# ------------------------------------------------------------------------------------------------------------ C11

def diff_C11(case, base, ctx):
    r = random.Random(case["var"])
    prog = case["prog"]
    res = []
    src_w = [o for _, o in ops_iter(prog["ops"]) if o["op"] == "write" and (o.get("src") or {}).get("d")]
    if not src_w:
        return []
    for o in src_w:
        if any("share" in a or "x" in a or "bad" in o["src"] for a in o["src"]["d"].values()):
            return []
    w0 = src_w[0]
    f = w0["f"]
    kinds = ["dict", "slice", "inline", "h5", "struct", "h5", "struct", "inline", "part"]
    n = 0
    for k in r.sample(kinds, len(kinds)):
        if n >= 4:
            break
        p = recast_sources(prog, k, r)
        if p is None:
            continue
        n += 1
        v = ctx.run(p)
        ctx.tot["variants"] += 1
        res += [x for x in own("C11", v)]
        for o in src_w:
            wid = o["id"]
            a, b = base["writes"].get(wid), v["writes"].get(wid)
            if a is None or b is None or a["hard"] or b["hard"]:
                continue
            if a["ok"] != b["ok"]:
                if a["why"] or b["why"]:
                    continue
                res.append(V("source_outcome", f"write {wid} from {o['src']['k']}: {a['exc'] or 'succeeds'}; from {k}: {b['exc'] or 'succeeds'}"))
                return res
            if a["ok"]:
                m = compare(ctx, prog, out_bytes(base, wid), out_bytes(v, wid))
                if m:
                    res.append(V("source_visible", f"write {wid} from {o['src']['k']} and from {k}: {m}"))
                    return res
    return res


def recast_sources(prog, kind, r):
    """The same program with the external data of every write supplied in another way."""
    p = copy.deepcopy(prog)
    if kind in ("inline", "part"):
        ws = [o for _, o in ops_iter(p["ops"]) if o["op"] == "write"]
        if len(ws) != 1 or any(o["op"] in ("dsname", "rename", "par", "hc") for _, o in ops_iter(p["ops"])):
            return None
        d = ws[0]["src"]["d"]
        n = 0
        used = {}
        for _, o in ops_iter(p["ops"]):
            if o["op"] == "add" and o["t"] == "channel" and not o.get("data"):
                nm = o["name"]["s"] if isinstance(o["name"].get("s"), str) else None
                ds = (o.get("ds") or {}).get("s") if o.get("ds") else None
                if ds is None:
                    # the library picks the name: only the first channel of that name gets it unchanged
                    if nm in used:
                        return None
                    ds = nm
                if not isinstance(ds, str):
                    return None
                used[nm] = 1
                if ds in d and (kind == "inline" or r.random() < .5):
                    o["data"] = d[ds]
                    n += 1
                    if kind == "part":
                        d.pop(ds)
        if not n:
            return None
        if kind == "part" and d:
            # some of the data with their channels, the rest with the write
            ws[0]["src"]["k"] = "dict"
            ws[0]["src"]["order"] = [x for x in ws[0]["src"]["order"] if x in d]
            return p
        ws[0]["src"] = None
        ws[0].pop("src")
        return p
    for _, o in ops_iter(p["ops"]):
        if o["op"] != "write" or not (o.get("src") or {}).get("d"):
            continue
        s = o["src"]
        d = s["d"]
        order = list(s["order"])
        r.shuffle(order)
        s["order"] = order
        counts = {a["shape"][0] for a in d.values() if a["shape"]}
        scalar = any(not a["shape"] for a in d.values())
        if kind == "slice":
            f0, t0 = o.get("from") or 0, o.get("to")
            if f0 < 0 or scalar or (f0 == 0 and t0 is None) or len(counts) != 1 or f0 > min(counts) or (t0 or 0) > min(counts):
                return None
            for n, a in d.items():
                d[n] = dict(a, sl=[f0, t0 if t0 is not None else a["shape"][0]])
            o.pop("from", None)
            o.pop("to", None)
            if s["k"] == "struct" or r.random() < .5:
                s["k"] = "dict"
        elif kind == "dict":
            s["k"] = "dict"
            for n, a in list(d.items()):
                d[n] = dict(a, lay=r.choice([a.get("lay", "C"), "strided", "rev", "C", "sub"]), bc=int(a.get("lay") == "bcast"))
            if r.random() < .5:
                d["zz_unused"] = {"dt": "<f4", "shape": [r.choice([1, 9])], "g": {"k": "seq", "s": 1}}
                order.insert(r.randrange(len(order) + 1), "zz_unused")
            if r.random() < .4:
                o["ics"] = r.choice([1, 2, 3, None])
        elif kind == "struct":
            if len(counts) != 1 or scalar or any(n == "" for n in d) or any("lay" == 0 for a in d.values()):
                return None
            if any(a["dt"].lstrip("<>|")[0] not in "fiu" for a in d.values()):
                return None
            s["k"] = "struct"
            s["align"] = r.randrange(2)
            s["slay"] = r.choice([None, None, "strided", "rev", "ro", "fields", "rec"])
            named = [x["name"].get("s") for _, x in ops_iter(p["ops"]) if x["op"] == "add" and x["t"] == "channel"]
            if r.random() < .5 and all(isinstance(n, str) for n in named) and sorted(named) == sorted(d):
                # fields that look like the rows of the frame, whichever channel each of them belongs to
                order[:] = named
                s["align"] = 0
            if r.random() < .4:
                d["zz_unused"] = {"dt": "<f8", "shape": [min(counts)], "g": {"k": "seq", "s": 1}}
                order.insert(r.randrange(len(order) + 1), "zz_unused")
        elif kind == "h5":
            if not spec.h5_names(d) or scalar:
                return None
            if any(a["dt"].lstrip("<>|")[0] not in "fiu" for a in d.values()):
                return None
            s["k"] = "h5"
            s["ext"], s["chunked"], s["pathlib"] = r.randrange(2), r.randrange(2), r.randrange(2)
            if r.random() < .4:
                d["zz_unused"] = {"dt": "<f8", "shape": [r.choice([1, 9])], "g": {"k": "seq", "s": 1}}
                order.insert(r.randrange(len(order) + 1), "zz_unused")
        else:
            return None
    # a structured or HDF5 source excludes inline data
    if kind in ("struct", "h5") and any(o["op"] == "add" and o.get("data") for _, o in ops_iter(p["ops"])):
        return None
    return p
