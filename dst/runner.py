"""Distributes seeds over worker interpreters, collects, minimises, reports.

Lane i of LANES always runs with PYTHONHASHSEED=i and evaluates the seeds congruent to i, whatever the number of
processors: what a seed does is a function of the seed alone.
"""
import argparse
import json
import os
import pickle
import re
import select
import shutil
import signal
import subprocess
import sys
import time
import traceback

LANES = 8
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
BUDGET = {"quick": 55.0, "thorough": 600.0}
CAP = {"quick": 420.0, "thorough": 840.0}
SEEDS = {"quick": 1_000_000, "thorough": 100_000_000}


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return os.getcwd()


# ----------------------------------------------------------------------------------------------------- lane (child)

def lane_main(argv):
    """One lane: reads its instructions from argv, writes pickled messages to stdout."""
    prop, tier, base, lane, lanes, budget, root = argv[0], argv[1], int(argv[2]), int(argv[3]), int(argv[4]), float(argv[5]), argv[6]
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(os.open("/dev/null", os.O_RDWR), 1)
    os.dup2(1, 0)

    def send(x):
        d = pickle.dumps(x, protocol=4)
        out.write(len(d).to_bytes(8, "little") + d)
        out.flush()

    stop = []
    signal.signal(signal.SIGTERM, lambda *a: stop.append(1))
    try:
        from . import checks, proc
        proc.warm()
        remote = proc.Remote(100 + lane) if prop == "C14" else None
        ctx = checks.Ctx(root, proc.fork_run, remote)
        t0 = time.monotonic()
        k = lane
        n = 0
        det = 0
        detbad = []
        samples = []
        while time.monotonic() - t0 < budget and not stop:
            seed = base + k
            k += lanes
            try:
                case = checks.make_case(prop, seed, tier)
                case["hash"] = lane
                vs, b = checks.evaluate(case, ctx)
                if n % 40 == 7:
                    # the same program again: every observable must repeat
                    det += 1
                    again = ctx.run(case["prog"])
                    x, y = digest(b), digest(again)
                    if x != y:
                        i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                        detbad.append([seed, x[max(0, i - 80):i + 120], y[max(0, i - 80):i + 120]])
                if len(samples) < 1 and b.get("writes") and not vs:
                    samples.append({"seed": seed, "ops": [o["op"] + (":" + o["t"] if "t" in o else "") for o in case["prog"]["ops"]][:60],
                                    "writes": {w: {"ok": i["ok"], "bytes": i["size"], "fired": i["fired"], "sha": i["sha"]}
                                               for w, i in b["writes"].items()}})
            except checks.HarnessFailure as e:
                send(("harness", seed, str(e)))
                n += 1
                continue
            except Exception as e:                                           # noqa: generator or oracle failed
                send(("harness", seed, f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"))
                n += 1
                continue
            n += 1
            if vs:
                send(("bad", seed, case, [(v.key(), v.rule, v.msg, v.op) for v in vs]))
        send(("done", lane, n, ctx.tot, ctx.fired, ctx.seam, ctx.sigs, ctx.ops, det, detbad, samples, ctx.distinct))
        if remote:
            remote.close()
    except BaseException as e:                                               # noqa
        send(("dead", lane, f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"))


def digest(b):
    # addresses and the scratch directory may show in messages
    return _ADDR.sub("@", json.dumps([b["outcomes"], b["problems"], {k: [w["sha"], w["exc"], w["fired"], w["counts"]] for k, w in b["writes"].items()},
                       b["steps"], b["switches"]], default=str, sort_keys=True))


_ADDR = re.compile(r"0x[0-9a-f]{6,}|/r\d(?=/)")


class Lane:
    def __init__(self, prop, tier, base, lane, budget, root):
        env = dict(os.environ, PYTHONHASHSEED=str(lane), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", DST_EXEC="1",
                   OPENBLAS_NUM_THREADS="1")
        code = "import sys; sys.path.insert(0, %r); from dst import runner; runner.lane_main(sys.argv[1:])" % HERE
        self.p = subprocess.Popen([sys.executable, "-B", "-c", code, prop, tier, str(base), str(lane), str(LANES), str(budget),
                                   root], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env,
                                  start_new_session=True)
        self.buf = b""
        self.eof = False

    def messages(self):
        d = os.read(self.p.stdout.fileno(), 1 << 20)
        if not d:
            self.eof = True
            return
        self.buf += d
        while len(self.buf) >= 8:
            n = int.from_bytes(self.buf[:8], "little")
            if len(self.buf) < 8 + n:
                return
            m = pickle.loads(self.buf[8:8 + n])
            self.buf = self.buf[8 + n:]
            yield m

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (OSError, ProcessLookupError):
            pass
        try:
            self.p.wait(5)
        except Exception:                                                    # noqa
            pass


# ---------------------------------------------------------------------------------------------------------- findings

def known():
    """Findings recorded rather than repaired: {property: [{"rule", "match"}]}."""
    out = {}
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as fh:
            for line in fh:
                m = re.match(r"known: property=(C\d\d) rule=(\S+) match=/(.*)/ (.*)$", line.strip())
                if m:
                    out.setdefault(m.group(1), []).append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except FileNotFoundError:
        pass
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--time", type=float)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    a = ap.parse_args(argv)
    prop, tier = a.prop, a.tier
    vseed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    base = vseed * 1_000_000_000
    budget = a.time or float(os.environ.get("DST_TIME", 0)) or BUDGET[tier]
    t0 = time.monotonic()
    root = os.path.join(scratch_base(), f"dst.{os.getpid()}.{prop}")
    os.makedirs(root, exist_ok=True)
    print(f"property {prop} tier {tier} VERIF_SEED {vseed} seeds from {base} lanes {LANES} budget {budget:.0f} s", flush=True)
    try:
        return _main(prop, tier, vseed, base, budget, root, t0, a.all)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _main(prop, tier, vseed, base, budget, root, t0, every):
    from . import checks
    lanes = [Lane(prop, tier, base, i, budget, os.path.join(root, f"l{i}")) for i in range(LANES)]
    for i in range(LANES):
        os.makedirs(os.path.join(root, f"l{i}"), exist_ok=True)
    K = known()
    bad, harness, done, dead, listed = [], [], [], [], {}
    stop_at, asked = None, False
    live = set(lanes)
    while live:
        now = time.monotonic()
        if now - t0 > CAP[tier] or stop_at is not None and now > stop_at + 10:
            break
        if stop_at is not None and now > stop_at and not asked:
            asked = True
            for ln in live:
                try:
                    ln.p.terminate()
                except OSError:
                    pass
        rs, _, _ = select.select([x.p.stdout for x in live], [], [], .5)
        for ln in list(live):
            if ln.p.stdout not in rs:
                continue
            for m in ln.messages():
                if m[0] == "bad":
                    _, seed, case, vs = m
                    left = []
                    for v in vs:
                        hit = next((t for rule, pat, t in K.get(prop, []) if rule == v[1] and pat.search(v[2])), None)
                        if hit:
                            listed[hit] = listed.get(hit, 0) + 1
                        else:
                            left.append(v)
                    if left:
                        bad.append((seed, case, left))
                        if stop_at is None and not every:
                            stop_at = time.monotonic() + 1.5
                elif m[0] == "harness":
                    harness.append(m[1:])
                elif m[0] == "done":
                    done.append(m)
                elif m[0] == "dead":
                    dead.append(m)
            if ln.eof:
                live.discard(ln)
    early = bool(live) or asked
    for ln in lanes:
        ln.kill()
    wall = time.monotonic() - t0
    for hit, n in listed.items():
        print(f"KNOWN-FINDING: property={prop} {hit} ({n} runs)")
    rc = 0
    violations = []
    if bad:
        bad.sort(key=lambda x: x[0])
        rc = 1
        if every:
            seen = {}
            for seed, case, vs in bad:
                for v in vs:
                    seen.setdefault(v[0], []).append((seed, v[2]))
            for k, xs in seen.items():
                print(f"{len(xs):5d} {k}  seed {xs[0][0]}: {xs[0][1][:300]}")
        violations.append(report(prop, bad, root, tier))
    evidence(prop, tier, vseed, base, budget, wall, done, bad, harness, dead, early, violations, listed)
    n = sum(d[2] for d in done)
    print(f"{n} seeds, {sum(d[3]['runs'] for d in done)} simulated runs, {len(set().union(*[d[6] for d in done]) if done else ())} distinct states, "
          f"{len(bad)} failing seeds, {len(harness)} harness failures, {wall:.0f} s", flush=True)
    nondet = [s for d in done for s in d[9]]
    if nondet:
        print(f"note: {len(nondet)} seeds did not repeat exactly: {nondet[:3]}")
    if rc == 0 and (dead or len(harness) > max(3, .02 * (n or 1)) or not n):
        for h in (harness[:3] + dead[:2]):
            print("HARNESS", h[0], h[1][-2500:])
        print("no answer: the machinery failed")
        return 2
    for h in harness[:2]:
        print("HARNESS", h[0], h[1][:600])
    return rc


def report(prop, bad, root, tier):
    """Minimise the first failing seed, write its replay file, print the VIOLATION line."""
    seed, case, vs = bad[0]
    key, rule, msg, op = vs[0]
    before = len(json.dumps(case["prog"]))
    helper = Helper(prop, case["hash"], os.path.join(root, "shrink"))
    trials = 0
    confirmed = None
    try:
        from . import shrink
        first = helper.keys(case)
        if key in first:
            small, trials = shrink.shrink(case, key, helper.keys, 60 if tier == "quick" else 120)
            got = helper.full(small)
            confirmed = [g for g in got if g[0] == key]
            if confirmed:
                case = small
                _, rule, msg, op = confirmed[0]
    except Exception as e:                                                   # noqa: report the unminimised case
        print(f"note: minimisation failed: {e!r}")
    finally:
        helper.close()
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{seed}.json")
    rec = {"property": prop, "seed": seed, "rule": rule, "key": key, "message": msg, "op": op, "case": case,
           "minimised_from_bytes": before, "minimised_to_bytes": len(json.dumps(case["prog"])), "trials": trials,
           "confirmed_in_fresh_process": bool(confirmed)}
    with open(path, "w") as fh:
        json.dump(rec, fh, indent=1)
    print(f"VIOLATION property={prop} replay={path}")
    print(f"  seed {seed}, rule {rule}: {msg[:1500]}")
    print(f"  program of {before} bytes minimised to {rec['minimised_to_bytes']} in {trials} trials; "
          f"replay with: python3 {os.path.join(HERE, 'replay.py')} {path}", flush=True)
    return {"seed": seed, "rule": rule, "message": msg[:500], "replay": path}


class Helper:
    """An interpreter with the hash seed of the failing lane that evaluates cases one at a time."""

    def __init__(self, prop, hashseed, root):
        self.root = root
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", DST_EXEC="1")
        code = "import sys; sys.path.insert(0, %r); from dst import runner; runner.helper_main(sys.argv[1:])" % HERE
        self.p = subprocess.Popen([sys.executable, "-B", "-c", code, prop, str(hashseed), root], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def full(self, case):
        d = pickle.dumps(case, protocol=4)
        self.p.stdin.write(len(d).to_bytes(8, "little") + d)
        self.p.stdin.flush()
        h = self.p.stdout.read(8)
        if len(h) < 8:
            raise RuntimeError("helper died")
        return pickle.loads(self.p.stdout.read(int.from_bytes(h, "little")))

    def keys(self, case):
        return {v[0] for v in self.full(case)}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(3)
        except Exception:                                                    # noqa
            self.p.kill()


def helper_main(argv):
    prop, hs, root = argv[0], int(argv[1]), argv[2]
    out = os.fdopen(os.dup(1), "wb")
    inp = os.fdopen(os.dup(0), "rb")
    os.dup2(os.open("/dev/null", os.O_RDWR), 1)
    from . import checks, proc
    proc.warm()
    os.makedirs(root, exist_ok=True)
    remote = proc.Remote(100 + hs) if prop == "C14" else None
    while True:
        h = inp.read(8)
        if len(h) < 8:
            break
        case = pickle.loads(inp.read(int.from_bytes(h, "little")))
        ctx = checks.Ctx(root, proc.fork_run, remote)
        try:
            vs, _ = checks.evaluate(case, ctx)
            res = [(v.key(), v.rule, v.msg, v.op) for v in vs]
        except Exception as e:                                               # noqa
            res = [("HARNESS", "HARNESS", f"{type(e).__name__}: {e}", None)]
        d = pickle.dumps(res, protocol=4)
        out.write(len(d).to_bytes(8, "little") + d)
        out.flush()
    if remote:
        remote.close()


def replay(path):
    with open(path) as fh:
        rec = json.load(fh)
    root = os.path.join(scratch_base(), f"dst.{os.getpid()}.replay")
    h = Helper(rec["property"], rec["case"].get("hash", 0), root)
    try:
        got = h.full(rec["case"])
        again = h.full(rec["case"])
    finally:
        h.close()
        shutil.rmtree(root, ignore_errors=True)
    print(json.dumps(rec["case"]["prog"], indent=1))
    for g in got:
        print("found:", g[0], g[2])
    print("identical when repeated:", got == again)
    hit = [g for g in got if g[0] == rec["key"]]
    if hit:
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print("the recorded violation did not occur")
    return 0


# ---------------------------------------------------------------------------------------------------------- evidence

def merge(ds):
    t = {}
    for d in ds:
        for k, v in d.items():
            t[k] = t.get(k, 0) + v
    return t


def evidence(prop, tier, vseed, base, budget, wall, done, bad, harness, dead, early, violations, listed):
    from . import info
    tot = merge([d[3] for d in done])
    fired = merge([d[4] for d in done])
    seam = merge([d[5] for d in done])
    ops = merge([d[7] for d in done])
    sigs = set().union(*[d[6] for d in done]) if done else set()
    distinct = set().union(*[d[11] for d in done]) if done else set()
    seeds = sum(d[2] for d in done)
    det = sum(d[8] for d in done)
    detbad = [s for d in done for s in d[9]]
    runs = tot.get("runs", 0)
    hours = max(wall, 1e-9) / 3600
    rec = {
        "property": prop, "tier": tier, "seed": vseed, "level": info.LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": tot.pop("runs", 0), "distinct_nontrivial": len(distinct), "rule": info.RULE,
            "samples": [s for d in done for s in d[10]][:3],
            "seeds": seeds, "first_seed": base, "runs_per_hour": round(runs / hours),
            "distinct_file_shapes": len(sigs), "seeds_per_hour": round(seeds / hours), "simulated_seconds": round(tot.pop("sim_seconds", 0), 3),
            "totals": tot, "operations": ops, "faults_fired": fired, "seam_events": seam,
            "determinism_reruns": det, "determinism_mismatches": detbad,
            "harness_failures": len(harness), "dead_lanes": len(dead), "stopped_early": early,
            "real_components": info.REAL, "stubbed_components": info.STUB,
            "known_findings_seen": listed, "failing_seeds": [b[0] for b in bad][:20],
        },
        "assumptions": info.ASSUME, "wall_s": round(wall, 2), "violations": len(violations),
    }
    if violations:
        rec["coverage"]["violation_details"] = violations
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{prop}.json.tmp")
    with open(tmp, "w") as fh:
        json.dump(rec, fh, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))
