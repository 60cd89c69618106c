"""Runs programs, each in its own process forked from a pristine interpreter.

``Server`` forks directly (the caller must never have used the library itself); ``Remote`` talks to a server in another
interpreter, started with another string-hash seed: a genuinely fresh process as far as the library can tell.
"""
import os
import pickle
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

WEDGED = 40             # seconds asleep without using any processor time
CPU_LIMIT = 60          # seconds of processor time; an ordinary run takes well below one
PYTHON = sys.executable


class Harness(Exception):
    """The machinery itself failed; says nothing about the library."""


def child_run(prog, root, keep):
    """Everything that happens inside the simulation process; returns a plain dictionary."""
    from . import engine, simio
    from .simio import W
    simio.install(root)
    s = engine.run_program(prog, root, keep)
    return {"problems": [(sorted(p.tags), p.rule, p.msg, list(p.op) if p.op is not None else None) for p in s.problems],
            "outcomes": s.outcomes, "writes": s.writes, "sig": s.sig, "steps": s.steps, "switches": s.switches,
            "fired": dict(W.fired), "seam": dict(W.seam), "mono": W.mono - 1000.0}


def fork_run(prog, root, keep=True):
    """Fork, run, collect.  The directory ``root`` is created and left for the caller."""
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            null = os.open("/dev/null", os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                out = child_run(prog, root, keep)
            except BaseException as e:                                       # noqa
                out = {"harness": f"{type(e).__name__}: {e}"[:500], "tb": traceback.format_exc()[-3000:]}
            data = pickle.dumps(out, protocol=4)
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        except BaseException:                                                # noqa
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    used, idle, wedged = None, 0, False
    while True:
        if not select.select([r], [], [], 2)[0]:
            # no processor time used for a long while and every thread asleep: waiting for something that never comes
            now, asleep = _progress(pid)
            idle = idle + 1 if asleep and now == used else 0
            used = now
            if idle >= WEDGED // 2:
                wedged = True
                os.kill(pid, signal.SIGKILL)
                break
            continue
        c = os.read(r, 1 << 18)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if wedged:
        return {"hung": True, "signal": 0}
    data = b"".join(chunks)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig == signal.SIGXCPU and not data:
            return {"hung": True, "signal": sig}
        return {"harness": f"simulation process killed by signal {sig}", "tb": ""}
    if not data:
        return {"harness": f"simulation process ended with status {st}", "tb": ""}
    return pickle.loads(data)


def _progress(pid):
    """Processor ticks used so far, and whether all threads of the process sleep."""
    ticks, asleep = 0, True
    try:
        for t in os.listdir(f"/proc/{pid}/task"):
            with open(f"/proc/{pid}/task/{t}/stat") as fh:
                f = fh.read().rsplit(")", 1)[1].split()
            ticks += int(f[11]) + int(f[12])
            asleep = asleep and f[0] == "S"
    except (OSError, IndexError, ValueError):
        return -1, False
    return ticks, asleep


def warm():
    """Import everything a simulation needs, without using it."""
    sys.path.insert(0, os.environ.get("DST_SRC", "/repo/src"))
    import numpy                              # noqa: F401
    import h5py                               # noqa: F401
    import dliswriter                         # noqa: F401
    from . import engine, gen, oracle, simio  # noqa: F401
    simio.prepare()


def _read(f, n):
    b = b""
    while len(b) < n:
        c = f.read(n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def serve():
    """Main loop of a remote server: programs on stdin, results on stdout."""
    warm()
    i, o = sys.stdin.buffer, sys.stdout.buffer
    while True:
        try:
            n, = struct.unpack("<Q", _read(i, 8))
        except EOFError:
            return
        prog, root, keep = pickle.loads(_read(i, n))
        data = pickle.dumps(fork_run(prog, root, keep), protocol=4)
        o.write(struct.pack("<Q", len(data)) + data)
        o.flush()


class Remote:
    """A fresh interpreter with its own hash seed."""

    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([PYTHON, "-c", "import sys; sys.path.insert(0, %r); from dst import proc; proc.serve()" % here],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def run(self, prog, root, keep=True):
        d = pickle.dumps((prog, root, keep), protocol=4)
        try:
            self.p.stdin.write(struct.pack("<Q", len(d)) + d)
            self.p.stdin.flush()
            n, = struct.unpack("<Q", _read(self.p.stdout, 8))
            return pickle.loads(_read(self.p.stdout, n))
        except (EOFError, OSError) as e:
            return {"harness": f"remote server: {e!r}", "tb": ""}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:                                                    # noqa
            self.p.kill()
