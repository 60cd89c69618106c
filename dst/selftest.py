"""Setup: nothing to build; confirms in a few seconds that the simulator works and repeats itself here."""
import os
import shutil
import sys


def main(n=4):
    from . import checks, proc, runner
    proc.warm()
    root = os.path.join(runner.scratch_base(), f"dst.{os.getpid()}.self")
    bad = []
    try:
        ctx = checks.Ctx(root, proc.fork_run)
        for prop in checks.PROPS:
            for k in range(n):
                case = checks.make_case(prop, 7_000_000 + k, "quick")
                a, b = ctx.run(case["prog"]), ctx.run(case["prog"])
                if runner.digest(a) != runner.digest(b):
                    bad.append((prop, 7_000_000 + k))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print(f"{ctx.tot['runs']} runs, {len(bad)} did not repeat: {bad}")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
