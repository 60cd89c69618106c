#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough [--seeds N] [--time S] [--workers N]

Runs the simulated executions that decide one property against /repo's working tree.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed, replay file written.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != "/opt/venv" and not os.environ.get("DST_EXEC"):
    os.environ["DST_EXEC"] = "1"
    os.execv(VENV, [VENV, "-B"] + sys.argv)
sys.path.insert(0, HERE)

if __name__ == "__main__":
    if sys.argv[1:2] == ["selftest"]:
        from dst import selftest
        sys.exit(selftest.main())
    from dst import runner
    sys.exit(runner.main(sys.argv[1:]))
