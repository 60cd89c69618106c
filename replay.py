#!/usr/bin/env python3
"""replay.py FILE: executes a replay file in a fresh process; exit 1 when the recorded violation occurs again."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != "/opt/venv" and not os.environ.get("DST_EXEC"):
    os.environ["DST_EXEC"] = "1"
    os.execv(VENV, [VENV, "-B"] + sys.argv)
sys.path.insert(0, HERE)

if __name__ == "__main__":
    from dst import runner
    sys.exit(runner.replay(sys.argv[1]))
