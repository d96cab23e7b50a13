#!/usr/bin/env python3
"""Decide one property of gym-anm by runtime monitoring.

    check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--jobs N]

Exit 0: held on everything explored; 1: violated (VIOLATION lines); 2: no answer.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    # Never execute (possibly stale) bytecode lying in the checked tree.
    "PYTHONPYCACHEPREFIX": "/nonexistent/vmon-pycache",
    "VMON_REEXEC": "1",
}


def main():
    if os.environ.get("VMON_REEXEC") != "1" and os.path.exists(PY):
        env = dict(os.environ)
        env.update(ENV)
        os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from vmon import core

    sys.exit(core.main(sys.argv[1:]))


if __name__ == "__main__":
    main()
