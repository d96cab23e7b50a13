"""setup_cmd: checks that what the checks need is there (nothing has to be built)."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "out"):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
code = "import numpy, scipy, cvxpy, gymnasium, websocket, websocket_server; print('python packages ok')"
rc = subprocess.call(["/opt/venv/bin/python", "-c", code])
rc |= subprocess.call(["node", "-e", "console.log('node ok')"])
sys.exit(rc)
