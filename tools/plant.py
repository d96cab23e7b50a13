"""Make and confirm a planted bug.

    put in /tmp/plant/ID.py:  PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)
then   plant.py ID [--notest]   writes /verif/seeded/ID/ and confirms it.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(bid, notest=False):
    spec = importlib.util.spec_from_file_location("b", "/tmp/plant/%s.py" % bid)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    out = os.environ.get("SEEDED", "/verif/seeded/") + bid
    os.makedirs(out, exist_ok=True)
    W = "/tmp/plantw_" + bid
    shutil.rmtree(W, ignore_errors=True)
    sh("cp -a /repo %s" % W)
    assert not sh("git -C %s status --porcelain" % W).stdout
    for f, old, new in m.EDITS:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C %s diff" % W).stdout
    open(out + "/patch.diff", "w").write(diff)
    name = "demo.mjs" if getattr(m, "NODE", False) else "demo.py"
    open(out + "/" + name, "w").write(m.DEMO)
    run = "node" if name.endswith("mjs") else "/opt/venv/bin/python -W ignore"
    open(out + "/demo.sh", "w").write('#!/bin/bash\n# Run with cwd = the repository.\nexec %s "$(cd "$(dirname "$0")" && pwd)/%s"\n' % (run, name))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": m.PROP, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(out + "/meta.json", "w"), indent=1)
    env = dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE="1")
    a = sh("bash %s/demo.sh" % out, cwd="/repo")
    b = sh("bash %s/demo.sh" % out, cwd=W, env=env)
    print(bid, "demo on tree:", a.returncode, "with patch:", b.returncode)
    if a.returncode:
        print(a.stdout[-1500:], a.stderr[-1500:])
    print("  ", (b.stdout + b.stderr).strip().splitlines()[-1:] )
    if not notest:
        t = sh("%s -m pytest tests -q -n 8 -p no:cacheprovider -o 'python_files=test_*.py *_test.py custom_obs_space.py' --timeout=300 2>&1 | tail -4" % PY, cwd=W, env=env)
        print("  tests:", t.stdout.strip().splitlines()[-2:])
    shutil.rmtree(W)
    print(diff)


if __name__ == "__main__":
    main(sys.argv[1], "--notest" in sys.argv)
