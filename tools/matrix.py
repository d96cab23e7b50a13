"""Run the checks against the planted bugs (development): matrix.py [-p] [ID...]

Each bug is applied to a scratch copy of /repo (removed afterwards). Without -p
only the bug's own property is run, with -p all properties."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(bid, allp):
    w = "/tmp/mx_%s" % bid
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    r = subprocess.run(["git", "-C", w, "apply", os.path.join(HERE, "seeded", bid, "patch.diff")], capture_output=True, text=True)
    if r.returncode:
        shutil.rmtree(w)
        return bid, "DOES NOT APPLY " + r.stderr
    prop = json.load(open(os.path.join(HERE, "seeded", bid, "meta.json")))["property"]
    props = [prop]
    if allp:
        props = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    # Separate copy of /verif, so that evidence files are left alone.
    v = "/tmp/mv_%s" % bid
    shutil.rmtree(v, ignore_errors=True)
    os.makedirs(v)
    for x in ("check.py", "vmon", "props", "known_findings.json"):
        subprocess.run(["cp", "-a", os.path.join(HERE, x), v], check=True)
    res = []
    for p in props:
        env = dict(os.environ, VERIF_REPO=w, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        r = subprocess.run([sys.executable, "check.py", p], cwd=v, env=env, capture_output=True, text=True)
        mech = [l.strip().split("]")[0] + "]" for l in r.stdout.splitlines() if l.startswith("  [")]
        res.append((p, r.returncode, mech[:3]))
    shutil.rmtree(w)
    shutil.rmtree(v)
    out = []
    for p, rc, mech in res:
        if rc != 0 or p == prop:
            out.append("%s%s:%s %s" % ("*" if p == prop else "", p, {0: "MISSED", 1: "caught", 2: "NO ANSWER"}.get(rc, rc), " ".join(mech)))
    return bid, "\n      ".join(out)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    allp = "-p" in sys.argv
    ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
    path = os.path.join(HERE, "tools", "design", "caught.json")
    caught = json.load(open(path)) if os.path.exists(path) else {}
    with ThreadPoolExecutor(2 if not allp else 3) as ex:
        for bid, txt in ex.map(lambda b: one(b, allp), ids):
            print("%s  %s" % (bid, txt), flush=True)
            if not allp:
                caught[bid] = txt.lstrip("*").replace(":caught", "")
    if not allp:
        caught = {k: v for k, v in sorted(caught.items()) if os.path.isdir(os.path.join(HERE, "seeded", k))}
        json.dump(caught, open(path, "w"), indent=0)


main()
