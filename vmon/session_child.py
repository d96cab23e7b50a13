"""A user process which renders environments; driven by JSON lines (fd 3 / fd 4).

Runs with the package copied to a scratch directory (sys.argv[1]), because
rendering rewrites a file of the package.
"""
import datetime as dt
import json
import logging
import multiprocessing
import os
import sys
import warnings

scratch = sys.argv[1]
sys.path.insert(0, scratch)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
cmd_in = os.fdopen(3, "r")
out = os.fdopen(4, "w")


def say(obj):
    out.write(json.dumps(obj) + "\n")
    out.flush()


def opened(url, *a, **k):
    say({"event": "open", "url": url})
    json.loads(cmd_in.readline())  # "go"
    return True


import webbrowser

webbrowser.open = webbrowser.open_new = webbrowser.open_new_tab = opened

import numpy as np

np.seterr(all="ignore")
import gym_anm

assert os.path.realpath(gym_anm.__file__).startswith(os.path.realpath(scratch) + os.sep), gym_anm.__file__
from gym_anm.envs import ANM6, ANM6Easy

envs = {}


def make(c):
    if c["cls"] == "ANM6Easy":
        return ANM6Easy()

    class UserANM6(ANM6):
        scripted = None

        def init_state(self):
            return np.array(self.scripted, dtype=float)

        def next_vars(self, s_t):
            return np.array(self.scripted, dtype=float)

    UserANM6.__name__ = c["cls"]
    clip = c["clip"]
    return UserANM6("state", c["K"], c["dt"], c["gamma"], c["lamb"], None, None if clip is None else tuple(clip))


def num(x):
    x = float(x)
    return x if np.isfinite(x) else repr(x)


def truth(env):
    st = env.simulator.state
    want = [("dev_p", "MW"), ("dev_q", "MVAr"), ("branch_s", "MVA"), ("des_soc", "MWh"), ("gen_p_max", "MW"), ("bus_v_magn", "pu")]
    d = {q: [[list(k) if isinstance(k, tuple) else k, num(v)] for k, v in st[q][u].items()] for q, u in want}
    d.update(costs=[num(env.e_loss), num(env.penalty)], terminated=bool(env.terminated), date=env.date.isoformat(), year=int(env.year_count), state=[num(x) for x in env.state], dt=float(env.delta_t))
    return d


def handle(c):
    op = c["op"]
    if op == "make":
        envs[c["id"]] = make(c)
        sp = envs[c["id"]].action_space
        return {"low": sp.low.tolist(), "high": sp.high.tolist()}
    if op == "raw_start":
        # (the functions the environments use to talk to the page)
        from gym_anm.envs.anm6_env.rendering.py import rendering

        args = c["args"]
        args[-1] = tuple(args[-1])
        envs[c["id"]] = (rendering,) + tuple(rendering.start(*args))
        return {"address": envs[c["id"]][2].address}
    if op == "raw_update":
        r, _, ws = envs[c["id"]]
        a = [[float(x) for x in v] if isinstance(v, list) else v for v in c["args"]]
        a[0] = dt.datetime.fromisoformat(a[0])
        r.update(ws.address, *a)
        return {}
    if op == "raw_close":
        r, h, w = envs.pop(c["id"])
        r.close(h, w)
        return {}
    if op == "children":
        return {"children": [p.pid for p in multiprocessing.active_children()]}
    env = envs[c["id"]]
    if op == "reset":
        if c.get("vars") is not None:
            env.scripted = c["vars"]
        opts = {"date_init": dt.datetime.fromisoformat(c["date"])} if c.get("date") else None
        obs, _ = env.reset(seed=c.get("seed"), options=opts)
        return truth(env)
    if op == "step":
        if c.get("vars") is not None:
            env.scripted = c["vars"]
        obs, r, term, trunc, info = env.step(np.array(c["action"]))
        return dict(truth(env), obs=[num(x) for x in obs], reward=num(r))
    if op == "reset_date":
        env.reset_date(dt.datetime.fromisoformat(c["date"]))
        return truth(env)
    if op == "render":
        env.render(**({"skip_frames": c["skip"]} if c.get("skip") is not None else {}))
        return truth(env)
    if op == "render_bad":
        try:
            env.render(mode=c["mode"])
        except NotImplementedError:
            return {"raised": "NotImplementedError"}
        return {"raised": None}
    if op == "close":
        env.close()
        return {}
    raise ValueError(op)


say({"ready": True})
while True:
    line = cmd_in.readline()
    if not line:
        break
    try:
        res = handle(json.loads(line))
        say({"ok": res})
    except BaseException as e:
        import traceback

        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        say({"error": type(e).__name__ + ": " + str(e), "trace": traceback.format_exc()[-1500:], "in_code": any("gym_anm" in f for f in frames)})
os._exit(0)
