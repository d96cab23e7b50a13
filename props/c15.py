"""C15: seeded runs are reproducible and environments are isolated."""
import copy
import datetime
import os
import random
import subprocess
import sys
import threading

import numpy as np

from vmon import core, envs, gen, ref, seeded_env as se, work
from vmon.core import HarnessError

RULE = (
    "ANM6Easy and seed-driven environments on random networks: full traces (observation, state, costs, date, reward, "
    "flags, bit for bit) of the same seed and actions are compared between re-resets, instances, processes with another "
    "hash seed, deep copies continuing from the same point, runs interleaved with other environments (also in concurrent threads) and runs with "
    "tampered global random states; global random states are compared before/after; non-trivial = distinct compared trace"
)
ASSUMPTIONS = ["same machine and library versions; environments draw randomness from their np_random only"]
LIMIT_MEMORY = False
MIN = {"traces_compared": 250, "distinct_nontrivial": 120, "deepcopies": 40, "interleavings": 40, "processes": 6, "seeds_differ": 40, "constructor_seeds": 20, "threads": 60, "thread_switches": 100}


def plan(tier):
    q = tier == "quick"
    return [("same", 60 if q else 1800), ("copy", 50 if q else 1500), ("mix", 50 if q else 1500), ("process", 4 if q else 60), ("ctor", 30 if q else 800), ("threads", 40 if q else 700)]


def pick_env(ctx, k=0):
    """(factory, is_easy)"""
    rng = ctx.rng
    if rng.random() < 0.4:
        from gym_anm.envs import ANM6Easy

        return (lambda: ANM6Easy()), True
    cls, args, _ = se.build(ctx.seed + 10 * k, ctx.idx * 10 + k + (100000 if ctx.kind == "mix" else 0))
    return (lambda: cls(*args)), False


def global_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate())


def history(rng, env, easy):
    """Episodes started in every way there is."""
    for _ in range(int(rng.integers(1, 4))):
        kw = {}
        if rng.random() < 0.4:
            kw["seed"] = gen.seed(rng)
        u = rng.random()
        if easy and u < 0.5:
            kw["options"] = {"date_init": datetime.datetime(2020, 1, 1) + datetime.timedelta(minutes=15 * int(rng.integers(0, 70000)))}
        elif u < 0.7:
            kw["options"] = {}
        env.reset(**kw)
        for a in se.actions(rng, env, int(rng.integers(0, 4))):
            env.step(a)


def same_trace(ctx, a, b, mech, msg, **info):
    ctx.count("traces_compared")
    ctx.evaluated()
    if len(a) != len(b):
        return ctx.check(False, mech, "%s: %d and %d records" % (msg, len(a), len(b)), **info)
    for k, (x, y) in enumerate(zip(a, b)):
        if repr(x) != repr(y):
            names = ["observation", "state", "e_loss", "penalty", "timestep", "date", "year_count", "reward", "terminated", "truncated"]
            diff = [n for n, u, v in zip(names, x, y) if repr(u) != repr(v)]
            vals = [(u if not isinstance(u, bytes) else np.frombuffer(u), v if not isinstance(v, bytes) else np.frombuffer(v)) for u, v in zip(x, y) if repr(u) != repr(v)]
            return ctx.check(False, mech, "%s: record %d (0 = reset) differs in %s: %s" % (msg, k, diff, vals), **info)
    ctx.check(True, mech)
    ctx.nontrivial(mech, se.digest(a))
    return True


def run(ctx, kind):
    rng = ctx.rng
    if kind == "process":
        return process_case(ctx)
    if kind == "ctor":
        return ctor_case(ctx)
    if kind == "threads":
        return threads_case(ctx)
    make, easy = pick_env(ctx)
    env = make()
    n = int(rng.integers(2, 10))
    seed = gen.seed(rng)
    acts = se.actions(rng, env, n)
    opts = {"date_init": datetime.datetime(2021, 3, 4)} if easy and rng.random() < 0.3 else None
    g0 = global_state()
    info = {"env": "ANM6Easy" if easy else "random network", "seed": seed, "steps": n}
    t0 = se.trace(env, seed, acts, opts)
    ctx.check(global_state() == g0, "global-rng", "running an environment changed the global random state", **info)
    if ctx.idx == 0:
        ctx.sample({"kind": kind, **info, "digest": se.digest(t0)})

    if kind == "same":
        np.random.seed(int(rng.integers(1 << 30)))
        random.seed(int(rng.integers(1 << 30)))
        same_trace(ctx, t0, se.trace(env, seed, acts, opts), "re-reset", "same environment reset again with the same seed", **info)
        # With a history and an unseeded reset in between.
        history(rng, env, easy)
        same_trace(ctx, t0, se.trace(env, seed, acts, opts), "re-reset-history", "reset with the same seed after other episodes", **info)
        np.random.seed(int(rng.integers(1 << 30)))
        env2 = make()
        if rng.random() < 0.5:
            history(rng, env2, easy)
        same_trace(ctx, t0, se.trace(env2, seed, acts, opts), "other-instance", "another instance with the same seed", **info)
        # Unseeded resets after a seeded one are reproducible too.
        a1, a2 = make(), make()
        x, y = se.trace(a1, seed, acts, opts), se.trace(a2, seed, acts, opts)
        np.random.seed(int(rng.integers(1 << 30)))
        u = [se.record(a1, a1.reset())]
        np.random.seed(int(rng.integers(1 << 30)))
        v = [se.record(a2, a2.reset())]
        same_trace(ctx, x + u, y + v, "unseeded-after-seeded", "unseeded reset following a seeded episode", **info)
        # Another seed gives another episode.
        t1 = se.trace(env, seed + 1, acts, opts)
        ctx.count("seeds_differ", t1 != t0)
        if easy or env.K > 0:  # otherwise there may be nothing random
            ctx.check(t1 != t0, "seed-ignored", "two seeds give the same trace", **info)
    elif kind == "copy":
        k = int(rng.integers(0, n + 1))
        env.reset(seed=seed, options=opts)
        head = []
        for a in acts[:k]:
            head.append(se.record(env, env.step(a)))
        clone = copy.deepcopy(env)
        ctx.count("deepcopies")
        tail = acts[k:] + se.actions(rng, env, 2)
        order = gen.pick(rng, ["clone-first", "orig-first", "alternate"])
        A, B = [], []
        if order == "clone-first":
            B = [se.record(clone, clone.step(a)) for a in tail]
            A = [se.record(env, env.step(a)) for a in tail]
        elif order == "orig-first":
            A = [se.record(env, env.step(a)) for a in tail]
            B = [se.record(clone, clone.step(a)) for a in tail]
        else:
            for a in tail:
                A.append(se.record(env, env.step(a)))
                B.append(se.record(clone, clone.step(a)))
        same_trace(ctx, A, B, "deepcopy", "deep copy made after %d steps (%s)" % (k, order), **info)
        same_trace(ctx, t0[1:], head + A[: n - k], "deepcopy-original", "the original after being copied", **info)
        same_trace(ctx, [se.record(env, env.reset())], [se.record(clone, clone.reset())], "deepcopy-reset", "unseeded reset of original and copy", **info)
    else:
        # Interleave with other environments (reset, step, build, collapse).
        others = []
        for j in range(int(rng.integers(1, 3))):
            mk, _ = pick_env(ctx, 1 + j)
            o = make() if rng.random() < 0.5 else mk()
            o.reset(seed=int(rng.integers(1 << 30)))
            others.append(o)
        ctx.count("interleavings")

        def disturb():
            for o in others:
                u = rng.random()
                if u < 0.06 and hasattr(o, "P_loads"):
                    # a user changes the profiles of another environment
                    o.P_loads *= 0.5
                    o.P_maxs += 1.0
                    ctx.count("profiles_changed")
                elif u < 0.15:
                    o.reset(seed=int(rng.integers(1 << 30)))
                elif u < 0.8:
                    o.step(work.sample_action(rng, o.action_space))
                else:
                    make()
            if rng.random() < 0.3:
                np.random.seed(int(rng.integers(1 << 30)))
                random.seed(int(rng.integers(1 << 30)))

        env2 = make()
        disturb()
        t = [se.record(env2, env2.reset(seed=seed, options=opts))]
        for a in acts:
            disturb()
            t.append(se.record(env2, env2.step(a)))
        same_trace(ctx, t0, t, "interleaved", "the same episode interleaved with %d other environments" % len(others), **info)


def threads_case(ctx):
    """Several environments, each in its own thread."""
    rng = ctx.rng
    jobs = []
    first = None
    for j in range(int(rng.integers(2, 4))):
        mk = first if first is not None and rng.random() < 0.4 else pick_env(ctx, j)[0]
        first = first or mk
        env, seed = mk(), gen.seed(rng)
        acts = se.actions(rng, env, int(rng.integers(4, 9)))
        jobs.append((mk, seed, acts, se.trace(env, seed, acts)))
    got, errors, order = [None] * len(jobs), [], []
    barrier = threading.Barrier(len(jobs))

    def work_on(j):
        mk, seed, acts, _ = jobs[j]
        try:
            barrier.wait(30)
            env = mk()
            out = [se.record(env, env.reset(seed=seed))]
            for a in acts:
                order.append(j)
                out.append(se.record(env, env.step(a)))
            got[j] = out
        except Exception as e:
            errors.append(e)

    g0 = global_state()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work_on, args=(j,), daemon=True) for j in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    info = {"seeds": [j[1] for j in jobs]}
    ctx.check(global_state() == g0, "global-rng", "running environments in threads changed the global random state", **info)
    ctx.count("threads", len(jobs))
    ctx.count("thread_switches", sum(a != b for a, b in zip(order, order[1:])))
    for j in range(len(jobs)):
        same_trace(ctx, jobs[j][3], got[j], "threads", "the same episode in one of %d concurrent threads" % len(jobs), thread=j, **info)


def ctor_case(ctx):
    """The seed given to the constructor seeds the first (unseeded) reset."""
    rng = ctx.rng
    cls, args, _ = se.build(ctx.seed, 5000 + ctx.idx)
    seed = gen.seed(rng)
    np.random.seed(int(rng.integers(1 << 30)))
    a, b, c = cls(*args, seed=seed), cls(*args, seed=seed), cls(*args, seed=seed + 1)
    info = {"seed": seed}
    ctx.count("constructor_seeds")
    x, y, z = ([se.record(e, e.reset())] for e in (a, b, c))
    acts = se.actions(rng, a, 3)
    for act in acts:
        x.append(se.record(a, a.step(act)))
        y.append(se.record(b, b.step(act)))
    same_trace(ctx, x, y, "constructor-seed", "two environments built with the same seed", **info)
    if a.K > 0:
        ctx.check(x[0] != z[0], "constructor-seed-ignored", "environments built with different seeds start identically", **info)
    from gym_anm.envs.anm6_env.anm6 import ANM6

    class Small(ANM6):
        def init_state(self):
            s = np.zeros(17)
            s[14] = self.np_random.uniform(0, 100)
            return s

        def next_vars(self, s_t):
            return np.zeros(5)

    e1, e2 = Small("state", 0, 0.5, 0.9, 10, seed=seed), Small("state", 0, 0.5, 0.9, 10, seed=seed)
    u, v = [se.record(e1, e1.reset())], [se.record(e2, e2.reset())]
    same_trace(ctx, u, v, "constructor-seed-anm6", "two ANM6 environments built with the same seed", **info)


def process_case(ctx):
    rng = ctx.rng
    specs = []
    for j in range(4):
        which = "easy" if (ctx.idx + j) % 2 else "net"
        specs.append("%s:%d:%d:%d" % (which, ctx.seed, int(rng.integers(1 << 20)), int(rng.integers(3, 12))))
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(int(rng.integers(1, 1 << 30)))
    env["VERIF_REPO"] = core.REPO
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "vmon.seeded_env"] + specs, cwd=core.HERE, env=env, capture_output=True, text=True, timeout=120)
    if p.returncode != 0 and os.sep + "gym_anm" + os.sep in p.stderr:
        return ctx.fail("exception-in-process", p.stderr[-1500:], specs=specs)
    if p.returncode != 0:
        raise HarnessError("subprocess failed: %s" % p.stderr[-1500:])
    got = dict(line.rsplit(" ", 1) for line in p.stdout.splitlines() if ":" in line)
    for s in specs:
        which, sd, idx, n = s.split(":")
        here = se.digest(se.case_trace(which, int(sd), int(idx), int(n)))
        ctx.count("processes")
        ctx.count("traces_compared")
        ctx.evaluated()
        ctx.check(got.get(s) == here, "other-process", "the same seed and actions give another trace in another process (%s)" % s, spec=s)
        ctx.nontrivial("process", here)
