"""C22: MPC forecasts have the promised content."""
import copy

import numpy as np

from props.c18 import fingerprint
from props.c20 import agent_class, easy_net
from vmon import envs, gen, ref, work

RULE = (
    "constant forecasts on random networks along episodes (loads and potentials known to the harness because it scripted "
    "the internal variables) and on ANM6Easy; perfect forecasts on ANM6Easy from many starting slots, over horizons of 1 "
    "to 300 steps (across midnight, several days), compared stage by stage with what a copy of the environment then "
    "realises; non-trivial = distinct (environment, slot, horizon)"
)
ASSUMPTIONS = ["forecasts are compared after clipping to the device's limits, as the environment does with potentials and demands"]
MIN = {"constant_forecasts": 250, "perfect_forecasts": 90, "stages": 1500, "across_midnight": 30, "multi_day": 12, "distinct_nontrivial": 300, "after_reset": 30}
CASE_CPU_S = {"thorough": 400}


def plan(tier):
    q = tier == "quick"
    return [("constant", 90 if q else 2000), ("perfect", 60 if q else 800), ("easyconst", 20 if q else 300)]


def run(ctx, kind):
    {"constant": constant_case, "perfect": perfect_case, "easyconst": easyconst_case}[kind](ctx)


def clip(net, ids, rows):
    lo = np.array([net.devs[i].pmin for i in ids]).reshape(-1, 1)
    hi = np.array([net.devs[i].pmax for i in ids]).reshape(-1, 1)
    return np.minimum(np.maximum(rows, lo), hi)


def expect(ctx, net, got, PL, PG, mech, info, tol=1e-9):
    if not ctx.check(isinstance(got, tuple) and len(got) == 2, mech + "-type", "forecast() returned %r" % type(got), **info):
        return
    # With no device there is nothing to forecast, whatever the array's shape.
    if net.loads:
        ctx.close(got[0], PL, tol * (1 + np.max(np.abs(PL))), mech + "-loads", "load forecast", **info)
    if net.gens:
        ctx.close(got[1], PG, tol * (1 + np.max(np.abs(PG))), mech + "-gens", "generation forecast", **info)


def constant_case(ctx):
    rng = ctx.rng
    network = gen.network(rng, stress=0.4)
    r = envs.Run(ctx, network)
    n = r.net
    N = int(rng.integers(1, 9))
    agent = None
    r.reset(init=r.good_init())
    agent = agent_class("constant")(r.env.simulator, r.env.action_space, 0.9, planning_steps=N)

    def known(p_load, p_pot):
        PL = clip(n, n.loads, np.array([p_load[i] / n.base for i in n.loads]).reshape(-1, 1)) if n.loads else np.zeros((0, 1))
        PG = clip(n, n.gens, np.array([p_pot[i] / n.base for i in n.gens]).reshape(-1, 1)) if n.gens else np.zeros((0, 1))
        return np.repeat(PL, N, axis=1), np.repeat(PG, N, axis=1)

    for t in range(5):
        if t == 0 or (t == 3 and rng.random() < 0.5):
            if t:
                r.reset(init=r.good_init())
                ctx.count("after_reset")
            s = r.last_init
            nd, ns = len(n.ids), len(n.des)
            p_load = {i: s[n.ids.index(i)] for i in n.loads}
            p_pot = dict(zip(n.gens, s[2 * nd + ns : 2 * nd + ns + len(n.gens)]))
        else:
            r.step()
            if r.env.terminated:
                break
            p_load, p_pot, _, _ = r.request()
        info = dict(r.info(), horizon=N, t=t)
        before = fingerprint(r.env)
        got = agent.forecast(r.env)
        ctx.count("constant_forecasts")
        ctx.evaluated()
        ctx.count("stages", N)
        expect(ctx, n, got, *known(p_load, p_pot), "constant", info)
        ctx.check(fingerprint(r.env) == before, "forecast-changes-env", "", **info)
        ctx.nontrivial(work.net_key(n), N, t)
    if ctx.idx == 0:
        ctx.sample({"horizon": N, "forecast": got})


def series(env):
    return [np.asarray(getattr(env, k, 0.0)).tobytes() for k in ("P_loads", "P_maxs")]


def realised(env, net, N):
    """What the environment realises over its next N steps (on a copy)."""
    twin = copy.deepcopy(env)
    a = np.clip(np.zeros(env.action_space.shape), env.action_space.low, env.action_space.high)
    L, G = [], []
    for _ in range(N):
        twin.step(a)
        if twin.terminated:
            break
        st = twin.simulator.state
        L.append([st["dev_p"]["pu"][i] for i in net.loads])
        G.append([st["gen_p_max"]["pu"][i] for i in net.gens])
    return np.array(L).reshape(-1, len(net.loads)).T, np.array(G).reshape(-1, len(net.gens)).T


def perfect_case(ctx):
    from gym_anm.envs import ANM6Easy

    rng = ctx.rng
    env, net = ANM6Easy(), easy_net()
    seed = int(rng.integers(1 << 30))
    env.reset(seed=seed)
    N = int(gen.pick(rng, [1, 2, 5, 24, 95, 96, 97, 110, 193, 300]))
    agent = agent_class("perfect")(env.simulator, env.action_space, env.gamma, planning_steps=N)
    twice = None
    for t in range(3):
        if t == 2 and rng.random() < 0.6:
            env.reset(seed=seed + 1)
            ctx.count("after_reset")
        else:
            # Move towards midnight more often than not.
            k = int(rng.integers(0, 8))
            left = 95 - int(env.state[-1])
            if rng.random() < 0.4 and left < 40:
                k = left + int(rng.integers(0, 2))
            for _ in range(k):
                env.step(np.clip(np.zeros(env.action_space.shape), env.action_space.low, env.action_space.high))
            if env.terminated:
                env.reset(seed=seed + 2)
        slot = int(env.state[-1])
        info = {"env": "ANM6Easy", "seed": seed, "t": t, "slot": slot, "horizon": N}
        before = fingerprint(env)
        tables = series(env)
        got = agent.forecast(env)
        ctx.check(fingerprint(env) == before and tables == series(env), "forecast-changes-env", "", **info)
        ctx.count("perfect_forecasts")
        ctx.evaluated()
        L, G = realised(env, net, N)
        n = L.shape[1]
        ctx.count("stages", n)
        ctx.count("across_midnight", slot + n > 95)
        ctx.count("multi_day", slot + n > 192)
        PL, PG = (np.asarray(x, dtype=float) for x in got)
        if not ctx.check(PL.shape == (len(net.loads), N) and PG.shape == (len(net.gens), N), "perfect-shape", "%s, %s" % (PL.shape, PG.shape), **info):
            return
        expect(ctx, net, (clip(net, net.loads, PL[:, :n]), clip(net, net.gens, PG[:, :n])), L, G, "perfect", info)
        ctx.nontrivial("perfect", slot, N)


def easyconst_case(ctx):
    from gym_anm.envs import ANM6Easy

    rng = ctx.rng
    env, net = ANM6Easy(), easy_net()
    seed = int(rng.integers(1 << 30))
    env.reset(seed=seed)
    N = int(rng.integers(1, 9))
    agent = agent_class("constant")(env.simulator, env.action_space, env.gamma, planning_steps=N)
    for t in range(4):
        # dev_p and gen_p_max as observed in the state vector (MW).
        s = np.asarray(env.state, dtype=float) / net.base
        nd = len(net.ids)
        PL = np.repeat(s[[net.ids.index(i) for i in net.loads]].reshape(-1, 1), N, axis=1)
        PG = np.repeat(s[2 * nd + len(net.des) : 2 * nd + len(net.des) + len(net.gens)].reshape(-1, 1), N, axis=1)
        info = {"env": "ANM6Easy", "seed": seed, "t": t, "horizon": N}
        expect(ctx, net, agent.forecast(env), PL, PG, "constant", info)
        ctx.count("constant_forecasts")
        ctx.evaluated()
        ctx.nontrivial("easyconst", int(env.state[-1]), N)
        env.step(work.sample_action(rng, env.action_space))
        if env.terminated:
            env.reset(seed=seed + t + 1)
