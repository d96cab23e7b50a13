"""C20: the MPC agent returns a valid action and only observes the environment."""
import copy

import numpy as np

from props.c18 import fingerprint
from vmon import envs, gen, opf, ref, seeded_env as se, work

RULE = (
    "random networks (any IDs, 0-4 loads, 0-3 generators, 0-3 storage units, with or without limits and ratings, devices "
    "at the slack bus), horizons 1-6, safety margins 0-1, constant and user-given forecasts, episodes of several states, "
    "and ANM6Easy with both agents; states whose DC problem is infeasible (by an independent LP solver) are skipped; the "
    "action is checked and the whole environment fingerprinted before and after; non-trivial = distinct (network, "
    "horizon, state)"
)
ASSUMPTIONS = [
    "networks with an inductive part in every branch (the DC approximation is not defined otherwise)",
    "feasibility is decided by HiGHS on an independently built LP",
    "solver tolerance: limits may be exceeded by 1e-5 p.u. of the device scale",
]
MIN = {"built_elsewhere": 20, "acts": 350, "zero_loads": 8, "zero_gens": 8, "zero_des": 8, "unlimited": 20, "easy_acts": 60, "empty_actions": 2, "with_des": 100, "stochastic_acts": 40, "distinct_nontrivial": 300, "des_at_limit": 10}
CASE_CPU_S = {"thorough": 400}
QUICK_X = 2


def plan(tier):
    q = tier == "quick"
    return [("random", 110 if q else 1800), ("zero", 50 if q else 700), ("easy", 20 if q else 260), ("long", 6 if q else 80), ("stochastic", 24 if q else 300)]


def agent_class(kind):
    from gym_anm.agents import MPCAgentConstant, MPCAgentPerfect
    from gym_anm.agents.mpc import MPCAgent

    if kind == "user":

        class UserAgent(MPCAgent):
            def forecast(self, env):
                return self.user_forecast

        return UserAgent
    return {"constant": MPCAgentConstant, "perfect": MPCAgentPerfect}[kind]


def mpc_network(rng, **kw):
    """A random network on which the DC problem is defined."""
    network = gen.network(rng, shifts=gen.pick(rng, [False, False, True, "groups"]), rates=gen.pick(rng, [None, None, "tight", "none"]), **kw)
    br = network["branch"]
    for row in br:
        if not row[3]:
            row[3] = gen.r6(rng.uniform(0.3, 1.0) * (row[2] or 0.1))
    return network


def user_forecast(rng, r, N):
    """Forecasts a user could provide: (loads, gens), p.u., within limits."""
    n = r.net
    Fs = [work.split_vars(n, r.random_vars()) for _ in range(N)]

    def rows(ids, k):
        return np.array([[min(max(F[k][i] / n.base, n.devs[i].pmin), n.devs[i].pmax) for F in Fs] for i in ids], dtype=float).reshape(len(ids), N)

    return rows(n.loads, 0), rows(n.gens, 1)


def constant_forecast(net, state, N):
    PL = np.array([[state["dev_p"]["pu"][i]] * N for i in net.loads], dtype=float).reshape(len(net.loads), N)
    PG = np.array([[state["gen_p_max"]["pu"][i]] * N for i in net.gens], dtype=float).reshape(len(net.gens), N)
    return PL, PG


def run(ctx, kind):
    {"random": random_case, "zero": zero_case, "easy": easy_case, "long": long_case, "stochastic": stochastic_case}[kind](ctx)


def watch(ctx, env, agent, net, dt, P_gen, info, mech=""):
    """One monitored act(): validity of the action, purity of the call."""
    rng_before = np.random.get_state()
    before = fingerprint(env)
    a = agent.act(env)
    ctx.count("acts")
    ctx.evaluated()
    rng_after = np.random.get_state()
    ctx.check(fingerprint(env) == before, "act-changes-env", "act() changed the environment", **info)
    ctx.check(rng_before[0] == rng_after[0] and np.array_equal(rng_before[1], rng_after[1]) and rng_before[2:] == rng_after[2:], "act-changes-global-rng", "act() drew from the global random state", **info)
    a = np.asarray(a)
    ng, nd = len(net.gens), len(net.des)
    if not ctx.check(a.shape == (2 * (ng + nd),) and np.all(np.isfinite(a)), "action-shape-or-nan", "action %r" % (a,), **info):
        return None
    ctx.check(env.action_space.contains(a), "outside-action-space", "action %r not in %r" % (a, env.action_space), **info)
    P, Q = work.split_action(net, a)
    for i, q in Q.items():
        d = net.devs[i]
        lo, hi = d.qmin * net.base, d.qmax * net.base
        want = min(max(0.0, lo), hi)
        ctx.check(abs(q - want) <= 1e-9 * (1 + abs(want)), "reactive-power", "device %d: Q=%r requested instead of %r" % (i, q, want), **info)
    soc = env.simulator.state["des_soc"]["pu"]
    tol = 1e-5 * (1e-2 + gen.scale_of(net))
    for k, i in enumerate(net.gens):
        d = net.devs[i]
        p = P[i] / net.base
        ctx.check(d.pmin - tol <= p <= min(d.pmax, P_gen[k]) + tol, "generator-limit", "generator %d: P=%r, limits [%r, %r], potential %r (p.u.)" % (i, p, d.pmin, d.pmax, P_gen[k]), **info)
    for i in net.des:
        d = net.devs[i]
        p = P[i] / net.base
        hi = min(d.pmax, max(0.0, d.eff * (soc[i] - d.smin) / dt))
        ctx.check(d.pmin - tol <= p <= hi + tol, "storage-limit", "storage unit %d: P=%r, limits [%r, %r], available %r (p.u.), SoC %r" % (i, p, d.pmin, d.pmax, hi, soc[i]), **info)
        ctx.count("des_at_limit", p > 1e-6 and abs(p - d.eff * (soc[i] - d.smin) / dt) < tol)
        ctx.count("with_des")
    ctx.count("empty_actions", a.size == 0)
    return a


def episode(ctx, network, steps):
    rng = ctx.rng
    r = envs.Run(ctx, network, calm=True)
    n = r.net
    r.reset(init=r.good_init())
    kind = gen.pick(rng, ["constant", "constant", "user"])
    N = int(rng.integers(1, 7))
    margin = gen.pick(rng, [0.0, 0.5, 0.9, 1.0, None])
    gamma = gen.pick(rng, [0.0, 0.5, 0.99, 1.0, 1])
    kw = {} if margin is None else {"safety_margin": margin}
    # An agent may be built from one copy of the environment and act in another.
    other = rng.random() < 0.3
    ctx.count("built_elsewhere", other)
    made = copy.deepcopy(r.env) if other else r.env
    agent = agent_class(kind)(made.simulator, made.action_space, gamma, planning_steps=N, **kw)
    pl = opf.Plan(n, r.dt, r.lamb, gamma, 0.9 if margin is None else margin, N)
    for t in range(steps):
        if r.env.terminated:
            break
        st = r.env.simulator.state
        if kind == "user":
            PL, PG = user_forecast(rng, r, N)
            agent.user_forecast = given = (PL.copy(), PG.copy())
        else:
            PL, PG = constant_forecast(n, st, N)
        info = dict(r.info(), horizon=N, margin=margin, agent=kind, P_load=PL, P_gen=PG, soc=st["des_soc"]["pu"])
        if pl.solve(PL, PG, st["des_soc"]["pu"]) is None:
            ctx.count("infeasible_states")
            r.step()
            continue
        calls = len(r.calls)
        a = watch(ctx, r.env, agent, n, r.dt, PG[:, 0] if n.gens else [], info)
        if a is None:
            return
        ctx.check(len(r.calls) == calls, "act-calls-environment", "act() called %s of the environment" % [c[0] for c in r.calls[calls:]], **info)
        if kind == "user":
            ctx.check(np.array_equal(given[0], PL) and np.array_equal(given[1], PG), "act-changes-forecast", "act() changed the forecasts it was given", **info)
        ctx.nontrivial(work.net_key(n), N, kind, work.state_key(st))
        ctx.count("zero_loads", not n.loads)
        ctx.count("zero_gens", not n.gens)
        ctx.count("zero_des", not n.des)
        ctx.count("unlimited", any(b.rate == ref.INF for b in n.branches.values()) or any(d.pmax == ref.INF for d in n.devs.values() if d.typ > 0))
        if rng.random() < 0.7:
            r.step(a)
        else:
            r.step()
    if ctx.idx == 0:
        ctx.sample({"horizon": N, "agent": kind, "action": a})


def random_case(ctx):
    network = mpc_network(ctx.rng, stress=float(gen.pick(ctx.rng, [0.3, 0.6])))
    episode(ctx, network, 4)


def zero_case(ctx):
    rng = ctx.rng
    c = {"n_load": int(rng.integers(0, 3)), "n_gen": int(rng.integers(0, 2)), "n_rer": int(rng.integers(0, 2)), "n_des": int(rng.integers(0, 3))}
    for k in [["n_load"], ["n_gen", "n_rer"], ["n_des"], ["n_load", "n_des"], ["n_gen", "n_rer", "n_des"], ["n_load", "n_gen", "n_rer"], list(c)][ctx.idx % 7]:
        c[k] = 0
    network = mpc_network(rng, stress=0.3, p_none=float(gen.pick(rng, [0.0, 0.3, 0.9])), **c)
    episode(ctx, network, 2)


def easy_case(ctx):
    from gym_anm.envs import ANM6Easy

    rng = ctx.rng
    env = ANM6Easy()
    net = ref.Net(env.network) if hasattr(env, "network") else easy_net()
    seed = int(rng.integers(1 << 30))
    env.reset(seed=seed)
    kind = ["constant", "perfect"][ctx.idx % 2]
    N = int(gen.pick(rng, [1, 2, 4, 8, 16]))
    agent = agent_class(kind)(env.simulator, env.action_space, env.gamma, safety_margin=0.96, planning_steps=N)
    for t in range(6):
        if t and rng.random() < 0.2:
            env.reset(seed=seed + t)
        info = {"env": "ANM6Easy", "seed": seed, "t": t, "horizon": N, "agent": kind}
        twin_next = potentials(env, net) if kind == "perfect" else [env.simulator.state["gen_p_max"]["pu"][i] for i in net.gens]
        twin = copy.deepcopy(env)
        a = watch(ctx, env, agent, net, env.delta_t, twin_next, info)
        if a is None:
            return
        ctx.count("easy_acts")
        # What an environment does later does not depend on an agent having looked at it.
        later = copy.deepcopy(env)
        for _ in range(3):
            b = work.sample_action(rng, env.action_space)
            x, y = se.record(twin, twin.step(b.copy())), se.record(later, later.step(b.copy()))
            if not ctx.check(repr(x) == repr(y), "act-changes-later-steps", "a step after act() gives %r, without act() %r" % (y[2:], x[2:]), **info):
                break
        ctx.nontrivial("easy", N, kind, int(env.state[-1]), tuple(np.round(env.state, 3)))
        _, _, done, _, _ = env.step(a)
        if done:
            env.reset(seed=seed + 1000 + t)


def potentials(env, net):
    """The potential generation (p.u.) the environment will realise next."""
    twin = copy.deepcopy(env)
    twin.step(np.clip(np.zeros(env.action_space.shape), env.action_space.low, env.action_space.high))
    return [twin.simulator.state["gen_p_max"]["pu"][i] for i in net.gens]


def easy_net():
    from gym_anm.envs.anm6_env.network import network

    return ref.Net(network)


def stochastic_case(ctx):
    """Environments whose next variables are drawn from their own generator."""
    rng = ctx.rng
    network = mpc_network(rng, n_bus=int(rng.integers(2, 7)), stress=0.3)
    n = ref.Net(network)
    K = int(rng.integers(0, 3))
    dt = float(gen.pick(rng, [0.25, 1.0]))
    env = se.make_class(network, K)(network, "state", K, dt, 0.9, 100)
    seed = int(rng.integers(1 << 30))
    env.reset(seed=seed)
    N = int(rng.integers(1, 4))
    agent = agent_class("constant")(env.simulator, env.action_space, 0.9, safety_margin=0.9, planning_steps=N)
    pl = opf.Plan(n, dt, 100, 0.9, 0.9, N)
    for t in range(4):
        if env.terminated:
            break
        st = env.simulator.state
        PL, PG = constant_forecast(n, st, N)
        info = {"network": gen.describe(network), "env": "seeded", "seed": seed, "t": t, "horizon": N}
        twin = copy.deepcopy(env)
        if pl.solve(PL, PG, st["des_soc"]["pu"]) is not None:
            if watch(ctx, env, agent, n, dt, PG[:, 0] if n.gens else [], info) is None:
                return
            ctx.count("stochastic_acts")
            ctx.nontrivial("stochastic", work.net_key(n), N, work.state_key(st))
        b = work.sample_action(rng, env.action_space)
        x, y = se.record(twin, twin.step(b.copy())), se.record(env, env.step(b.copy()))
        ctx.check(repr(x) == repr(y), "act-changes-later-steps", "a step after act() gives %r, without act() %r" % (y[2:], x[2:]), **info)


def long_case(ctx):
    """MPC runs an environment for many steps with one agent."""
    rng = ctx.rng
    network = mpc_network(rng, n_bus=int(rng.integers(2, 6)), stress=0.3, n_des=int(rng.integers(1, 3)))
    episode(ctx, network, 15 if ctx.tier == "quick" else 60)
