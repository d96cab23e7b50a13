"""C21: the MPC action is the first stage of an optimal plan."""
import copy

import numpy as np

from props.c20 import agent_class, constant_forecast, mpc_network, user_forecast, easy_net
from vmon import envs, gen, opf, ref, work

RULE = (
    "one agent (or two in turn) acts along an episode on random networks (tight ratings, lossy storage, several stages, changing "
    "forecasts, agents built from another copy of the environment, safety margins, discounts, lambda) and on ANM6Easy; an independent LP (HiGHS) computes the optimal cost, "
    "and the best cost of a plan whose first stage is the returned action: both must agree; non-trivial = distinct "
    "(network, parameters, state) whose optimum depends on the action (storage, curtailment or congestion)"
)
ASSUMPTIONS = [
    "networks with an inductive part in every branch; HiGHS is trusted",
    "charging and discharging a unit in the same stage (which only wastes energy) is allowed, as in the stated problem",
    "cost tolerance 1e-5 x device scale x (1 + lambda)",
]
MIN = {"pairs": 25, "built_elsewhere": 25, "default_margin": 15, "default_horizon": 10, "optimality": 350, "congested": 60, "storage_used": 80, "curtailed": 60, "multi_stage": 120, "distinct_nontrivial": 250}
CASE_CPU_S = {"thorough": 400}
QUICK_X = 2


def plan(tier):
    q = tier == "quick"
    return [("random", 90 if q else 1500), ("storage", 50 if q else 900), ("easy", 14 if q else 200), ("pair", 20 if q else 250)]


def decide(ctx, net, pl, PL, PG, soc, a, best, info, key):
    P, _ = work.split_action(net, a)
    first = {i: p / net.base for i, p in P.items()}
    sc = gen.scale_of(net)
    band = 3e-6 * max(1.0, sc)
    got = pl.solve(PL, PG, soc, first, band)
    ctx.count("optimality")
    ctx.evaluated()
    if not ctx.check(got is not None, "first-stage-infeasible", "no feasible plan starts with the returned action %r" % first, **info):
        return
    tol = 1e-5 * sc * (1 + pl.lamb) + 1e-7 * (1 + abs(best[0]))
    gap = got[0] - best[0]
    ctx.track("largest gap / tolerance", gap / tol)
    ctx.check(gap <= tol, "suboptimal", "best plan costs %.9g, best plan starting with the returned action costs %.9g (tolerance %.2g)" % (best[0], got[0], tol), first=first, best_first=best[1], **info)
    used = any(abs(first[i]) > 1e-5 * sc for i in net.des)
    cur = any(first[i] < min(net.devs[i].pmax, PG[k, 0]) - 1e-4 * sc for k, i in enumerate(net.gens) if net.devs[i].typ == 2)
    gens = sum(best[1][i] for i in net.ids if net.devs[i].typ in (0, 1))
    cong = pl.lamb > 0 and best[0] - gens > 10 * tol and pl.N == 1
    ctx.count("storage_used", used)
    ctx.count("curtailed", cur)
    ctx.count("congested", cong or (pl.lamb > 0 and cur))
    ctx.count("multi_stage", pl.N > 1)
    if used or cur or cong:
        ctx.nontrivial(*key)


def episode(ctx, network, N, steps, kind="user"):
    rng = ctx.rng
    r = envs.Run(ctx, network, calm=True, lamb=gen.pick(rng, [0, 0.3, 1, 5.0, 100, 1000]), dt=float(gen.pick(rng, [0.25, 0.5, 1.0, 2.0])))
    n = r.net
    r.reset(init=r.good_init())
    margin = gen.pick(rng, [0.0, 0.4, 0.9, 0.96, 1.0])
    gamma = gen.pick(rng, [0.0, 0.5, 0.9, 0.99, 1.0])
    # Sometimes the documented defaults (margin 0.9, one stage) are left to the constructor.
    kw = {"safety_margin": margin, "planning_steps": N}
    if rng.random() < 0.35:
        margin = 0.9
        del kw["safety_margin"]
        ctx.count("default_margin")
    if rng.random() < 0.2 or N == 1 and rng.random() < 0.5:
        N = 1
        del kw["planning_steps"]
        ctx.count("default_horizon")
    # An agent may be built from one copy of the environment and act in another.
    other = rng.random() < 0.3
    ctx.count("built_elsewhere", other)
    made = copy.deepcopy(r.env) if other else r.env
    agent = agent_class(kind)(made.simulator, made.action_space, gamma, **kw)
    yield
    pl = opf.Plan(n, r.dt, r.lamb, gamma, margin, N)
    for t in range(steps):
        if r.env.terminated:
            break
        st = r.env.simulator.state
        soc = dict(st["des_soc"]["pu"])
        if kind == "user":
            PL, PG = user_forecast(rng, r, N)
            agent.user_forecast = (PL.copy(), PG.copy())
        else:
            PL, PG = constant_forecast(n, st, N)
        best = pl.solve(PL, PG, soc)
        if best is None:
            ctx.count("infeasible_states")
            r.step()
            continue
        info = dict(r.info(), horizon=N, margin=margin, agent_gamma=gamma, P_load=PL, P_gen=PG, soc=soc, t=t)
        a = agent.act(r.env)
        decide(ctx, n, pl, PL, PG, soc, a, best, info, (work.net_key(n), N, margin, gamma, r.lamb, t))
        # The next state is often one in which the same agent has to re-plan.
        r.step(a if rng.random() < 0.4 else None)
        yield
    if ctx.idx == 0:
        ctx.sample({"horizon": N, "margin": margin, "gamma": gamma, "best": best})


def run(ctx, kind):
    rng = ctx.rng
    if kind == "pair":
        # Two agents, in two environments or with two sets of parameters, act in turn.
        nets = [mpc_network(rng, stress=0.6, n_bus=int(rng.integers(2, 6)), n_des=1) for _ in range(2)]
        if rng.random() < 0.5:
            nets[1] = copy.deepcopy(nets[0])
        runs = [episode(ctx, n, int(rng.integers(1, 4)), 3) for n in nets]
        while runs:
            for g in list(runs):
                if next(g, 0) == 0:
                    runs.remove(g)
        ctx.count("pairs")
    elif kind == "random":
        network = mpc_network(rng, stress=float(gen.pick(rng, [0.4, 0.8])), n_rer=int(rng.integers(0, 3)), n_load=int(rng.integers(0, 4)))
        for _ in episode(ctx, network, int(gen.pick(rng, [1, 1, 2, 3, 5])), 4, gen.pick(rng, ["user", "user", "constant"])):
            pass
    elif kind == "storage":
        network = gen.network(rng, n_bus=int(rng.integers(2, 6)), shifts=gen.pick(rng, [False, False, "groups"]), rates="tight", stress=0.8, n_des=int(rng.integers(1, 3)), n_rer=int(rng.integers(1, 3)), n_load=int(rng.integers(1, 4)), n_gen=int(rng.integers(0, 2)))
        for row in network["branch"]:
            if not row[3]:
                row[3] = 0.05
        for _ in episode(ctx, network, int(gen.pick(rng, [2, 3, 4, 6])), 4):
            pass
    else:
        easy(ctx)


def easy(ctx):
    from gym_anm.envs import ANM6Easy

    rng = ctx.rng
    env, net = ANM6Easy(), easy_net()
    seed = int(rng.integers(1 << 30))
    env.reset(seed=seed)
    kind = ["constant", "perfect"][ctx.idx % 2]
    N = int(gen.pick(rng, [1, 3, 6]))
    margin = float(gen.pick(rng, [0.5, 0.8, 0.96]))
    kw = {"safety_margin": margin, "planning_steps": N}
    if ctx.idx % 4 == 3:
        margin, N = 0.9, 1
        kw = {}
    agent = agent_class(kind)(env.simulator, env.action_space, env.gamma, **kw)
    pl = opf.Plan(net, env.delta_t, env.simulator.lamb, env.gamma, margin, N)
    for t in range(4):
        st = env.simulator.state
        PL, PG = (np.asarray(x, dtype=float) for x in agent.forecast(env))
        soc = dict(st["des_soc"]["pu"])
        best = pl.solve(PL, PG, soc)
        info = {"env": "ANM6Easy", "seed": seed, "t": t, "horizon": N, "margin": margin, "P_load": PL, "P_gen": PG, "soc": soc}
        if best is None:
            ctx.count("infeasible_states")
        else:
            a = agent.act(env)
            decide(ctx, net, pl, PL, PG, soc, a, best, info, ("easy", N, kind, margin, int(env.state[-1]), t))
        _, _, done, _, _ = env.step(work.sample_action(rng, env.action_space))
        if done:
            env.reset(seed=seed + 1 + t)
