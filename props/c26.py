"""C26: results do not depend on the base power or on spelling out defaults."""
import math

import numpy as np

from props.c25 import near, well_posed
from vmon import envs, gen, ref, twin, work
from vmon.core import Skip

RULE = (
    "random networks and twins expressing the same physical network with another baseMVA (impedances converted), or "
    "spelling out a random subset of the omitted optional values, driven in lockstep; physical states, bounds, spaces, "
    "energy losses and observations compared; non-trivial = distinct (network, factor or set of spelled-out values)"
)
ASSUMPTIONS = [
    "power-flow solutions agree up to the accuracy implied by their residuals (the solver's tolerance is in p.u.)",
    "the penalty is defined in p.u. and therefore compared after conversion",
]
MIN = {"base_transitions": 500, "default_transitions": 500, "values_spelled_out": 600, "env_steps": 200, "distinct_nontrivial": 250, "bounds": 5000}
NO_PU = ("bus_p", "bus_q", "dev_p", "dev_q", "des_soc", "gen_p_max", "branch_p", "branch_q", "branch_s", "bus_i_magn", "branch_i_magn")
QUICK_X = 3


def plan(tier):
    q = tier == "quick"
    return [("base", 130 if q else 3000), ("defaults", 130 if q else 3000), ("env", 70 if q else 1500)]


def run(ctx, kind):
    {"base": base_case, "defaults": defaults_case, "env": env_case}[kind](ctx)


def accuracy(net1, st1, net2, st2):
    t1, s1, _ = twin.accuracy(net1, st1)
    t2, s2, _ = twin.accuracy(net2, st2)
    return t1 + t2, min(s1, s2)


def base_case(ctx):
    rng = ctx.rng
    network = gen.network(rng, stress=float(gen.pick(rng, [0.2, 0.4, 0.8])))
    other, f = twin.rebase(rng, network)
    a = work.Episode(ctx, network, reset=False)
    b = work.Episode(ctx, other, a.dt, a.lamb, reset=False)
    n1, n2 = a.net, b.net
    m = twin.identity(n1)
    init = gen.init_state(rng, n1)
    ea, eb = a.reset(init), b.reset(init)
    ctx.nontrivial("base", work.net_key(n1), f)
    info0 = dict(twin=gen.describe(other), factor=f)
    spaces(ctx, a, b, "base", info0)
    bounds(ctx, a, b, "base", ("pu",), info0)
    for t in range(5):
        if t:
            req = gen.request(rng, n1)
            ea, eb = a.step(req), b.step(req)
        info = dict(a.info(ea), **info0)
        ctx.count("base_transitions")
        ctx.evaluated()
        for q, u in (("dev_p", "MW"), ("dev_q", "MVAr"), ("des_soc", "MWh"), ("gen_p_max", "MW")):
            for i, v in ea.state[q][u].items():
                if i != n1.slack_dev:
                    ctx.close(v, eb.state[q][u][i], 1e-8 * (n1.base + n2.base + abs(v)), "base-" + q, "%s (%s) of device %s" % (q, u, i), **info)
        if not (well_posed(n1, ea.state) and well_posed(n2, eb.state)):
            ctx.count("not_well_posed")
            if ea.conv != eb.conv:
                return
            continue
        ctx.check(bool(ea.conv) == bool(eb.conv), "base-convergence", "converged: %s and %s" % (ea.conv, eb.conv), **info)
        if not (ea.conv and eb.conv):
            continue
        acc, sig = accuracy(n1, ea.state, n2, eb.state)
        if sig < 0.01 or acc > 5e-5:
            ctx.count("ill_conditioned")
            continue
        # Powers are compared in MW: the accuracy of the coarser base counts.
        acc *= max(1.0, f)
        twin.same_physics(ctx, n1, ea.state, n2, eb.state, m, acc, "base", info, skip_pu=NO_PU)
        if ea.kind == "step":
            ysum = 1 + sum(abs(br.ys) for br in n1.branches.values())
            tol = (acc * 4 * ysum + 1e-9) * a.dt * n1.base + 1e-9 * abs(ea.e_loss * n1.base)
            ctx.close(ea.e_loss * n1.base, eb.e_loss * n2.base, tol, "base-e_loss", "energy loss in MWh", **info)
            # Penalty: voltages in p.u., apparent powers in p.u. of each base.
            V1 = ref.volts(ea.state)
            vpart = sum(max(0.0, abs(V1[k]) - x.vmax) + max(0.0, x.vmin - abs(V1[k])) for k, x in n1.buses.items()) * a.dt * a.lamb
            s1, s2 = ea.penalty - vpart, eb.penalty - vpart
            tol = (acc * 4 * ysum + 1e-9) * a.dt * a.lamb * (len(n1.branches) + len(n1.buses)) * max(1.0, f) + 1e-9 * (abs(ea.penalty) + abs(vpart)) * max(1.0, f)
            ctx.close(s1, s2 * f, tol, "base-penalty", "overload part of the penalty (in p.u. of the first base)", **info)


def spaces(ctx, a, b, mech, info):
    sa, sb = a.sim.get_action_space(), b.sim.get_action_space()
    for k, (x, y) in enumerate(zip(sa, sb)):
        ok = set(x) == set(y) and all(near(tuple(map(float, x[i])), tuple(map(float, y[i]))) for i in x)
        ctx.check(ok, mech + "-action-space", "part %d: %s and %s" % (k, x, y), network=gen.describe(a.network), **info)


def bounds(ctx, a, b, mech, skip_units, info):
    keep_pu = ("bus_v_magn",)
    for q, per in a.sim.state_bounds.items():
        for k, units in per.items():
            for u, v in units.items():
                if u in skip_units and q not in keep_pu:
                    continue
                w = b.sim.state_bounds.get(q, {}).get(k, {}).get(u)
                ctx.count("bounds")
                ok = w is not None and near(tuple(float(z) for z in np.ravel(v)), tuple(float(z) for z in np.ravel(w)))
                ctx.check(ok, mech + "-bounds", "%s (%s) of %s: %s and %s" % (q, u, k, v, w), network=gen.describe(a.network), **info)


def defaults_case(ctx):
    rng = ctx.rng
    network = gen.network(rng, stress=float(gen.pick(rng, [0.3, 0.6, 1.0])), p_none=0.5)
    other, n = twin.spell_out(rng, network)
    if n == 0:
        raise Skip("nothing-omitted")
    ctx.count("values_spelled_out", n)
    a = work.Episode(ctx, network, reset=False)
    b = work.Episode(ctx, other, a.dt, a.lamb, reset=False)
    n1 = a.net
    init = gen.init_state(rng, n1)
    ea, eb = a.reset(init), b.reset(init)
    ctx.nontrivial("defaults", work.net_key(n1), n, str(gen.describe(other)))
    info0 = dict(twin=gen.describe(other))
    spaces(ctx, a, b, "defaults", info0)
    bounds(ctx, a, b, "defaults", (), info0)
    for t in range(5):
        if t:
            req = gen.request(rng, n1)
            ea, eb = a.step(req), b.step(req)
        info = dict(a.info(ea), **info0)
        ctx.count("default_transitions")
        ctx.evaluated()
        ctx.check(bool(ea.conv) == bool(eb.conv), "defaults-convergence", "converged: %s and %s" % (ea.conv, eb.conv), **info)
        if ea.conv and eb.conv:
            twin.same_physics(ctx, n1, ea.state, b.net, eb.state, twin.identity(n1), 1e-9, "defaults", info)
            if ea.kind == "step":
                ctx.close([ea.reward, ea.e_loss, ea.penalty], [eb.reward, eb.e_loss, eb.penalty], 1e-9 * (1 + abs(ea.penalty) + abs(ea.e_loss)), "defaults-reward", "reward", **info)


def env_case(ctx):
    """Environments: spaces, observations and rewards of spelled-out twins."""
    rng = ctx.rng
    network = gen.network(rng, stress=0.3, p_none=0.5)
    rebased = rng.random() < 0.5
    if rebased:
        other, f = twin.rebase(rng, network)
    else:
        other, f = twin.spell_out(rng, network)[0], 1.0
    n1, n2 = ref.Net(network), ref.Net(other)
    K = int(rng.integers(0, 3))
    a = envs.Run(ctx, network, K=K, clip=None, aux_bounds=None, lamb=0 if rebased else None)
    b = envs.Run(ctx, other, K=K, clip=None, gamma=a.gamma, lamb=a.lamb, dt=a.dt, aux_bounds=None)
    info0 = dict(twin=gen.describe(other), factor=f)
    init = a.good_init()
    if not work.Simulator(other, a.dt, a.lamb).reset(np.array(init)):
        raise Skip("borderline-initial-state")
    a.reset(init)
    b.reset(init)
    for name in ("action_space", "observation_space"):
        x, y = getattr(a.env, name), getattr(b.env, name)
        ctx.check(near(x.low, y.low) and near(x.high, y.high), "env-" + name, "%s: %s and %s" % (name, x, y), **dict(a.info(), **info0))
    ctx.nontrivial("env", work.net_key(n1), f, str(gen.describe(other)))
    for t in range(4):
        act = work.sample_action(rng, a.env.action_space)
        v = a.random_vars()
        o1, r1, e1, _, _ = a.step(act, v)
        # (the limits of the twin may differ in the last digit)
        o2, r2, e2, _, _ = b.step(np.clip(act, b.env.action_space.low, b.env.action_space.high), v)
        info = dict(a.info(), **info0)
        ctx.evaluated()
        if bool(e1) != bool(e2):
            ctx.check(not (well_posed(n1, a.env.simulator.state) and well_posed(n2, b.env.simulator.state)), "env-termination", "terminated: %s and %s" % (e1, e2), **info)
            return
        if e1:
            return
        s1, s2 = a.env.simulator.state, b.env.simulator.state
        if not (well_posed(n1, s1) and well_posed(n2, s2)):
            return
        acc, sig = accuracy(n1, s1, n2, s2)
        if sig < 0.01 or acc > 5e-5:
            return
        ysum = 1 + sum(abs(br.ys) for br in n1.branches.values())
        tol = (acc * max(1.0, f) * 4 * ysum + 1e-9) * n1.base
        ctx.close(o1, o2, tol + 1e-9 * np.abs(o1), "env-observation", "observation", **info)
        tr = tol / n1.base * a.dt * (1 + a.lamb * (len(n1.branches) + len(n1.buses))) + 1e-9 * abs(r1)
        ctx.close(r1, r2 * f, tr * max(1.0, f), "env-reward", "reward (in p.u. of the first base)", **info)
