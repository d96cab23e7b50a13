"""C30: delta_t, lambda and gamma act as documented."""
import copy
import datetime as dt
import math

import numpy as np

from vmon import envs, gen, ref, twin, work
from vmon.core import Skip

RULE = (
    "the same episode is run by twins which differ in one parameter only (delta_t, lambda or gamma; storage capacities stretched "
    "with delta_t in some cases so that limits coincide; one step split in several in others) and their injections, states, "
    "costs, rewards and clocks are compared; non-trivial = distinct (network, parameters) with at least one converged step"
)
ASSUMPTIONS = ["twins are compared as long as their realised injections coincide (storage limits depend on delta_t); convergence of the power flow is deterministic"]
MIN = {"dt_steps": 400, "stretched_steps": 500, "split_steps": 100, "lambda_steps": 500, "gamma_steps": 400, "gamma_terminal": 40, "penalised": 150, "storage_moves": 400, "clock_steps": 1000, "distinct_nontrivial": 250}


def plan(tier):
    q = tier == "quick"
    return [("dt", 120 if q else 3000), ("stretch", 90 if q else 2500), ("split", 60 if q else 2000), ("lamb", 90 if q else 2500), ("gamma", 70 if q else 2000), ("clock", 40 if q else 800), ("env", 60 if q else 1500)]


def run(ctx, kind):
    {"dt": dt_case, "stretch": stretch_case, "split": split_case, "lamb": lamb_case, "gamma": gamma_case, "clock": clock_case, "env": env_case}[kind](ctx)


def base_case(ctx, stress=None):
    rng = ctx.rng
    network = gen.network(rng, stress=float(gen.pick(rng, [0.2, 0.4, 0.8])) if stress is None else stress, n_des=int(rng.integers(1, 3)) if rng.random() < 0.8 else None)
    dtv = float(gen.pick(rng, [0.25, 0.5, 1.0, 2.0, 1 / 12]))
    lamb = float(gen.pick(rng, [1, 100, 1000.5, 10]))
    return network, dtv, lamb


def powers(state):
    return {q: np.array([float(x) for x in state[q]["pu"].values()]) for q in ("dev_p", "dev_q", "bus_v_magn", "branch_s")}


def same_power(a, b, tol=1e-7):
    pa, pb = powers(a), powers(b)
    return all(bool(np.all(np.isfinite(pa[q] - pb[q]) & (np.abs(pa[q] - pb[q]) <= tol * (1 + np.abs(pa[q]))))) for q in pa)


def scaled(ctx, x, y, k, tol, mech, msg, info):
    """y has to be k times x."""
    ctx.close(k * x, y, abs(k) * tol + 1e-7 * abs(k * x) + 1e-12, mech, msg, **info)


def noise(ep, ev):
    """Rounding of the energy loss (differences of large injections) and of the
    penalty (excess of large flows over ratings)."""
    p = sum(abs(float(x)) for x in ev.state["dev_p"]["pu"].values())
    s = sum(abs(float(x)) for x in ev.state["branch_s"]["pu"].values())
    return 1e-6 * 1e-3 * (1 + p) * ep.dt, 1e-9 * (1 + s) * ep.dt * max(1.0, ep.lamb)


def costs_scale(ctx, a, ea, b, eb, kl, kp, info, mech):
    """Energy loss scales with kl, penalty with kp."""
    nl, npn = noise(a, ea)
    scaled(ctx, ea.e_loss, eb.e_loss, kl, nl, mech + "-e_loss", "energy loss", info)
    scaled(ctx, ea.penalty, eb.penalty, kp, npn, mech + "-penalty", "penalty", info)
    want = -(kl * ea.e_loss + kp * ea.penalty)
    ctx.close(want, eb.reward, kl * nl + kp * npn + 1e-7 * (abs(kl * ea.e_loss) + abs(kp * ea.penalty)) + 1e-12, mech + "-reward", "reward", **info)
    ctx.count("penalised", ea.penalty > 1e-6)
    ctx.evaluated()


def factor(rng):
    return float(gen.pick(rng, [2.0, 0.5, 3.0, 4.0, 0.1, 1.5, 24.0, 1 / 7]))


def dt_case(ctx):
    """Same network, other delta_t: wherever the realised injections coincide."""
    rng = ctx.rng
    network, d, lamb = base_case(ctx)
    k = factor(rng)
    a = work.Episode(ctx, network, d, lamb, reset=False)
    net = a.net
    for t in range(6):
        b = work.Episode(ctx, network, k * d, lamb, reset=False)
        init = gen.init_state(rng, net)
        if len(net.des):
            # half full: both may charge and discharge a little
            n = len(net.ids)
            for j, i in enumerate(net.des):
                x = net.devs[i]
                init[2 * n + j] = (x.smin + (x.smax - x.smin) * rng.uniform(0.2, 0.8)) * net.base
        ra, rb = a.reset(np.array(init)), b.reset(np.array(init))
        req = gen.request(rng, net)
        for i in net.des:
            x = net.devs[i]
            if rng.random() < 0.8:
                # small enough for the longer of the two durations
                m = 0.2 * (x.smax - x.smin) * net.base / max(d, k * d)
                req[2][i] = float(np.clip(rng.uniform(-m, m), x.pmin * net.base, x.pmax * net.base))
        ea, eb = a.step(req), b.step(req)
        info = dict(a.info(ea), factor=k)
        # (how much of a large initial injection an empty or full unit can realise depends on delta_t)
        others = [i for i, x in net.devs.items() if x.typ != 0]
        if all(abs(ra.state[q]["pu"][i] - rb.state[q]["pu"][i]) <= 1e-12 for q in ("dev_p", "dev_q") for i in others):
            ctx.count("dt_resets")
            ctx.check(bool(ra.conv) == bool(rb.conv), "dt-reset", "reset converged: %s and %s" % (ra.conv, rb.conv), **info)
        # devices other than storage units know nothing about time
        for q in ("dev_p", "dev_q"):
            for i, x in net.devs.items():
                if x.typ in (-1, 1, 2):
                    v, w = ea.state[q]["pu"][i], eb.state[q]["pu"][i]
                    ctx.check(v == w, "dt-injection", "%s of device %s: %r and %r" % (q, i, v, w), **info)
        if not (ea.conv and eb.conv) or not same_power(ea.state, eb.state):
            ctx.count("dt_other_injections")
            continue
        ctx.count("dt_steps")
        ctx.nontrivial(work.net_key(net), d, lamb, k, t)
        costs_scale(ctx, a, ea, b, eb, k, k, info, "dt")
        for i in net.des:
            s0, s1, s2 = ra.state["des_soc"]["pu"][i], ea.state["des_soc"]["pu"][i], eb.state["des_soc"]["pu"][i]
            ctx.count("storage_moves", abs(s1 - s0) > 1e-9)
            scaled(ctx, s1 - s0, s2 - s0, k, 1e-9 * (1 + abs(s0)), "dt-storage", "energy exchanged by storage unit %s" % i, dict(info, soc=(s0, s1, s2)))
    if ctx.idx == 0:
        ctx.sample({"network": gen.describe(network), "delta_t": d, "lambda": lamb, "factor": k})


def stretch(network, k):
    """The same network with k times larger energy capacities."""
    out = copy.deepcopy(network)
    rows = [list(r) for r in out["device"]]
    for r in rows:
        if int(r[2]) == 3:
            for j in (12, 13):
                if r[j] is not None:
                    r[j] = r[j] * k
    out["device"] = np.array(rows, dtype=network["device"].dtype)
    return out


def stretch_state(net, s, k):
    s = np.array(s, dtype=float)
    n = len(net.ids)
    s[2 * n : 2 * n + len(net.des)] *= k
    return s


def stretch_case(ctx):
    """delta_t and all storage capacities scaled: whole trajectories coincide."""
    rng = ctx.rng
    network, d, lamb = base_case(ctx)
    k = float(gen.pick(rng, [2.0, 0.5, 4.0, 3.0, 0.25, 10.0]))
    a = work.Episode(ctx, network, d, lamb, reset=False)
    b = work.Episode(ctx, stretch(network, k), k * d, lamb, reset=False)
    net = a.net
    init = gen.init_state(rng, net)
    ea, eb = a.reset(init), b.reset(stretch_state(net, init, k))
    for t in range(10):
        if t:
            req = gen.request(rng, net)
            ea, eb = a.step(req), b.step(req)
        info = dict(a.info(ea), factor=k)
        if not (ea.conv and eb.conv):
            ctx.count("stretch_collapsed")
            if bool(ea.conv) != bool(eb.conv):
                # rounding may decide on the verge of a collapse only
                net2 = a.net
                S = {x: 0j for x in net2.bus_ids}
                for i, x in net2.devs.items():
                    if x.typ != 0:
                        S[x.bus] += complex(ea.state["dev_p"]["pu"][i], ea.state["dev_q"]["pu"][i])
                V, it = net2.solve(S)
                ctx.check(V is None or it > 6 or net2.jac_sigma_min(V) < 0.02, "stretch-convergence", "converged: %s and %s" % (ea.conv, eb.conv), **info)
                return
            # (states of collapsed networks are arbitrary)
            for i in net.des:
                scaled(ctx, ea.state["des_soc"]["pu"][i], eb.state["des_soc"]["pu"][i], k, 1e-8, "stretch-soc", "storage level of %s" % i, info)
            continue
        if not all(abs(ea.state[q]["pu"][i] - eb.state[q]["pu"][i]) <= 1e-6 for q in ("dev_p", "dev_q") for i in net.ids if i != net.slack_dev):
            ctx.fail("stretch-injection", "injections %s and %s" % (ea.state["dev_p"]["pu"], eb.state["dev_p"]["pu"]), **info)
            return
        for i in net.des:
            scaled(ctx, ea.state["des_soc"]["pu"][i], eb.state["des_soc"]["pu"][i], k, 1e-8, "stretch-soc", "storage level of %s" % i, info)
        if not same_power(ea.state, eb.state):
            ctx.count("stretch_other_solution")
            continue
        if t:
            ctx.count("stretched_steps")
            costs_scale(ctx, a, ea, b, eb, k, k, info, "stretch")
    ctx.nontrivial(work.net_key(net), d, lamb, k)


def split_case(ctx):
    """One step of n*delta_t against n steps of delta_t with the same request."""
    rng = ctx.rng
    network, d, lamb = base_case(ctx)
    n = int(rng.integers(2, 6))
    a = work.Episode(ctx, network, n * d, lamb, reset=False)
    b = work.Episode(ctx, network, d, lamb, reset=False)
    net = a.net
    for t in range(5):
        init = gen.init_state(rng, net)
        m0 = len(net.ids)
        for j, i in enumerate(net.des):
            x = net.devs[i]
            init[2 * m0 + j] = (x.smin + (x.smax - x.smin) * rng.uniform(0.3, 0.7)) * net.base
        a.reset(np.array(init))
        b.reset(np.array(init))
        req = gen.request(rng, net)
        for i in net.des:
            x = net.devs[i]
            m = 0.2 * (x.smax - x.smin) * net.base / (n * d)
            req[2][i] = float(np.clip(rng.uniform(-m, m), x.pmin * net.base, x.pmax * net.base))
        ea = a.step(req)
        evs = [b.step(req) for _ in range(n)]
        info = dict(a.info(ea), parts=n)
        if not (ea.conv and all(e.conv for e in evs)) or not all(same_power(ea.state, e.state) for e in evs):
            ctx.count("split_other_injections")
            continue
        ctx.count("split_steps")
        ctx.evaluated()
        nl, npn = noise(a, ea)
        for name, f, tol in (("e_loss", lambda e: e.e_loss, nl), ("penalty", lambda e: e.penalty, npn), ("reward", lambda e: e.reward, nl + npn)):
            s = sum(f(e) for e in evs)
            ctx.close(s, f(ea), tol + 1e-7 * sum(abs(f(e)) for e in evs) + 1e-12, "split-" + name, "%s of one step and the sum over its parts" % name, **info)
        for i in net.des:
            x, y = ea.state["des_soc"]["pu"][i], evs[-1].state["des_soc"]["pu"][i]
            ctx.count("storage_moves", abs(x - ea.before[i]) > 1e-9)
            ctx.close(x, y, 1e-8 * (1 + abs(x)), "split-storage", "storage level of %s after one step and after its parts" % i, **info)
        ctx.nontrivial(work.net_key(net), d, lamb, n, t)


def lamb_case(ctx):
    """Another lambda: bit-identical physics, the same loss, a scaled penalty."""
    rng = ctx.rng
    network, d, lamb = base_case(ctx, stress=float(gen.pick(rng, [0.5, 0.9])))
    lamb2 = float(gen.pick(rng, [0, 1, 7.5, 1e4, 1e-3, 100]))
    a = work.Episode(ctx, network, d, lamb, reset=False)
    b = work.Episode(ctx, network, d, lamb2, reset=False)
    net = a.net
    init = gen.init_state(rng, net)
    ea, eb = a.reset(np.array(init)), b.reset(np.array(init))
    for t in range(9):
        if t:
            req = gen.request(rng, net)
            ea, eb = a.step(req), b.step(req)
        info = dict(a.info(ea), lambda2=lamb2)
        ctx.check(bool(ea.conv) == bool(eb.conv) and envs.same_state(ea.state, eb.state), "lambda-dynamics", "lambda changes the state", **info)
        if not (ea.conv and eb.conv):
            continue
        if t:
            ctx.count("lambda_steps")
            ctx.check(ea.e_loss == eb.e_loss, "lambda-e_loss", "energy loss %r and %r" % (ea.e_loss, eb.e_loss), **info)
            costs_scale(ctx, a, ea, b, eb, 1.0, lamb2 / lamb, info, "lambda")
    ctx.nontrivial(work.net_key(net), d, lamb, lamb2)


def twin_envs(ctx, params, clip="random", network=None, bomb=True):
    """Environments on one network, fed with the same initial states and variables."""
    rng = ctx.rng
    if network is None:
        network = gen.network(rng, stress=0.4)
    nb = envs.add_bomb(rng, network) if bomb else None
    K = int(rng.integers(0, 3))
    return [envs.Run(ctx, copy.deepcopy(p.get("network", network)), nb, K=K, clip=clip, gamma=p["gamma"], lamb=p["lamb"], dt=p["dt"], aux_bounds=None) for p in params]


def gamma_case(ctx):
    rng = ctx.rng
    g1, g2 = (float(gen.pick(rng, [0.0, 0.1, 0.5, 0.9, 0.99, 0.999, 0.999999])) for _ in range(2))
    lamb, d = float(gen.pick(rng, [1, 100])), float(gen.pick(rng, [0.25, 1.0]))
    c2 = None if rng.random() < 0.15 else float(10 ** rng.uniform(-2, 4))
    clip = (float(10 ** rng.uniform(-2, 4)), c2) if rng.random() < 0.8 else (None, c2)
    if clip == (None, None) and rng.random() < 0.5:
        clip = None
    a, b = twin_envs(ctx, [dict(gamma=g1, lamb=lamb, dt=d), dict(gamma=g2, lamb=lamb, dt=d)], clip=clip)
    steps = 0
    for ep in range(2):
        init = a.good_init()
        oa, ob = a.reset(np.array(init))[0], b.reset(np.array(init))[0]
        ctx.check(np.array_equal(oa, ob), "gamma-reset", "reset() observed %s and %s" % (oa, ob), **a.info())
        end = int(rng.integers(2, 9))
        for t in range(10):
            v = a.random_vars(explode=t == end)
            act = work.sample_action(rng, a.env.action_space)
            ra, rb = a.step(np.array(act), np.array(v)), b.step(np.array(act), np.array(v))
            info = dict(a.info(), gammas=(g1, g2))
            ctx.evaluated()
            ctx.count("gamma_steps")
            ctx.check(ra[2] == rb[2] and np.array_equal(ra[0], rb[0]) and np.array_equal(a.env.state, b.env.state), "gamma-dynamics", "gamma changes observation, state or termination", **info)
            ctx.check(envs.same_state(a.env.simulator.state, b.env.simulator.state), "gamma-dynamics", "gamma changes the full state", **info)
            if not ra[2]:
                ctx.check(ra[1] == rb[1] and a.env.e_loss == b.env.e_loss and a.env.penalty == b.env.penalty, "gamma-reward", "rewards %r and %r of a non-terminal step" % (ra[1], rb[1]), **info)
            else:
                ctx.count("gamma_terminal")
                for r, g in ((ra[1], g1), (rb[1], g2)):
                    want = -math.inf if c2 is None else -c2 / (1 - g)
                    ctx.check(r == want or (math.isfinite(want) and abs(r - want) <= 1e-9 * abs(want)), "gamma-terminal", "terminal reward %r for gamma=%r, clipping %r" % (r, g, clip), **info)
                # a step in the terminal state
                v = a.random_vars()
                xa, xb = a.step(np.array(act), np.array(v)), b.step(np.array(act), np.array(v))
                ctx.check(xa[1] == xb[1] and xa[2] == xb[2] and np.array_equal(xa[0], xb[0]), "gamma-after-terminal", "after the terminal state: %s and %s" % (xa, xb), **info)
                break
            steps += 1
            ctx.check(a.env.timestep == t + 1 and b.env.timestep == t + 1, "timestep", "timestep %r and %r after %d steps" % (a.env.timestep, b.env.timestep, t + 1), **info)
    ctx.nontrivial(work.net_key(a.net), g1, g2, lamb, d, repr(clip), steps)


def env_case(ctx):
    """delta_t (with stretched capacities) and lambda at environment level."""
    rng = ctx.rng
    network = gen.network(rng, stress=float(gen.pick(rng, [0.4, 0.8])))
    d, lamb = float(gen.pick(rng, [0.25, 0.5, 1.0])), float(gen.pick(rng, [1, 100, 1000]))
    k, kl = float(gen.pick(rng, [2.0, 0.5, 4.0])), float(gen.pick(rng, [1.0, 3.0, 0.01, 10]))
    a, b = twin_envs(ctx, [dict(gamma=0.9, lamb=lamb, dt=d, network=network), dict(gamma=0.9, lamb=lamb * kl, dt=d * k, network=stretch(network, k))], clip=None, network=network, bomb=False)
    net = a.net
    init = a.good_init()
    a.reset(np.array(init))
    b.reset(stretch_state(net, init, k))
    n = len(net.ids)
    for t in range(8):
        v = a.random_vars()
        act = work.sample_action(rng, a.env.action_space)
        ra, rb = a.step(np.array(act), np.array(v)), b.step(np.array(act), np.array(v))
        info = dict(a.info(), factors=(k, kl))
        if ra[2] or rb[2]:
            return
        sa, sb = stretch_state(net, a.env.state, k), np.array(b.env.state, dtype=float)
        fine = np.ones(len(sa), dtype=bool)
        for j, i in enumerate(net.ids):
            if i == net.slack_dev:
                fine[[j, n + j]] = False
        ctx.close(sa[fine], sb[fine], 1e-6 * (net.base + np.abs(sa[fine])), "env-state", "state vector", **info)
        if not same_power(a.env.simulator.state, b.env.simulator.state):
            ctx.count("env_other_solution")
            continue
        ctx.count("lambda_steps", kl != 1)
        ctx.count("stretched_steps")
        ctx.evaluated()
        s = sum(abs(float(x)) for q in ("branch_s", "dev_p") for x in a.env.simulator.state[q]["pu"].values())
        tl, tp = 1e-9 * (1 + s) * d * k, 1e-9 * (1 + s) * d * k * max(1, lamb * kl)
        ctx.close(a.env.e_loss * k, b.env.e_loss, tl + 1e-7 * abs(k * a.env.e_loss), "env-e_loss", "energy loss", **info)
        ctx.close(a.env.penalty * k * kl, b.env.penalty, tp + 1e-7 * abs(k * kl * a.env.penalty), "env-penalty", "penalty", **info)
        want = -(a.env.e_loss * k + a.env.penalty * k * kl)
        ctx.close(want, rb[1], tl + tp + 1e-7 * (abs(k * a.env.e_loss) + abs(k * kl * a.env.penalty)), "env-reward", "reward", **info)
        ctx.count("penalised", a.env.penalty > 1e-6)
    ctx.nontrivial(work.net_key(net), d, lamb, k, kl)


def clock_case(ctx):
    """The clock of (renderable) environments advances by delta_t per step."""
    from gym_anm.envs import ANM6

    rng = ctx.rng
    from props.c23 import network as six

    net = ref.Net(six())
    K = int(rng.integers(0, 2))
    init = np.zeros(2 * len(net.ids) + len(net.des) + len(net.gens) + K)

    class Clock(ANM6):
        def init_state(self):
            return init.copy()

        def next_vars(self, s_t):
            return np.zeros(len(net.loads) + len(net.gens) + K)

    d = float(gen.pick(rng, [0.25, 0.5, 1.0, 1 / 60, 2.0, 24.0, 100.0]))
    k = float(gen.pick(rng, [2, 3, 0.5, 4, 24]))
    e1, e2 = Clock("state", K, d, 0.9, 100), Clock("state", K, k * d, 0.99, 1)
    y = int(gen.pick(rng, [2020, 2019, 2000, 2023]))
    date = dt.datetime(y, 1, 1) + dt.timedelta(seconds=int(rng.integers(0, 365 * 24 * 3600)))
    info = {"delta_t": d, "factor": k, "date": date}
    for e in (e1, e2):
        e.reset(options={"date_init": date})
        if not ctx.check(e.date == date, "clock-reset", "date %s after reset to %s" % (e.date, date), **info):
            return
    a = work.sample_action(rng, e1.action_space)
    for t in range(1, 31):
        for e, h in ((e1, d), (e2, k * d)):
            if e.step(a)[2]:
                return
            ctx.count("clock_steps")
            ctx.evaluated()
            want = dt.timedelta(hours=h).total_seconds() * t
            ctx.check(abs((e.date - date).total_seconds() - want) <= 1e-6 * t + 1e-9, "clock-advance", "%s after %d steps of %g h from %s" % (e.date, t, h, date), **info)
    ctx.nontrivial("clock", d, k, str(date))
