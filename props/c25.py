"""C25: results do not depend on labels or row order."""
import numpy as np

from vmon import envs, gen, ref, twin, work
from vmon.core import Skip

RULE = (
    "random networks and their relabelled twins (new bus and device IDs, permuted rows, reversed plain lines) driven in "
    "lockstep with the same physical requests, at simulator level (full states, rewards, bounds, action space) and as "
    "environments (state vectors, observations, rewards); non-trivial = distinct pairs of (network, relabelling)"
)
ASSUMPTIONS = [
    "the power-flow solutions of twins agree up to the accuracy implied by their residuals and conditioning",
    "convergence is compared where the reference power flow is well-conditioned (smallest singular value of the Jacobian > 0.02)",
]
MIN = {"twin_transitions": 700, "twin_env_steps": 250, "flipped_lines": 150, "distinct_nontrivial": 250, "converged": 700, "observations": 200}
QUICK_X = 3


def plan(tier):
    q = tier == "quick"
    return [("sim", 160 if q else 4000), ("env", 90 if q else 2000)]


def run(ctx, kind):
    {"sim": sim_case, "env": env_case}[kind](ctx)


def well_posed(net, st):
    """A reference solution exists close to no singularity."""
    S = {b: 0j for b in net.bus_ids}
    for i, d in net.devs.items():
        if d.typ != 0:
            S[d.bus] += complex(st["dev_p"]["pu"][i], st["dev_q"]["pu"][i])
    V, it = net.solve(S)
    return V is not None and it <= 7 and net.jac_sigma_min(V) > 0.02


def sim_case(ctx):
    rng = ctx.rng
    network = gen.network(rng, stress=float(gen.pick(rng, [0.2, 0.4, 0.8])))
    other, m = twin.relabel(rng, network, flip=rng.random() < 0.8)
    a = work.Episode(ctx, network, reset=False)
    b = work.Episode(ctx, other, a.dt, a.lamb, reset=False)
    n1, n2 = a.net, b.net
    init = gen.init_state(rng, n1)
    ea, eb = a.reset(init), b.reset(twin.map_state_vector(n1, n2, m, init))
    ctx.count("flipped_lines", len(m.flip))
    ctx.nontrivial(work.net_key(n1), tuple(m.bus.items()), tuple(m.dev.items()), len(m.flip))
    check_bounds(ctx, a, b, m)
    for t in range(5):
        if t:
            req = gen.request(rng, n1)
            ea, eb = a.step(req), b.step(twin.map_request(req, m))
        info = dict(a.info(ea), twin=gen.describe(other), bus_map=m.bus, dev_map=m.dev, flipped=sorted(m.flip))
        ctx.count("twin_transitions")
        ctx.evaluated()
        # What devices do never depends on the power flow.
        for q in ("dev_p", "dev_q"):
            for i, d in n1.devs.items():
                if d.typ != 0:
                    v1, v2 = ea.state[q]["pu"][i], eb.state[q]["pu"][m.dev[i]]
                    ctx.close(v1, v2, 1e-9 * (1 + abs(v1)), "twin-" + q, "%s of device %s" % (q, i), **info)
        if not well_posed(n1, ea.state):
            ctx.count("not_well_posed")
            if not (ea.conv and eb.conv):
                if ea.conv != eb.conv:
                    return
                continue
        ctx.check(bool(ea.conv) == bool(eb.conv), "twin-convergence", "converged: %s and %s" % (ea.conv, eb.conv), **info)
        if not (ea.conv and eb.conv):
            continue
        t1, sig, _ = twin.accuracy(n1, ea.state)
        t2, _, _ = twin.accuracy(n2, eb.state)
        if sig < 0.02:
            ctx.count("ill_conditioned")
            continue
        ctx.track("accuracy", t1 + t2)
        twin.same_physics(ctx, n1, ea.state, n2, eb.state, m, t1 + t2, "twin", info)
        if ea.kind == "step":
            same_costs(ctx, n1, a, ea, eb, t1 + t2, info)


def same_costs(ctx, net, ep, ea, eb, acc, info):
    ymax = 1 + sum(abs(br.ys) for br in net.branches.values())
    t = (acc * 4 * ymax + 1e-9) * ep.dt
    tl = t + 1e-9 * abs(ea.e_loss)
    tp = t * ep.lamb * (len(net.branches) + len(net.buses)) + 1e-9 * abs(ea.penalty)
    ctx.close(ea.e_loss, eb.e_loss, tl, "twin-e_loss", "energy loss", **info)
    ctx.close(ea.penalty, eb.penalty, tp, "twin-penalty", "penalty", **info)
    ctx.close(ea.reward, eb.reward, tl + tp, "twin-reward", "reward", **info)


def check_bounds(ctx, a, b, m):
    """Declared bounds and the action space, per label."""
    sa, sb = a.sim.get_action_space(), b.sim.get_action_space()
    ctx.check(len(sa) == len(sb), "twin-action-space", "%d and %d parts" % (len(sa), len(sb)))
    for k, (x, y) in enumerate(zip(sa, sb)):
        x = {m.dev[i]: tuple(float(z) for z in v) for i, v in x.items()}
        y = {i: tuple(float(z) for z in v) for i, v in y.items()}
        ok = set(x) == set(y) and all(near(x[i], y[i]) for i in x)
        ctx.check(ok, "twin-action-space", "part %d: %s and %s" % (k, x, y), network=gen.describe(a.network), twin=gen.describe(b.network))
    for q, units in a.sim.state_bounds.items():
        B = b.sim.state_bounds.get(q, {})
        for k, per in units.items():
            if q.startswith("branch") and k in m.flip:
                continue
            k2 = m.dev.get(k) if q in twin.DEVQ else m.bus.get(k) if q in twin.BUSQ else m.branch(k) if isinstance(k, tuple) else k
            for u, bounds in per.items():
                v1 = tuple(float(z) for z in np.ravel(bounds))
                v2 = tuple(float(z) for z in np.ravel(B[k2][u])) if k2 in B and u in B[k2] else None
                ctx.count("bounds")
                ctx.check(v2 is not None and near(v1, v2), "twin-bounds", "%s %s of %s: %s and %s" % (q, u, k, v1, v2), network=gen.describe(a.network), twin=gen.describe(b.network))


def near(x, y):
    x, y = np.array(x, dtype=float), np.array(y, dtype=float)
    return x.shape == y.shape and bool(np.all((x == y) | (np.isfinite(x - y) & (np.abs(x - y) <= 1e-9 * (1 + np.abs(x))))))


def env_case(ctx):
    rng = ctx.rng
    network = gen.network(rng, stress=float(gen.pick(rng, [0.2, 0.4])))
    other, m = twin.relabel(rng, network, flip=False)
    n1, n2 = ref.Net(network), ref.Net(other)
    obs1, obs2 = "state", "state"
    if rng.random() < 0.6:
        obs1, obs2 = observation(rng, n1, m)
    clip = gen.pick(rng, [None, (1.0, 100.0), (1e-3, None)])
    K = int(rng.integers(0, 3))
    a = envs.Run(ctx, network, K=K, observation=obs1, clip=clip, aux_bounds=None)
    b = envs.Run(ctx, other, K=K, observation=obs2, clip=clip, gamma=a.gamma, lamb=a.lamb, dt=a.dt, aux_bounds=None)
    init = a.good_init()
    if not work.Simulator(other, a.dt, a.lamb).reset(twin.map_state_vector(n1, n2, m, init)):
        raise Skip("borderline-initial-state")
    o1, _ = a.reset(init)
    o2, _ = b.reset(twin.map_state_vector(n1, n2, m, init))
    ctx.nontrivial("env", work.net_key(n1), tuple(m.bus.items()), tuple(m.dev.items()), str(obs1))
    for t in range(5):
        r1 = r2 = term = None
        if t:
            act = work.sample_action(rng, a.env.action_space)
            v = a.random_vars()
            o1, r1, term, _, _ = a.step(act, v)
            o2, r2, term2, _, _ = b.step(twin.map_action(n1, n2, m, act), twin.map_vars(n1, n2, m, v))
            if bool(term) != bool(term2):
                ctx.check(not well_posed(n1, a.env.simulator.state), "twin-termination", "terminated: %s and %s" % (term, term2), **a.info())
                return
        if term:
            ctx.close(r1, r2, 1e-9 * (1 + abs(r1)), "twin-terminal-reward", "terminal reward", **a.info())
            return
        st = a.env.simulator.state
        if not well_posed(n1, st):
            ctx.count("not_well_posed")
            return
        t1, sig, _ = twin.accuracy(n1, st)
        t2, _, _ = twin.accuracy(n2, b.env.simulator.state)
        if sig < 0.02:
            return
        ymax = 1 + sum(abs(br.ys) for br in n1.branches.values())
        tol = ((t1 + t2) * 4 * ymax + 1e-9) * n1.base
        info = dict(a.info(), twin=gen.describe(other), bus_map=m.bus, dev_map=m.dev, observation=str(obs1))
        s1 = twin.map_state_vector(n1, n2, m, np.array(a.env.state))
        ctx.close(s1, b.env.state, tol + 1e-9 * np.abs(s1), "twin-state-vector", "state vector", **info)
        if obs1 == "state":
            o1 = twin.map_state_vector(n1, n2, m, np.array(o1))
        scale = np.maximum(1.0, np.abs(o1)) * max(1.0, 1 / n1.base)
        ctx.close(o1, o2, tol * scale, "twin-observation", "observation", **info)
        ctx.count("observations")
        ctx.count("twin_env_steps")
        ctx.evaluated()
        if t:
            e = (t1 + t2) * 4 * ymax + 1e-9
            tr = e * a.dt * (1 + a.lamb * (len(n1.branches) + len(n1.buses))) + 1e-9 * abs(r1)
            ctx.close(r1, r2, tr, "twin-env-reward", "reward", **info)


def observation(rng, net, m):
    """The same observed quantities, named with each network's own labels."""
    qs = [("dev_p", net.ids, m.dev), ("dev_q", net.ids, m.dev), ("des_soc", net.des, m.dev), ("gen_p_max", net.gens, m.dev), ("bus_p", net.bus_ids, m.bus), ("bus_q", net.bus_ids, m.bus), ("bus_v_magn", net.bus_ids, m.bus), ("branch_p", list(net.branches), None), ("branch_q", list(net.branches), None)]
    o1, o2 = [], []
    for _ in range(int(rng.integers(1, 5))):
        q, ids, mp = qs[int(rng.integers(len(qs)))]
        if not ids:
            continue
        k = int(rng.integers(1, len(ids) + 1))
        sel = [ids[int(i)] for i in rng.permutation(len(ids))[:k]]
        u = ref.QUANTITIES[q][int(rng.integers(len(ref.QUANTITIES[q])))]
        o1.append((q, sel, u))
        o2.append((q, [mp[i] if mp else m.branch(i) for i in sel], u))
    return (o1, o2) if o1 else ("state", "state")
