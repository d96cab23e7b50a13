"""C13: declared spaces and bounds are correct and respected."""
import math

import numpy as np

from vmon import gen, ref, work

RULE = (
    "random networks (limits given or omitted, any base power, devices sharing buses, load Q/P of both signs): every "
    "declared bound is recomputed from the input dictionary with the documented defaults, and every quantity of every "
    "converged state reached by random, corner and out-of-range requests is compared with the declared bounds; "
    "non-trivial = distinct converged state with at least one quantity on its bound"
)
ASSUMPTIONS = [
    "branch_i_magn has no documented kA form in the state; a kA entry in its declared bounds is ignored",
    "the network does not limit the slack device (known finding), so slack bus/device injections are judged separately",
]
MIN = {"states_checked": 500, "distinct_nontrivial": 200, "bounds_checked": 15000, "on_bound": 400, "multi_device_bus": 60, "qp_negative": 20}
INF = math.inf
QUICK_X = 4


def plan(tier):
    q = tier == "quick"
    return [("random", 120 if q else 4500), ("finite", 50 if q else 1500), ("slack", 6 if q else 60), ("env", 50 if q else 1500)]


def expected_bounds(net):
    b = net.base
    E = {k: {} for k in ref.QUANTITIES}

    def scaled(lo, hi, unit, s):
        return {"pu": (lo, hi), unit: (lo * s if lo != 0 else 0.0, hi * s if hi != 0 else 0.0)}

    tot = {i: [0.0, 0.0, 0.0, 0.0] for i in net.bus_ids}
    for i, d in net.devs.items():
        E["dev_p"][i] = scaled(d.pmin, d.pmax, "MW", b)
        E["dev_q"][i] = scaled(d.qmin, d.qmax, "MVAr", b)
        if d.typ == 3:
            E["des_soc"][i] = scaled(d.smin, d.smax, "MWh", b)
        if d.typ in (1, 2):
            E["gen_p_max"][i] = scaled(d.pmin, d.pmax, "MW", b)
        for k, v in enumerate((d.pmin, d.pmax, d.qmin, d.qmax)):
            tot[d.bus][k] += v
    for i in net.bus_ids:
        t = tot[i]
        E["bus_p"][i] = scaled(t[0], t[1], "MW", b)
        E["bus_q"][i] = scaled(t[2], t[3], "MVAr", b)
        if i == net.slack_bus:
            v = net.buses[i].vmax
            E["bus_v_magn"][i] = {"pu": (v, v), "kV": (v * net.buses[i].kv,) * 2}
            E["bus_v_ang"][i] = {"degree": (0, 0), "rad": (0, 0)}
        else:
            E["bus_v_magn"][i] = {"pu": (-INF, INF), "kV": (-INF, INF)}
            E["bus_v_ang"][i] = {"degree": (-180, 180), "rad": (-math.pi, math.pi)}
        E["bus_i_magn"][i] = {"pu": (-INF, INF), "kA": (-INF, INF)}
        E["bus_i_ang"][i] = {"degree": (-180, 180), "rad": (-math.pi, math.pi)}
    for k in net.branches:
        E["branch_p"][k] = {"pu": (-INF, INF), "MW": (-INF, INF)}
        E["branch_q"][k] = {"pu": (-INF, INF), "MVAr": (-INF, INF)}
        E["branch_s"][k] = {"pu": (-INF, INF), "MVA": (-INF, INF)}
        E["branch_i_magn"][k] = {"pu": (-INF, INF)}
        E["branch_i_ang"][k] = {"degree": (-180, 180), "rad": (-math.pi, math.pi)}
    return E


def same(a, b, tol):
    a, b = float(a), float(b)
    return a == b or (math.isfinite(a - b) and abs(a - b) <= tol * (abs(b) + 1e-9))


def compare(ctx, got, exp, what, info, ignore_extra_units=()):
    ctx.check(set(got) == set(exp), what + "-ids", "IDs %s instead of %s" % (sorted(got), sorted(exp)), **info)
    for i in exp:
        if i not in got:
            continue
        extra = set(got[i]) - set(exp[i]) - set(ignore_extra_units)
        ctx.check(set(exp[i]) <= set(got[i]) and not extra, what + "-units", "ID %s: units %s instead of %s" % (i, sorted(got[i]), sorted(exp[i])), **info)
        for u in exp[i]:
            if u not in got[i]:
                continue
            lo, hi = got[i][u]
            ok = same(lo, exp[i][u][0], 1e-12) and same(hi, exp[i][u][1], 1e-12)
            ctx.check(ok, what, "ID %s (%s): declared (%r, %r), the network implies (%r, %r)" % (i, u, lo, hi, *exp[i][u]), **info)
            ctx.count("bounds_checked")


def check_declared(ctx, sim, net, info):
    E = expected_bounds(net)
    B = sim.state_bounds
    ctx.check(set(B) == set(E), "bound-quantities", "declared quantities %s instead of %s" % (sorted(B), sorted(E)), **info)
    for q in E:
        compare(ctx, B[q], E[q], "bounds:" + q, info, ("kA",) if q == "branch_i_magn" else ())
    got = sim.get_action_space()
    for name, d, ids, a, c in (
        ("P_gen", got[0], net.gens, "pmin", "pmax"),
        ("Q_gen", got[1], net.gens, "qmin", "qmax"),
        ("P_des", got[2], net.des, "pmin", "pmax"),
        ("Q_des", got[3], net.des, "qmin", "qmax"),
    ):
        ctx.check(sorted(d) == sorted(ids), "action-space-ids", "%s: devices %s instead of %s" % (name, sorted(d), ids), **info)
        for i in ids:
            lo, hi = getattr(net.devs[i], a) * net.base, getattr(net.devs[i], c) * net.base
            ctx.check(same(d[i][0], lo, 1e-12) and same(d[i][1], hi, 1e-12), "action-space", "%s of device %d: %r instead of (%r, %r)" % (name, i, d[i], lo, hi), **info)
    specs = sim.get_rendering_specs()
    for q in ("bus_p", "bus_q", "dev_p", "dev_q", "des_soc"):
        compare(ctx, specs[q], E[q], "rendering:" + q, info)
    compare(ctx, specs["bus_v"], {i: {"pu": (x.vmin, x.vmax), "kV": (x.vmin * x.kv, x.vmax * x.kv)} for i, x in net.buses.items()}, "rendering:bus_v", info)
    compare(ctx, specs["branch_s"], {k: {"pu": (0, br.rate), "MVA": (0, br.rate * net.base)} for k, br in net.branches.items()}, "rendering:branch_s", info)
    ctx.check(dict(specs["dev_type"]) == {i: d.typ for i, d in net.devs.items()}, "rendering:dev_type", "%r" % (specs["dev_type"],), **info)


def check_inside(ctx, sim, net, state, info, slack_limited):
    """The declared bounds (as the code declares them) hold in this state."""
    B = sim.state_bounds
    on = 0
    ctx.evaluated()
    ctx.count("states_checked")
    for q, units in ref.QUANTITIES.items():
        for u in units:
            for i, v in state[q][u].items():
                lo, hi = B[q][i][u]
                v = float(v)
                scale = max([abs(x) for x in (lo, hi) if math.isfinite(x)] + [0.0])
                t = 1e-9 * scale + 1e-9 * (net.base if u not in ("pu", "rad", "degree") else 1.0)
                ctx.counts["oracle_checks"] += 1
                if not (lo - t <= v <= hi + t):
                    mech = "outside:" + q
                    if (q in ("dev_p", "dev_q") and i == net.slack_dev) or (q in ("bus_p", "bus_q") and i == net.slack_bus):
                        mech = "slack-injection-outside-bounds"
                    elif q == "bus_v_magn" and i == net.slack_bus and net.buses[i].vmax != 1.0 and abs(state[q]["pu"][i] - 1.0) < 1e-9:
                        mech = "slack-voltage-is-1-whatever-vmax"
                    ctx.fail(mech, "%s of %s is %r %s, declared bounds (%r, %r)" % (q, i, v, u, lo, hi), **info)
                elif scale and math.isfinite(hi - lo) and lo < hi and min(v - lo, hi - v) <= t:
                    on += 1
    ctx.count("on_bound", on)
    if on:
        ctx.nontrivial(work.net_key(net), work.state_key(state))


def run(ctx, kind):
    rng = ctx.rng
    if kind == "slack":
        return slack_case(ctx)
    kw = dict(stress=float(gen.pick(rng, [0.2, 0.5, 1.0])))
    if kind == "finite":
        kw["finite"] = True
    network = gen.network(rng, **kw)
    net = ref.Net(network)
    per_bus = [sum(1 for d in net.devs.values() if d.bus == b) for b in net.bus_ids]
    ctx.count("multi_device_bus", max(per_bus) > 1)
    ctx.count("qp_negative", any(net.devs[i].qp < 0 for i in net.loads))
    if kind == "env":
        return env_case(ctx, network, net)
    ep = work.Episode(ctx, network, reset=False)
    check_declared(ctx, ep.sim, net, ep.info())
    ev = ep.reset()
    for k in range(int(rng.integers(2, 7))):
        if ev.conv:
            check_inside(ctx, ep.sim, net, ev.state, ep.info(ev), False)
        ev = ep.step()
    # The declared bounds do not drift while the simulator is used.
    check_declared(ctx, ep.sim, net, ep.info())
    if ctx.idx == 0:
        ctx.sample({"kind": kind, **ep.info(ev)})


def env_case(ctx, network, net):
    """The spaces of an environment built on the network."""
    rng = ctx.rng
    K = int(rng.integers(0, 3))
    aux = None if rng.random() < 0.5 else np.array([[-float(rng.uniform(0, 5)), float(rng.uniform(0, 5))] for _ in range(K)]).reshape(K, 2)
    E = expected_bounds(net)
    names = [q for q in ref.QUANTITIES if E[q]]
    spec, lo, hi = [], [], []
    if rng.random() < 0.4:
        spec = "state"
        parts = [("dev_p", net.ids, "MW"), ("dev_q", net.ids, "MVAr"), ("des_soc", net.des, "MWh"), ("gen_p_max", net.gens, "MW"), ("aux", range(K), None)]
    else:
        parts = []
        for _ in range(int(rng.integers(1, 5))):
            q = gen.pick(rng, names)
            ids = [list(E[q])[int(j)] for j in rng.integers(len(E[q]), size=int(rng.integers(1, 4)))]
            u = gen.pick(rng, ref.QUANTITIES[q])
            parts.append((q, ids, u))
            spec.append((q, list(ids), u))
        if K and rng.random() < 0.5:
            parts.append(("aux", list(range(K)), None))
            spec.append(("aux", list(range(K)), None))
    for q, ids, u in parts:
        for i in ids:
            a, b = ((-INF, INF) if aux is None else aux[i]) if q == "aux" else E[q][i][u]
            lo.append(a)
            hi.append(b)
    first = []

    def init_fn(env):
        first.append(0)
        return work.calmer(gen.init_state(rng, net, np.zeros(K)), len(first) - 1)

    def vars_fn(env, s):
        del first[:]
        return work.random_vars(rng, net, np.zeros(K))

    env = work.make_env(network, spec, K, 0.5, 0.9, 10, aux, init_fn=init_fn, vars_fn=vars_fn)
    info = {"network": gen.describe(network), "observation": spec, "K": K, "aux_bounds": aux}
    import gymnasium as gym

    for sp, l, h, what in ((env.observation_space, lo, hi, "observation-space"),):
        ctx.check(isinstance(sp, gym.spaces.Box) and sp.dtype == np.float64 and sp.shape == (len(l),), what, "%r" % (sp,), **info)
        for k, (g0, g1, e0, e1) in enumerate(zip(sp.low, sp.high, l, h)):
            ctx.check(same(g0, e0, 1e-12) and same(g1, e1, 1e-12), what, "element %d: (%r, %r) instead of (%r, %r)" % (k, g0, g1, e0, e1), **info)
            ctx.count("bounds_checked")
    a = env.action_space
    n = 2 * (len(net.gens) + len(net.des))
    ctx.check(isinstance(a, gym.spaces.Box) and a.dtype == np.float64 and a.shape == (n,), "action-box", "%r" % (a,), **info)
    e0, e1 = [], []
    for ids, p, q in ((net.gens, "pmin", "pmax"), (net.gens, "qmin", "qmax"), (net.des, "pmin", "pmax"), (net.des, "qmin", "qmax")):
        e0 += [getattr(net.devs[i], p) * net.base for i in ids]
        e1 += [getattr(net.devs[i], q) * net.base for i in ids]
    for k in range(n):
        ctx.check(same(a.low[k], e0[k], 1e-12) and same(a.high[k], e1[k], 1e-12), "action-box", "element %d: (%r, %r) instead of (%r, %r)" % (k, a.low[k], a.high[k], e0[k], e1[k]), **info)
    env.reset(seed=int(rng.integers(1 << 30)))
    for _ in range(3):
        out = env.step(work.sample_action(rng, env.action_space))
        if out[2]:
            break
        check_inside(ctx, env.simulator, net, env.simulator.state, info, False)


def slack_case(ctx):
    """Known findings: the slack device's limits and the slack VMAX are only declared."""
    rng = ctx.rng
    limited = ctx.idx % 2 == 0
    bus = [[0, 0, 50.0, 1.0 if limited else float(gen.pick(rng, [1.05, 1.02, 0.97])), 0.9], [1, 1, 50.0, 1.1, 0.9]]
    m = 5.0 if limited else 1e5
    dev = [[0, 0, 0, None, m, -m, m, -m] + [None] * 7, [1, 1, -1, 0.2, 0.0, -50.0] + [None] * 9]
    br = [[0, 1, 0.01, 0.05, 0.0, 100.0, 1.0, 0.0]]
    network = {"baseMVA": 100.0, "bus": gen.as_array(rng, bus), "device": gen.as_array(rng, dev), "branch": gen.as_array(rng, br)}
    net = ref.Net(network)
    ep = work.Episode(ctx, network, reset=False)
    check_declared(ctx, ep.sim, net, ep.info())
    ev = ep.reset(init=np.array([0, -30.0, 0, -6.0]))
    if ev.conv:
        check_inside(ctx, ep.sim, net, ev.state, ep.info(ev), limited)
    ctx.count("directed_slack")
