"""C12: observations carry exactly what was asked for."""
import math

import numpy as np

from vmon import envs, gen, ref, work

RULE = (
    "random observation specifications (every quantity and unit, 'all' or any ID subset in any order and repetition, "
    "default units, aux with and without bounds, callables with and without a declared space) on random networks; each "
    "observation is rebuilt from the reported full state; non-trivial = distinct (specification, state)"
)
ASSUMPTIONS = ["callables return a new float array of constant size"]
MIN = {"observations_checked": 400, "distinct_nontrivial": 250, "list_specs": 60, "callables": 20, "clipped": 15, "default_units": 40}
QUICK_X = 3


def plan(tier):
    q = tier == "quick"
    return [("list", 120 if q else 4000), ("state", 30 if q else 800), ("callable", 40 if q else 1000), ("directed", 16)]


def ids_of(net, q, K):
    if q.startswith("bus"):
        return net.bus_ids
    if q.startswith("dev"):
        return net.ids
    if q == "des_soc":
        return net.des
    if q == "gen_p_max":
        return net.gens
    if q == "aux":
        return list(range(K))
    return list(net.branches)


def random_spec(rng, net, K):
    spec, exp = [], []
    names = list(ref.QUANTITIES) + ["aux"]
    for _ in range(int(rng.integers(1, 7))):
        q = gen.pick(rng, names)
        ids = ids_of(net, q, K)
        if rng.random() < 0.4:
            sel, want = "all", list(ids)
        else:
            m = int(rng.integers(0 if rng.random() < 0.1 else 1, 4)) if ids else 0
            want = [ids[int(j)] for j in rng.integers(0, len(ids), size=m)] if ids else []
            sel = list(want)
        unit = None if q == "aux" else gen.pick(rng, ref.QUANTITIES[q])
        if q == "aux":
            spec.append(("aux", sel) if rng.random() < 0.5 else ("aux", sel, None))
        elif rng.random() < 0.35:
            spec.append((q, sel))
            unit = ref.QUANTITIES[q][0]
        else:
            spec.append((q, sel, unit))
        exp += [(q, i, unit) for i in want]
    return spec, exp


def bounds_of(net, r, q, i, unit):
    """Declared bounds (independent of the code under test)."""
    if q == "aux":
        return (-math.inf, math.inf) if r.aux_bounds is None else tuple(r.aux_bounds[i])
    b = net.base
    d = net.devs.get(i) if q[:3] in ("dev", "des", "gen") else None
    f = {"MW": b, "MVAr": b, "MWh": b, "pu": 1.0}.get(unit)
    if q in ("dev_p", "gen_p_max"):
        return d.pmin * f, d.pmax * f
    if q == "dev_q":
        return d.qmin * f, d.qmax * f
    if q == "des_soc":
        return d.smin * f, d.smax * f
    if q in ("bus_p", "bus_q"):
        lo = sum(getattr(x, q[-1] + "min") for x in net.devs.values() if x.bus == i)
        hi = sum(getattr(x, q[-1] + "max") for x in net.devs.values() if x.bus == i)
        return lo * f, hi * f
    if q == "bus_v_magn":
        bus = net.buses[i]
        if bus.slack:
            v = bus.vmax * (bus.kv if unit == "kV" else 1)
            return v, v
        return -math.inf, math.inf
    if q == "bus_v_ang" and net.buses[i].slack:
        return 0.0, 0.0
    if q.endswith("_ang"):
        return (-180.0, 180.0) if unit == "degree" else (-math.pi, math.pi)
    return -math.inf, math.inf


def check_obs(ctx, r, obs, exp, aux, what):
    net, env = r.net, r.env
    full = env.simulator.state
    want, lo, hi = [], [], []
    for q, i, u in exp:
        want.append(float(aux[i]) if q == "aux" else float(full[q][u][i]))
        a, b = bounds_of(net, r, q, i, u)
        lo.append(a)
        hi.append(b)
    want, lo, hi = np.array(want), np.array(lo), np.array(hi)
    clipped = np.clip(want, lo, hi) if want.size else want
    ctx.count("clipped", int(np.sum(np.abs(clipped - want) > 1e-9)))
    tol = 1e-9 * (1 + np.abs(clipped)) if want.size else 0.0
    ctx.close(obs, clipped, tol, "content", "%s observation" % what, spec=exp, **r.info())
    common(ctx, r, obs)
    ctx.nontrivial(tuple(map(str, exp)), work.state_key(full))


def common(ctx, r, obs):
    sp = r.env.observation_space
    ctx.check(isinstance(obs, np.ndarray) and obs.dtype == sp.dtype and obs.shape == sp.shape, "dtype-shape", "observation %r %r, space %r %r" % (getattr(obs, "dtype", None), getattr(obs, "shape", None), sp.dtype, sp.shape), **r.info())
    ctx.check(sp.contains(obs), "not-in-space", "observation %r not in %r" % (obs, sp), **r.info())
    ctx.check(r.env.observation_N == len(obs), "observation_N", "%r" % r.env.observation_N, **r.info())
    ctx.evaluated()
    ctx.count("observations_checked")


def aux_of(r, vec):
    return list(vec[len(vec) - r.K :]) if r.K else []


def run(ctx, kind):
    rng = ctx.rng
    network = gen.network(rng, stress=0.4)
    net = ref.Net(network)
    K = int(rng.integers(0, 4))
    seen = []
    exp = None
    kw = {}
    if kind == "state" or (kind == "directed" and ctx.idx < 4):
        spec = "state"
        exp = [("dev_p", i, "MW") for i in net.ids] + [("dev_q", i, "MVAr") for i in net.ids] + [("des_soc", i, "MWh") for i in net.des] + [("gen_p_max", i, "MW") for i in net.gens] + [("aux", k, None) for k in range(K)]
    elif kind == "list":
        spec, exp = random_spec(rng, net, K)
        ctx.count("list_specs")
        ctx.count("default_units", sum(len(s) == 2 for s in spec))
    elif kind == "directed":
        # Every quantity in every unit for all IDs, in one specification.
        spec = [(q, "all", u) for q, us in ref.QUANTITIES.items() for u in us] + [("aux", "all")]
        exp = [(q, i, u) for q, us in ref.QUANTITIES.items() for u in us for i in ids_of(net, q, K)] + [("aux", k, None) for k in range(K)]
        if ctx.idx % 2:
            spec = [(q, list(ids_of(net, q, K))) for q in ref.QUANTITIES]
            exp = [(q, i, us[0]) for q, us in ref.QUANTITIES.items() for i in ids_of(net, q, K)]
    else:
        ctx.count("callables")
        n = int(rng.integers(1, 4))

        def spec(s):
            seen.append(np.array(s))
            return np.concatenate([np.asarray(s)[:n] * 2.0, [float(np.sum(s))]])

        if rng.random() < 0.4:
            from gymnasium import spaces

            def hook(cls):
                class Bounded(cls):
                    def observation_bounds(self):
                        return spaces.Box(low=-np.ones(n + 1) * 1e9, high=np.ones(n + 1) * 1e9, dtype=np.float64)

                return Bounded

            kw["cls_hook"] = hook
    ab = None if rng.random() < 0.3 else np.array([[-3.0, 4.0 + k] for k in range(K)]).reshape(K, 2)
    r = envs.Run(ctx, network, K=K, observation=spec, aux_bounds=ab, **kw)
    obs, _ = r.reset(seed=int(rng.integers(1 << 30)))

    def verify(vec, what):
        if exp is not None:
            check_obs(ctx, r, obs, exp, aux_of(r, vec), what)
        else:
            st = r.env.state
            ctx.check(seen and np.array_equal(seen[-1], st), "callable-argument", "the callable received %r, the state is %r" % (seen[-1] if seen else None, st), **r.info())
            ctx.close(obs, np.concatenate([st[: len(obs) - 1] * 2.0, [float(np.sum(st))]]), 1e-12, "callable-result", what, **r.info())
            ctx.close(st, work.expected_state_vector(net, r.env.simulator.state, aux_of(r, vec)), 0.0, "callable-state", what, **r.info())
            common(ctx, r, obs)
            ctx.nontrivial("callable", work.state_key(r.env.simulator.state))

    verify(r.last_init, "reset")
    for k in range(int(rng.integers(2, 5))):
        obs, _, term, _, _ = r.step()
        if term:
            ctx.check(obs.shape == r.env.observation_space.shape, "terminal-shape", "%r" % (obs.shape,), **r.info())
            obs, _ = r.reset()
            verify(r.last_init, "reset")
            continue
        verify(r.last_vars, "step")
    if ctx.idx == 0:
        ctx.sample({"kind": kind, "spec": spec if not callable(spec) else "callable", "observation": obs})
