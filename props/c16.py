"""C16: caller data is never modified and returned data never changes afterwards."""
import copy
import datetime as dt

import numpy as np

from vmon import envs, gen, ref, work

RULE = (
    "everything the caller supplies (network arrays, aux bounds, observation spec, actions, initial states, internal "
    "variables, set-point dictionaries) is snapshotted, half of the arrays are also write-protected, and compared after "
    "every call; everything handed out (observations, state vectors, full-state dictionaries) is snapshotted and compared "
    "after every later call, and returned observations are overwritten with garbage while a twin environment runs "
    "undisturbed; non-trivial = distinct run with at least one later step or collapse after a hand-out"
)
ASSUMPTIONS = ["full-state dictionaries are treated as read-only by the caller"]
MIN = {"handed_out": 700, "recheck": 3000, "distinct_nontrivial": 120, "garbage_obs": 250, "after_terminal": 6, "callable_inplace": 5}
QUICK_X = 2


def plan(tier):
    q = tier == "quick"
    return [("sim", 60 if q else 2000), ("env", 70 if q else 2500), ("garbage", 60 if q else 2000), ("easy", 12 if q else 300)]


def snap(x):
    return copy.deepcopy(x)


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype == object:
            return all(equal(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return a.tobytes() == b.tobytes()
    if isinstance(a, (float, np.floating)):
        return a == b or (a != a and b != b)
    if callable(a):
        return True
    return a == b


class Watch:
    """Objects which must keep the value they have now."""

    def __init__(self, ctx, info):
        self.ctx, self.info, self.items = ctx, info, []

    def add(self, name, obj, mech):
        self.items.append((name, obj, snap(obj), mech))
        self.ctx.count("handed_out" if mech == "returned-data-changed" else "supplied")

    def recheck(self, when):
        for name, obj, was, mech in self.items:
            self.ctx.count("recheck")
            if not self.ctx.check(equal(obj, was), mech, "%s changed %s" % (name, when), was=was, now=obj, **self.info()):
                self.items = [it for it in self.items if it[1] is not obj]
                return


def protect(rng, arr):
    if isinstance(arr, np.ndarray) and rng.random() < 0.5:
        arr.flags.writeable = False
    return arr


def run(ctx, kind):
    {"sim": sim_case, "env": env_case, "garbage": garbage_case, "easy": easy_case}[kind](ctx)


def sim_case(ctx):
    rng = ctx.rng
    network = gen.network(rng, stress=float(gen.pick(rng, [0.3, 1.0])))
    bomb = envs.add_bomb(rng, network)
    original = snap(network)
    for k in ("bus", "device", "branch"):
        protect(rng, network[k])
    net = ref.Net(network)
    delta, lamb = float(gen.pick(rng, [0.25, 1.0])), 10
    sim = work.Simulator(network, delta, lamb)
    log = []
    w = Watch(ctx, lambda: {"network": gen.describe(network), "delta_t": delta, "log": log[-3:]})
    w.items.append(("network dictionary", network, original, "network-modified"))
    w.recheck("by the constructor")
    w.add("state_bounds", sim.state_bounds, "returned-data-changed")
    w.add("action space", sim.get_action_space(), "returned-data-changed")
    w.add("rendering specs", sim.get_rendering_specs(), "returned-data-changed")
    for _ in range(int(rng.integers(3, 9))):
        if sim.state is None or rng.random() < 0.2:
            init = gen.init_state(rng, net)
            k = net.ids.index(bomb)
            init[k] = init[len(net.ids) + k] = 0.0
            init = protect(rng, init)
            w.add("initial state", init, "init-state-modified")
            sim.reset(init)
            log.append(("reset", init))
            w.add("full state after reset", sim.state, "returned-data-changed")
            w.recheck("by reset")
        else:
            req = gen.request(rng, net)
            req[0][bomb] = -1e5 * net.base if rng.random() < 0.15 else 0.0
            for name, d in zip(("P_load", "P_potential", "P_set_points", "Q_set_points"), req):
                w.add(name, d, "set-points-modified")
            st, _, _, _, conv = sim.transition(*req)
            log.append(("transition", req))
            w.add("full state returned by transition", st, "returned-data-changed")
            w.add("simulator.state", sim.state, "returned-data-changed")
            w.recheck("by transition")
            ctx.count("collapses", not conv)
    ctx.evaluated()
    ctx.nontrivial(work.net_key(net), work.state_key(sim.state))
    if ctx.idx == 0:
        ctx.sample({"kind": "sim", "network": gen.describe(network), "log": log[-2:]})


OBS = [
    ("state", lambda K: "state"),
    ("list", lambda K: [("bus_v_magn", "all"), ("dev_q", "all", "pu"), ("aux", "all", None)]),
    ("lists", lambda K: [["bus_v_magn", "all"], ["dev_q", "all", "pu"], ["branch_p", "all"], ["aux", "all", None]]),
    ("identity", lambda K: (lambda s: s)),
    ("view", lambda K: (lambda s: s[:1])),
    ("inplace", lambda K: _inplace),
    ("aux-view", lambda K: (lambda s: s[-max(K, 1) :])),
]


def _inplace(s):
    """A user's observation function which scales its argument in place."""
    s *= 2.0
    s += 1.0
    return s


def build(ctx, obs_name=None):
    rng = ctx.rng
    network = gen.network(rng, stress=float(gen.pick(rng, [0.3, 0.8])))
    bomb = envs.add_bomb(rng, network)
    K = int(rng.integers(0, 4))
    name, mk = OBS[int(rng.integers(len(OBS)))] if obs_name is None else [o for o in OBS if o[0] == obs_name][0]
    ctx.count("callable_inplace", name == "inplace")
    return network, bomb, K, name, mk(K)


def env_case(ctx):
    rng = ctx.rng
    network, bomb, K, name, obs = build(ctx)
    original, obs_original = snap(network), snap(obs)
    for k in ("bus", "device", "branch"):
        protect(rng, network[k])
    aux = None if rng.random() < 0.3 else protect(rng, np.array([[-20.0, 20.0]] * K).reshape(K, 2))
    r = envs.Run(ctx, network, bomb, K=K, observation=obs, aux_bounds=aux)
    w = Watch(ctx, lambda: {"observation": name, **r.info()})
    w.items.append(("network dictionary", network, original, "network-modified"))
    if isinstance(obs, list):
        w.items.append(("observation specification", obs, obs_original, "obs-spec-modified"))
    w.add("aux bounds", aux, "aux-bounds-modified")
    w.recheck("by the constructor")
    fresh = True
    for _ in range(int(rng.integers(3, 9))):
        if fresh or rng.random() < 0.15:
            init = protect(rng, r.good_init())
            w.add("vector returned by init_state", init, "init-state-modified")
            o, _ = r.reset(init=init)
            fresh = False
            what = "reset"
        else:
            a = protect(rng, work.sample_action(rng, r.env.action_space))
            v = protect(rng, r.random_vars(explode=bool(rng.random() < 0.15)))
            w.add("action", a, "action-modified")
            w.add("vector returned by next_vars", v, "vars-modified")
            o, _, term, _, _ = r.step(a, v)
            what = "step"
            ctx.count("after_terminal", bool(term))
        w.add("observation returned by " + what, o, "returned-data-changed")
        w.add("env.state after " + what, r.env.state, "returned-data-changed")
        w.add("env.simulator.state after " + what, r.env.simulator.state, "returned-data-changed")
        w.recheck("by " + what)
    ctx.evaluated()
    ctx.nontrivial(name, work.net_key(r.net), work.state_key(r.env.simulator.state))


def garbage_case(ctx):
    """Overwriting returned observations does not affect the environment."""
    rng = ctx.rng
    network, bomb, K, name, obs = build(ctx)
    kw = dict(K=K, dt=0.5, gamma=0.9, lamb=10, clip=(1.0, 10.0), aux_bounds=None)
    r1 = envs.Run(ctx, network, bomb, observation=obs, **kw)
    # The twin observes through the plain state: nothing is shared by design.
    r2 = envs.Run(ctx, network, bomb, observation=obs if name != "inplace" else (lambda s: s * 2.0 + 1.0), **kw)
    info = lambda: {"observation": name, **r1.info()}

    def compare(x, y, when):
        ctx.check(np.array_equal(r1.env.state, r2.env.state, equal_nan=True), "garbage-leaks-state", "after modifying returned observations, env.state is %s %s instead of %s" % (r1.env.state, when, r2.env.state), **info())
        ctx.check(envs.same_state(r1.env.simulator.state, r2.env.simulator.state), "garbage-leaks-simulator", "after modifying returned observations the simulated state differs %s" % when, **info())
        ctx.check(np.array_equal(x[0], y[0], equal_nan=True), "garbage-leaks-observation", "after modifying returned observations, the observation is %s %s instead of %s" % (x[0], when, y[0]), **info())
        if len(x) > 2:
            ctx.check(x[1] == y[1] and x[2] == y[2], "garbage-leaks-reward", "%r instead of %r" % (x[1:3], y[1:3]), **info())
        o = x[0]
        if isinstance(o, np.ndarray) and o.flags.writeable:
            o[...] = gen.pick(rng, [1e6, -3.5, np.nan])
            ctx.count("garbage_obs")
        info_d = x[-1]
        if isinstance(info_d, dict):
            info_d["garbage"] = 1

    init = r1.good_init()
    compare(r1.reset(init=init.copy()), r2.reset(init=init.copy()), "after reset")
    for _ in range(int(rng.integers(3, 8))):
        a = work.sample_action(rng, r1.env.action_space)
        v = r1.random_vars(explode=bool(rng.random() < 0.1))
        seen = len(r1.calls)
        x, y = r1.step(a.copy(), v.copy()), r2.step(a.copy(), v.copy())
        s1 = [c[1] for c in r1.calls[seen:] if c[0] == "next_vars"]
        s2 = [c[1] for c in r2.calls[-len(s1) :] if c[0] == "next_vars"] if s1 else []
        ctx.check(len(s1) == len(s2) and all(np.array_equal(p, q, equal_nan=True) for p, q in zip(s1, s2)), "garbage-leaks-next-vars", "next_vars received %s instead of %s" % (s1, s2), **info())
        compare(x, y, "after a step")
        ctx.check(x[-1] == {"garbage": 1} and y[-1] == {}, "info-shared", "info dicts %r %r" % (x[-1], y[-1]))
        if x[2]:
            ctx.count("after_terminal")
            if rng.random() < 0.5:
                init = r1.good_init()
                compare(r1.reset(init=init.copy()), r2.reset(init=init.copy()), "after reset")
    ctx.evaluated()
    ctx.nontrivial("garbage", name, work.net_key(r1.net), work.state_key(r1.env.simulator.state))


def easy_case(ctx):
    """ANM6Easy: the shared network dictionary and the profiles stay intact."""
    from gym_anm.envs import ANM6Easy
    from gym_anm.envs.anm6_env.network import network

    rng = ctx.rng
    w = Watch(ctx, lambda: {"env": "ANM6Easy"})
    w.items.append(("ANM6 network dictionary", network, snap(network), "network-modified"))
    env = ANM6Easy()
    for name in ("P_loads", "P_maxs", "aux_bounds", "costs_clipping"):
        w.add(name, getattr(env, name), "profile-modified")
    ref_env = ANM6Easy()
    # The reset options belong to the caller, who uses them for both resets.
    options = gen.pick(rng, [{"date_init": dt.datetime(2020, int(rng.integers(1, 13)), 3)}, {"date_init": dt.datetime(2021, 1, 5), "mine": [1]}, {}, {"mine": {"x": 1}}])
    w.add("reset options", options, "options-modified")
    o, _ = env.reset(seed=ctx.idx, options=options)
    w.recheck("by reset")
    if rng.random() < 0.5:
        o, _ = env.reset(seed=ctx.idx, options=options)
        w.recheck("by reset")
    ref_env.reset(seed=ctx.idx, options=snap(options))
    ctx.check(env.date == ref_env.date or "date_init" not in options, "options-modified", "the same options give the dates %s and %s" % (env.date, ref_env.date))
    w.add("observation", o.copy(), "returned-data-changed")
    n = int(rng.integers(20, 110))
    for k in range(n):
        a = work.sample_action(rng, env.action_space)
        b = a.copy()
        x, y = env.step(a), ref_env.step(b)
        ctx.check(np.array_equal(x[0], y[0]) and x[1] == y[1], "garbage-leaks-observation", "step %d: %s instead of %s" % (k, x[0], y[0]))
        if k % 10 == 0:
            w.add("observation", x[0], "returned-data-changed")
            w.add("env.state", env.state, "returned-data-changed")
            w.add("full state", env.simulator.state, "returned-data-changed")
        elif x[0].flags.writeable:
            x[0][...] = 1e9
            ctx.count("garbage_obs")
        w.add("action", a, "action-modified") if k % 10 == 0 else None
        if x[2]:
            break
        if k % 5 == 0:
            w.recheck("by ANM6Easy.step")
    w.recheck("by ANM6Easy")
    ctx.evaluated()
    ctx.nontrivial("easy", n)
