"""C18: invalid environment arguments, vectors and actions are rejected."""
import copy

import numpy as np

from vmon import envs, gen, ref, seeded_env as se, work

RULE = (
    "valid configurations of environments on random networks with one argument, observation tuple, vector or action "
    "element made invalid at a random place and by a small or large amount; the documented error class must be raised, "
    "valid and boundary values accepted; after a rejected action the environment (state, costs, clock, random state, "
    "next steps) is compared with a twin which never saw it; non-trivial = distinct (rule, place, amount)"
)
ASSUMPTIONS = ["actions outside the action space raise AssertionError (documented by the tests)", "python is not run with -O"]
MIN = {"invalid_args": 250, "valid_args": 30, "bad_vectors": 60, "bad_actions": 250, "unchanged_checks": 60, "infeasible_inits": 4, "distinct_nontrivial": 250}


CASE_CPU_S = {"quick": 300, "thorough": 400}


def plan(tier):
    q = tier == "quick"
    return [("args", 90 if q else 2500), ("valid", 60 if q else 1500), ("vectors", 60 if q else 1500), ("actions", 60 if q else 2000), ("init100", 6 if q else 60), ("easy", 8 if q else 150)]


def amount(rng):
    return float(gen.pick(rng, [1e-9, 1e-3, 1.0, 1e6]))


def base_cfg(rng):
    network = gen.network(rng, n_bus=int(rng.integers(2, 6)), stress=0.3, n_load=int(rng.integers(1, 3)), n_gen=1, n_des=1)
    K = int(rng.integers(1, 4))
    cfg = dict(network=network, observation="state", K=K, delta_t=0.5, gamma=0.9, lamb=10, aux_bounds=None, costs_clipping=(1, 10))
    if rng.random() < 0.5:
        cfg["aux_bounds"] = np.array([[-1.0, 1.0]] * K)
    return cfg, ref.Net(network)


def valid_obs(rng, net, K):
    from props import c12

    return c12.random_spec(rng, net, K)[0]


def obs_rule(f, cls):
    """Insert a bad tuple at a random position of a valid observation list."""

    def g(rng, cfg, net):
        spec = valid_obs(rng, net, cfg["K"])
        bad = f(rng, cfg, net)
        pos = int(rng.integers(0, len(spec) + 1))
        spec.insert(pos, bad)
        cfg["observation"] = spec
        return repr(bad)

    return cls, g


def arg_rule(cls, **kw):
    def g(rng, cfg, net):
        for k, v in kw.items():
            cfg[k] = v(rng, cfg) if callable(v) else v
        return repr({k: cfg[k] for k in kw})

    return cls, g


def bad_id(rng, ids):
    """An ID which does not exist."""
    return int(gen.pick(rng, [max(ids) + 1, max(ids) + 1000, -1]))


def rules():
    from props import c12

    d = {}
    d["K"] = arg_rule("ArgsError", K=lambda rng, c: -int(rng.integers(1, 5)), aux_bounds=lambda rng, c: None)
    d["delta_t<0"] = arg_rule("ArgsError", delta_t=lambda rng, c: -amount(rng))
    d["delta_t=0"] = arg_rule("ArgsError", delta_t=lambda rng, c: gen.pick(rng, [0, 0.0]))
    d["lamb<0"] = arg_rule("ArgsError", lamb=lambda rng, c: -amount(rng))
    d["gamma<0"] = arg_rule("ArgsError", gamma=lambda rng, c: -amount(rng))
    d["gamma>1"] = arg_rule("ArgsError", gamma=lambda rng, c: 1 + amount(rng))
    d["aux-short"] = arg_rule("ArgsError", aux_bounds=lambda rng, c: np.zeros((c["K"] - 1, 2)))
    d["aux-long"] = arg_rule("ArgsError", aux_bounds=lambda rng, c: np.zeros((c["K"] + 1, 2)))
    d["obs-type"] = arg_rule("ArgsError", observation=lambda rng, c: gen.pick(rng, ["stat", "", "State", 3, None, ("dev_p", "all"), {"dev_p": "all"}]))

    def q_of(rng, cfg, net, kinds=None):
        qs = [q for q in ref.QUANTITIES if (kinds is None or q.split("_")[0] in kinds)]
        return gen.pick(rng, qs)

    d["obs-quantity"] = obs_rule(lambda rng, c, n: (gen.pick(rng, ["dev_x", "bus", "p", "branch_v", "soc", "AUX", "dev_P"]), "all"), "ObsNotSupportedError")
    d["obs-unit"] = obs_rule(lambda rng, c, n: (lambda q: (q, "all", gen.pick(rng, [u for u in ("MW", "MVAr", "kV", "degree", "rad", "kA", "MWh", "W", "p.u.", "mw") if u not in ref.QUANTITIES[q]])))(q_of(rng, c, n)), "UnitsNotSupportedError")
    d["obs-unit-aux"] = obs_rule(lambda rng, c, n: ("aux", "all", gen.pick(rng, ["pu", "MW", ""])), "UnitsNotSupportedError")

    def obs_id(rng, c, n):
        q = q_of(rng, c, n)
        ids = c12.ids_of(n, q, c["K"])
        if q.startswith("branch"):
            f, t = gen.pick(rng, ids)
            wrong = gen.pick(rng, [(t, f), (f, f), (max(n.bus_ids) + 1, t)])
        elif q in ("des_soc", "gen_p_max") and rng.random() < 0.6:
            wrong = gen.pick(rng, [i for i in n.ids if i not in ids])
        else:
            wrong = bad_id(rng, ids or [0])
        good = [ids[int(j)] for j in rng.integers(0, len(ids), size=int(rng.integers(0, 3)))] if ids else []
        good.insert(int(rng.integers(0, len(good) + 1)), wrong)
        return (q, good)

    d["obs-id"] = obs_rule(obs_id, "ObsSpaceError")
    d["obs-aux-high"] = obs_rule(lambda rng, c, n: ("aux", [0, c["K"] + int(rng.integers(0, 3))]), "ObsSpaceError")
    d["obs-aux-negative"] = obs_rule(lambda rng, c, n: ("aux", [-int(rng.integers(1, 4))]), "ObsSpaceError")
    d["obs-short"] = obs_rule(lambda rng, c, n: ("dev_p",), "ObsSpaceError")
    d["obs-long"] = obs_rule(lambda rng, c, n: ("dev_p", "all", "MW", "extra"), "ObsSpaceError")
    d["obs-nodes"] = obs_rule(lambda rng, c, n: ("dev_p", gen.pick(rng, ["everything", 0, None, "ALL"])), "ObsSpaceError")
    return d


RULES = None


def make(cfg, init_fn=None, vars_fn=None):
    c = dict(cfg)
    return work.make_env(c.pop("network"), c.pop("observation"), c.pop("K"), **c, init_fn=init_fn, vars_fn=vars_fn)


def show(cfg):
    return {k: (gen.describe(v) if k == "network" else v) for k, v in cfg.items()}


def run(ctx, kind):
    {"args": args_case, "valid": valid_case, "vectors": vectors_case, "actions": actions_case, "init100": init100_case, "easy": easy_case}[kind](ctx)


def args_case(ctx):
    global RULES
    if RULES is None:
        RULES = rules()
    import gym_anm.errors as errors

    rng = ctx.rng
    names = list(RULES)
    cfg0, net = base_cfg(rng)
    for j in range(4):
        name = names[(ctx.idx * 4 + j) % len(names)]
        cls, f = RULES[name]
        cfg = dict(cfg0)
        what = f(rng, cfg, net)
        ctx.evaluated()
        ctx.count("invalid_args")
        want = getattr(errors, cls)
        try:
            make(cfg)
        except want:
            ctx.check(True, "rejected")
            ctx.nontrivial(name, what)
        except Exception as e:
            ctx.check(False, "wrong-error:" + name, "'%s' (%s) raised %s(%s) instead of %s" % (name, what, type(e).__name__, e, cls), **show(cfg))
        else:
            ctx.check(False, "accepted-invalid:" + name, "'%s' (%s) was accepted" % (name, what), **show(cfg))
    for name in ("ArgsError", "ObsSpaceError", "EnvInitializationError", "EnvNextVarsError"):
        ctx.check(issubclass(getattr(errors, name), errors.ANMEnvConfigurationError), "error-hierarchy", name)
    if ctx.idx == 0:
        ctx.sample({"rule": name, "what": what})


def valid_case(ctx):
    rng = ctx.rng
    cfg, net = base_cfg(rng)
    K = cfg["K"] = int(gen.pick(rng, [0, 0, 1, 2, 5]))
    cfg["aux_bounds"] = gen.pick(rng, [None, np.array([[-1.0, 1.0]] * K).reshape(K, 2), [[-1.0, 1.0]] * K])
    cfg["delta_t"] = gen.pick(rng, [1e-6, 1, 24.0, 0.25, 1000.0])
    cfg["lamb"] = gen.pick(rng, [0, 0.0, 1e6, 1])
    cfg["gamma"] = gen.pick(rng, [0, 1, 0.0, 1.0, 0.5])
    cfg["costs_clipping"] = gen.pick(rng, [None, (None, None), (1, None), (None, 5), (0.5, 0.5)])
    cfg["observation"] = gen.pick(rng, ["state", (lambda s: s), valid_obs(rng, net, K)])
    ctx.evaluated()
    ctx.count("valid_args")
    try:
        env = make(cfg, lambda e: np.zeros(2 * len(net.ids) + len(net.des) + len(net.gens) + K), lambda e, s: np.zeros(len(net.loads) + len(net.gens) + K))
    except Exception as e:
        ctx.check(False, "rejected-valid", "a valid configuration was rejected: %s(%s)" % (type(e).__name__, e), **show(cfg))
        return
    obs, _ = env.reset(seed=1)
    ctx.check(env.observation_space.contains(obs), "unusable", "%r" % (obs,), **show(cfg))
    ctx.nontrivial("valid", ctx.idx)


def vectors_case(ctx):
    from gym_anm.errors import EnvInitializationError, EnvNextVarsError

    rng = ctx.rng
    network = gen.network(rng, stress=0.3)
    r = envs.Run(ctx, network, calm=True)
    info = r.info()
    delta = int(gen.pick(rng, [-1, 1, 1, 3, -2, 10]))
    good = r.good_init()

    def resize(v):
        if delta > 0:
            return np.concatenate([v, rng.uniform(-1, 1, size=delta)])
        return v[: len(v) + delta]

    for v, when in ((resize(good), "init"),):
        if len(v) == len(good):
            continue
        ctx.count("bad_vectors")
        ctx.evaluated()
        raised(ctx, lambda: r.reset(init=v), EnvInitializationError, "init-size", "an initial state of size %d instead of %d" % (len(v), len(good)), info)
        ctx.nontrivial("init", work.net_key(r.net), delta)
    r.reset(init=good)
    ok = r.random_vars()
    a = work.sample_action(rng, r.env.action_space)
    v = resize(ok)
    if len(v) != len(ok):
        ctx.count("bad_vectors")
        ctx.evaluated()
        raised(ctx, lambda: r.step(a, v), EnvNextVarsError, "vars-size", "internal variables of size %d instead of %d" % (len(v), len(ok)), info)
        ctx.nontrivial("vars", work.net_key(r.net), delta)
    # The environment still works with well-formed vectors.
    r.reset(init=good)
    r.step(a, ok)


def raised(ctx, f, cls, mech, msg, info):
    try:
        f()
    except cls:
        return ctx.check(True, mech)
    except Exception as e:
        return ctx.check(False, mech, "%s raised %s(%s) instead of %s" % (msg, type(e).__name__, e, cls.__name__), **info)
    return ctx.check(False, mech, "%s was accepted (expected %s)" % (msg, cls.__name__), **info)


def bad_actions(rng, space):
    """[(what, action)] outside the action space."""
    n = space.shape[0]
    good = work.sample_action(rng, space)
    out = [("longer", np.concatenate([good, [0.0]])), ("2-d", good.reshape(1, -1))]
    if n:
        out += [("shorter", good[:-1]), ("scalar", 0.0)]
        k = int(rng.integers(n))
        x = good.copy()
        x[k] = np.nan
        out.append(("NaN at %d" % k, x))
        out.append(("None", None))
        for side in (1, -1):
            for _ in range(2):
                k = int(rng.integers(n))
                b = space.high[k] if side > 0 else space.low[k]
                if not np.isfinite(b):
                    continue
                x = good.copy()
                x[k] = b + side * amount(rng) * max(1.0, abs(b))
                if x[k] == b:
                    continue
                out.append(("element %d %s bound by %r" % (k, "above" if side > 0 else "below", x[k] - b), x))
            x = good.copy()
            if np.isfinite(space.high[k] if side > 0 else space.low[k]):
                x[k] = side * np.inf
                out.append(("infinite element %d" % k, x))
        out.append(("list", list(good)))
        out.append(("complex", good + 0j))
    return out


def fingerprint(env):
    sim = env.simulator
    return (
        env.state.tobytes(),
        envs.flat(sim.state).tobytes(),
        env.timestep,
        env.e_loss,
        env.penalty,
        bool(env.terminated),
        repr(env.np_random.bit_generator.state),
        str(getattr(env, "date", None)),
        getattr(env, "year_count", None),
        repr({i: (getattr(d, "soc", None), getattr(d, "p", None), getattr(d, "q", None)) for i, d in sim.devices.items()}),
    )


def try_bad(ctx, env, info, twin=None):
    rng = ctx.rng
    for what, a in bad_actions(rng, env.action_space):
        before = fingerprint(env)
        ctx.count("bad_actions")
        ctx.evaluated()
        if what in ("list", "complex"):
            # Box converts lists; complex numbers cannot be cast. Whether a list
            # is accepted is up to Gymnasium: it must just not be half-applied.
            try:
                copy.deepcopy(env).step(a) if what == "complex" else None
            except AssertionError:
                pass
            else:
                ctx.check(what != "complex", "accepted:complex", "a complex action was accepted", **info)
            continue
        raised(ctx, lambda: env.step(a), AssertionError, "bad-action", "an invalid action (%s: %r)" % (what, a), info)
        ctx.check(fingerprint(env) == before, "rejected-action-changes", "a rejected action (%s) changed the environment" % what, **info)
        ctx.count("unchanged_checks")
        ctx.nontrivial(what, env.action_space.shape, env.timestep)


def actions_case(ctx):
    rng = ctx.rng
    if rng.random() < 0.5:
        cls, args, network = se.build(ctx.seed, 9000 + ctx.idx)
        env, twin = cls(*args), cls(*args)
        info = {"network": gen.describe(network), "env": "seeded"}
        seed = int(rng.integers(1 << 30))
        env.reset(seed=seed)
        twin.reset(seed=seed)
        for _ in range(int(rng.integers(1, 4))):
            a = work.sample_action(rng, env.action_space)
            try_bad(ctx, env, info)
            x, y = env.step(a), twin.step(a.copy())
            ctx.check(se.record(env, x) == se.record(twin, y) or repr(se.record(env, x)) == repr(se.record(twin, y)), "rejected-action-later", "a step after rejected actions differs from a twin's", **info)
        return
    network = gen.network(rng, stress=0.5)
    bomb = envs.add_bomb(rng, network)
    r = envs.Run(ctx, network, bomb, calm=True)
    r.reset(init=r.good_init())
    try_bad(ctx, r.env, r.info())
    # Actions exactly on the bounds are accepted.
    for mode in ("low", "high", "corner"):
        r.step(work.sample_action(rng, r.env.action_space, mode))
        ctx.count("bound_actions")
        if r.env.terminated:
            break
    if not r.env.terminated:
        r.step(explode=True)
    if r.env.terminated:
        try_bad(ctx, r.env, r.info())
        ctx.count("bad_in_terminal")


class Endless(Exception):
    pass


def init100_case(ctx):
    from gym_anm.errors import EnvInitializationError

    rng = ctx.rng
    network = gen.network(rng, n_bus=int(rng.integers(2, 5)), stress=0.3)
    bomb = envs.add_bomb(rng, network)
    r = envs.Run(ctx, network, bomb, calm=True)
    good = r.good_init()
    k = r.net.ids.index(bomb)
    bad = good.copy()
    bad[k] = -1e5 * r.net.base
    draws, n_bad = [], [0]

    def script():
        draws.append(1)
        if len(draws) > 500:
            raise Endless("more than 500 initial states drawn")
        return bad.copy() if len(draws) <= n_bad[0] else good.copy()

    r.random_init = script
    info = r.info()
    # Several resets of one environment: the count of infeasible states starts
    # again at each of them, whatever happened before.
    for n in [[99, int(rng.integers(2, 99))], [10**6, 60, 45], [50, 55, 10**6]][ctx.idx % 3]:
        n_bad[0] = n
        del draws[:]
        ctx.evaluated()
        ctx.count("infeasible_inits")
        if n < 100:
            try:
                r.reset()
            except EnvInitializationError as e:
                ctx.check(False, "init-99", "%d infeasible initial states before a good one: %r after %d draws" % (n, e, len(draws)), **info)
                continue
            ctx.check(len(draws) == n + 1 and not r.env.terminated, "init-99", "%d draws for %d infeasible states" % (len(draws), n), **info)
            if rng.random() < 0.5:
                r.step()
        else:
            raised(ctx, lambda: r.reset(), EnvInitializationError, "init-100", "an endless sequence of infeasible initial states", info)
            ctx.check(len(draws) == 100, "init-100-draws", "%d initial states drawn instead of 100" % len(draws), **info)
        ctx.nontrivial("init100", n, work.net_key(r.net))
    r.random_init = lambda: good.copy()
    r.reset()
    ctx.check(not r.env.terminated, "init-100-recovery", "", **info)


def easy_case(ctx):
    from gym_anm.envs import ANM6Easy

    rng = ctx.rng
    env, twin = ANM6Easy(), ANM6Easy()
    seed = int(rng.integers(1 << 30))
    env.reset(seed=seed)
    twin.reset(seed=seed)
    info = {"env": "ANM6Easy", "seed": seed}
    for _ in range(4):
        try_bad(ctx, env, info)
        a = work.sample_action(rng, env.action_space)
        x, y = env.step(a), twin.step(a.copy())
        ctx.check(repr(se.record(env, x)) == repr(se.record(twin, y)), "rejected-action-later", "a step after rejected actions differs from a twin's", **info)
