"""C28: environments conform to the Gymnasium API."""
import copy
import importlib
import math
import pickle
import warnings

import numpy as np

from vmon import envs, gen, ref, seeded_env as se, work
from vmon.core import HarnessError, Skip

RULE = (
    "ANM6Easy-v0 made by its ID and seed-driven environments on random networks (some collapsing at random times) are "
    "observed by a protocol monitor on every reset/step (types, dtypes, shapes, membership in the spaces, seeding), run "
    "through Gymnasium's own checkers, and compared step by step with an unwrapped twin inside wrappers and synchronous / "
    "asynchronous vector environments; non-trivial = distinct (environment, wrapper stack, action sequence)"
)
ASSUMPTIONS = ["the observation of a terminal state is arbitrary (zeros): only its shape and dtype are checked", "user environments are seed-driven through self.np_random"]
LIMIT_MEMORY = False
MIN = {"steps": 4000, "resets": 200, "wrapped_steps": 2000, "vector_steps": 300, "async_steps": 20, "terminal_wrapped": 30, "checker_runs": 20, "made": 15, "autoresets": 20, "typed_steps": 200, "distinct_nontrivial": 100}
DAEMON = False
CASE_CPU_S = {"quick": 300, "thorough": 400}
GRACE = 120


def plan(tier):
    q = tier == "quick"
    return [("protocol", 70 if q else 1500), ("make", 16 if q else 200), ("wrap", 84 if q else 1500), ("sync", 24 if q else 400), ("async", 4 if q else 60), ("checker", 20 if q else 300), ("types", 60 if q else 1000)]


def run(ctx, kind):
    try:
        {"protocol": protocol_case, "make": make_case, "wrap": wrap_case, "sync": vector_case, "async": vector_case, "checker": checker_case, "types": types_case}[kind](ctx)
    except Exception as e:
        # (100 random initial states of a random network may all be infeasible: C14's subject)
        if "Initialization" in type(e).__name__:
            raise Skip("no-feasible-initial-state")
        raise


# --- environments --------------------------------------------------------------
def bomb_class(network, K, bomb, p):
    from gym_anm.envs import ANMEnv

    net = ref.Net(network)
    kb = net.loads.index(bomb) if bomb is not None else None
    kd = net.ids.index(bomb) if bomb is not None else None

    class UserEnv(ANMEnv):
        def init_state(self):
            s = gen.init_state(self.np_random, net, self.np_random.uniform(-1, 1, size=K), "inside")
            if kb is not None:
                s[kd] = s[len(net.ids) + kd] = 0
            return s

        def next_vars(self, s_t):
            v = work.random_vars(self.np_random, net, self.np_random.uniform(-1, 1, size=K), "inside")
            if kb is not None:
                v[kb] = -1e5 * net.base if self.np_random.random() < p else 0.0
            return v

        def close(self):
            pass

    return UserEnv


def factory(ctx, terminal=None, finite=False):
    """(function making fresh identical environments, label, net or None)"""
    rng = ctx.rng
    if rng.random() < 0.35 and not terminal:
        from gym_anm.envs import ANM6Easy

        return (lambda: ANM6Easy()), "easy"
    for _ in range(8):
        made = user(ctx, finite)
        if made is not None:
            return made
    raise Skip("no-feasible-initial-state")


def user(ctx, finite):
    rng = ctx.rng
    network = gen.network(rng, stress=0.3, n_bus=int(rng.integers(2, 6)), finite=finite)
    bomb = envs.add_bomb(rng, network)
    K = int(rng.integers(0, 3))
    cls = bomb_class(network, K, bomb, float(gen.pick(rng, [0.05, 0.15, 0.4])))
    net = ref.Net(network)
    obs = gen.pick(rng, ["state", [("bus_v_magn", "all"), ("branch_p", "all", "pu")], [("dev_p", "all"), ("bus_i_ang", "all", "rad")]])
    clip = gen.pick(rng, [(1, 100), None, (0.5, None)])
    gamma, lamb = float(rng.uniform(0, 0.99)), float(rng.uniform(0, 1000))
    # the initial state has to be feasible often enough (reset() gives up after 100)
    if not se.startable(cls, network, (obs, K, 0.5, gamma, lamb, None, clip)):
        return None
    return (lambda: cls(copy.deepcopy(network), obs, K, 0.5, gamma, lamb, None, clip)), ("user", network["bus"].shape[0], ctx.idx)


def action_of(rng, space):
    return work.sample_action(rng, space).astype(space.dtype)


# --- the protocol monitor ----------------------------------------------------------
def check_obs(ctx, env, obs, terminal, what, info):
    sp = env.observation_space
    ctx.check(isinstance(obs, np.ndarray), "obs-type", "%s: observation is %s" % (what, type(obs)), **info)
    obs = np.asarray(obs)
    ctx.check(obs.dtype == sp.dtype and obs.shape == sp.shape, "obs-dtype-shape", "%s: observation %s %s, space %s %s" % (what, obs.dtype, obs.shape, sp.dtype, sp.shape), **info)
    if not terminal:
        ctx.check(sp.contains(obs), "obs-in-space", "%s: observation %s outside of %s" % (what, obs, sp), **info)


def check_reset(ctx, env, out, info):
    ctx.count("resets")
    ctx.evaluated()
    if not ctx.check(isinstance(out, tuple) and len(out) == 2, "reset-result", "reset() returned %r" % (out,), **info):
        return
    check_obs(ctx, env, out[0], False, "reset()", info)
    ctx.check(isinstance(out[1], dict), "reset-info", "reset() returned info %r" % (out[1],), **info)


def check_step(ctx, env, out, info):
    ctx.count("steps")
    ctx.evaluated()
    if not ctx.check(isinstance(out, tuple) and len(out) == 5, "step-result", "step() returned %r" % (out,), **info):
        return
    obs, r, term, trunc, inf = out
    ctx.check(isinstance(term, (bool, np.bool_)), "terminated-type", "terminated is %r (%s)" % (term, type(term)), **info)
    ctx.check(isinstance(trunc, (bool, np.bool_)) and not trunc, "truncated", "truncated is %r" % (trunc,), **info)
    ctx.check(isinstance(r, (float, int, np.floating, np.integer)) and not isinstance(r, bool) and not math.isnan(r), "reward-type", "reward is %r (%s)" % (r, type(r)), **info)
    ctx.check(isinstance(inf, dict), "step-info", "info is %r" % (inf,), **info)
    check_obs(ctx, env, obs, bool(term), "step()", info)
    ctx.count("terminal", bool(term))


def protocol_case(ctx):
    import gymnasium as gym

    rng = ctx.rng
    make, label = factory(ctx)
    env = make()
    info = {"environment": str(label)}
    ctx.check(isinstance(env, gym.Env), "not-an-env", "%s" % (type(env).__mro__,), **info)
    for name in ("action_space", "observation_space"):
        sp = getattr(env, name)
        ctx.check(isinstance(sp, gym.spaces.Box), "space-type", "%s is %r" % (name, sp), **info)
        ctx.check(bool(np.all(sp.low <= sp.high)), "space-bounds", "%s: %s" % (name, sp), **info)
        sp.seed(7)
        a = sp.sample()
        sp.seed(7)
        ctx.check(sp.contains(a) and np.array_equal(a, sp.sample()), "space-sampling", "%s" % name, **info)
    spaces = (env.action_space, env.observation_space)
    s0 = gen.seed(rng)
    seen = []
    for ep in range(3):
        seed = [s0, None, s0][ep]
        out = env.reset(seed=seed) if ep < 2 or rng.random() < 0.5 else env.reset(seed=seed, options={})
        check_reset(ctx, env, out, info)
        seen.append(np.array(out[0]))
        if seed is not None:
            ctx.check(env.np_random_seed == seed, "np-random-seed", "np_random_seed is %r after reset(seed=%r)" % (env.np_random_seed, seed), **info)
        term = False
        for t in range(15):
            a = action_of(rng, env.action_space)
            keep = a.copy()
            out = env.step(a)
            check_step(ctx, env, out, info)
            ctx.check(np.array_equal(a, keep), "action-modified", "step() changed the action", **info)
            if term:
                ctx.check(bool(out[2]), "terminal-left", "a terminal state was left", **info)
            term = bool(out[2])
            if term and t % 2:
                break
    # Gymnasium's seeding contract.
    ctx.check(np.array_equal(seen[0], seen[2]), "seeding", "reset(seed=s) gave %s, later %s" % (seen[0], seen[2]), **info)
    a, b = make(), make()
    a.reset(seed=s0)
    b.reset(seed=s0)
    x, y = a.reset()[0], b.reset()[0]
    ctx.check(np.array_equal(x, y), "seeding-continued", "reset(seed=s), reset() gave %s and %s" % (x, y), **info)
    z = a.reset()[0]
    if label == "easy":
        # a continuous-valued initial state: equal draws mean re-seeding
        ctx.check(not np.array_equal(x, z), "reset-reseeds", "two reset() calls without seed gave the same initial state", **info)
    ctx.check((env.action_space, env.observation_space) == spaces, "spaces-change", "the spaces changed during use", **info)
    ctx.nontrivial(str(label), s0)
    if ctx.idx == 0:
        ctx.sample({"environment": str(label), "last": [str(x) for x in out]})


# --- actions of other types ---------------------------------------------------------
def types_case(ctx):
    """Whatever the type of a member of the action space, it means the same action."""
    rng = ctx.rng
    make, label = factory(ctx)
    sp = make().action_space
    env, twin = make(), make()
    seed = gen.seed(rng)
    same(ctx, env.reset(seed=seed)[0], twin.reset(seed=seed)[0], "types-reset", "reset()", {})
    for t in range(10):
        how = gen.pick(rng, ["float32", "float16", "int64", "int8", "list", "read-only", "strided", "fortran", "subclass"])
        plain = action_of(rng, sp)
        if how in ("float32", "float16"):
            with np.errstate(all="ignore"):
                given = plain.astype(how)
            plain = given.astype(sp.dtype)
        elif how in ("int64", "int8"):
            plain = np.trunc(np.clip(plain, -100, 100)) + 0.0
            given = plain.astype(how)
        elif how == "list":
            given = [float(x) for x in plain]
        elif how == "read-only":
            given = plain.copy()
            given.flags.writeable = False
        elif how == "strided":
            given = np.repeat(plain, 2)[::2]
        elif how == "fortran":
            given = np.asfortranarray(plain)
        else:
            given = plain.view(type("UserArray", (np.ndarray,), {}))
        if not sp.contains(plain) or not sp.contains(given):
            # (rounding left the space)
            plain = given = action_of(rng, sp)
            how = "own"
        info = {"environment": str(label), "type": how, "action": given}
        try:
            out = env.step(given)
        except Exception as e:
            ctx.fail("types-exception", "step() with a %s action: %s: %s" % (how, type(e).__name__, e), **info)
            return
        out2 = twin.step(plain)
        check_step(ctx, env, out, info)
        for k, what in enumerate(("observation", "reward", "terminated")):
            same(ctx, out[k], out2[k], "types-" + what, "step %d, %s action" % (t, how), info)
        ctx.count("typed_steps", how != "own")
        if out[2]:
            break
    ctx.nontrivial("types", str(label), seed)


# --- make and Gymnasium's checkers -----------------------------------------------------
def make_case(ctx):
    import gymnasium as gym

    import gym_anm
    from gym_anm.envs import ANM6Easy

    rng = ctx.rng
    how = gen.pick(rng, ["id", "module-id", "spec", "make_vec", "no-checker"])
    info = {"how": how}
    ctx.check("ANM6Easy-v0" in gym.envs.registration.registry, "not-registered", "ANM6Easy-v0", **info)
    if how == "module-id":
        env = gym.make("gym_anm:ANM6Easy-v0")
    elif how == "spec":
        env = gym.spec("ANM6Easy-v0").make()
    elif how == "no-checker":
        env = gym.make("ANM6Easy-v0", disable_env_checker=True)
    elif how == "make_vec":
        env = gym.make_vec("ANM6Easy-v0", num_envs=2, vectorization_mode="sync")
        ctx.count("made")
        vec_compare(ctx, env, [lambda: ANM6Easy()] * 2, 25, info)
        env.close()
        return
    else:
        env = gym.make("ANM6Easy-v0")
    ctx.count("made")
    ctx.check(type(env.unwrapped) is ANM6Easy, "made-class", "gym.make() gave %r" % env.unwrapped, **info)
    ctx.check(env.spec is not None and env.spec.id == "ANM6Easy-v0", "spec", "spec %r" % (env.spec,), **info)
    ctx.check(env.spec.max_episode_steps is None, "unlimited", "continuing task with max_episode_steps=%r" % (env.spec.max_episode_steps,), **info)
    twin = ANM6Easy()
    ctx.check(env.action_space == twin.action_space and env.observation_space == twin.observation_space, "made-spaces", "", **info)
    compare(ctx, env, twin, gen.seed(rng), 60, info, lambda a: a, lambda out, k: out)
    env.close()


def checker_case(ctx):
    from gymnasium.utils import env_checker

    make, label = factory(ctx)
    env = make()
    info = {"environment": str(label)}
    env.action_space.seed(int(ctx.rng.integers(1 << 30)))
    ctx.count("checker_runs")
    ctx.evaluated()
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            env_checker.check_env(env, skip_render_check=True)
            ctx.check(True, "env-checker")
        except Exception as e:
            text = "%s: %s" % (type(e).__name__, e)
            if "is not within the observation space" in text or "not within the obs" in text or "Initialization" in text:
                # (the arbitrary observation of a terminal state)
                ctx.count("checker_inconclusive")
            else:
                ctx.fail("env-checker", "gymnasium's check_env: " + text, **info)
    for w in caught:
        t = str(w.message)
        if any(k in t for k in ("deprecat", "not within", "reward is NaN", "not deterministic", "should return", "must be", "obs returned")) and "terminal" not in t:
            if "not within" in t or "infinity" in t:
                continue
            ctx.fail("env-checker-warning", t, **info)
    ctx.nontrivial("checker", str(label))


# --- wrappers ------------------------------------------------------------------------------
def same(ctx, got, want, mech, msg, info, tol=0.0):
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if tol == 0:
        ctx.check(g.shape == w.shape and np.array_equal(g, w, equal_nan=True), mech, "%s: %s instead of %s" % (msg, got, want), **info)
    else:
        ctx.close(g, w, tol * (1 + np.abs(w)), mech, msg, **info)


def compare(ctx, env, twin, seed, n, info, act, view, low=None, tol=0.0, limit=None):
    """Drive a wrapped environment and an unwrapped twin in lockstep."""
    rng = ctx.rng
    o, i = env.reset(seed=seed)
    o2, i2 = twin.reset(seed=seed)
    check_reset(ctx, twin, (o2, i2), info)
    same(ctx, o, view((o2, None, None, None, None), 0)[0], "wrapped-reset", "reset()", info, tol)
    k, dead = 0, False
    for t in range(n):
        a = low(rng) if low is not None else action_of(rng, twin.action_space)
        out = env.step(a)
        out2 = twin.step(act(a))
        check_step(ctx, twin, out2, info)
        k += 1
        want = view(out2, k)
        same(ctx, out[0], want[0], "wrapped-observation", "step %d" % t, info, tol)
        same(ctx, out[1], want[1], "wrapped-reward", "step %d" % t, info, tol)
        ctx.check(bool(out[2]) == bool(out2[2]), "wrapped-terminated", "step %d: %s instead of %s" % (t, out[2], out2[2]), **info)
        ctx.check(bool(out[3]) == (limit is not None and k >= limit), "wrapped-truncated", "step %d: truncated is %s" % (t, out[3]), **info)
        ctx.count("wrapped_steps")
        ctx.count("terminal_wrapped", bool(out2[2]))
        dead = dead + 1 if out2[2] else 0
        if dead == 2 or limit is not None and k >= limit:
            if ctx.tired():
                break
            # (a step in the terminal state was taken as well)
            o, _ = env.reset()
            o2, _ = twin.reset()
            k = dead = 0
            same(ctx, o, view((o2, None, None, None, None), 0)[0], "wrapped-reset", "reset() after %d steps" % (t + 1), info, tol)
    ctx.nontrivial(str(info), seed)


def wrap_case(ctx):
    import gymnasium.wrappers as W

    rng = ctx.rng
    which = gen.pick(rng, ["checker", "limit", "stats", "flatten", "rescale", "clip", "treward", "tobs", "stack", "dtype", "filterstack"])
    make, label = factory(ctx, terminal=rng.random() < 0.6, finite=which in ("rescale",))
    env, twin = make(), make()
    info = {"environment": str(label), "wrapper": which}
    act, view, low, limit, tol = (lambda a: a), (lambda out, k: out), None, None, 0.0
    n = 50
    if which == "checker":
        env = W.OrderEnforcing(W.PassiveEnvChecker(env))
    elif which == "limit":
        limit = int(rng.integers(3, 15))
        env = W.TimeLimit(env, limit)
    elif which == "stats":
        env = W.RecordEpisodeStatistics(env)
        return stats(ctx, env, twin, info)
    elif which == "flatten":
        env = W.FlattenObservation(env)
    elif which == "rescale":
        sp = twin.action_space
        if not (np.all(np.isfinite(sp.low)) and np.all(np.isfinite(sp.high)) and np.all(sp.high - sp.low > 1e-3)):
            raise Skip("unbounded-or-constant-actions")
        env = W.RescaleAction(env, np.float64(-1), np.float64(1))
        inner = env.action_space

        def low(r):
            # (the wrapper's own rounding may leave the space at +-1)
            return r.uniform(-0.999, 0.999, size=sp.shape).astype(inner.dtype)

        def act(u):
            return np.clip(sp.low + (np.asarray(u, dtype=float) + 1) / 2 * (sp.high - sp.low), sp.low, sp.high)

        tol = 1e-4
        n = 6  # rounding of actions differs: short, before it can matter
    elif which == "clip":
        env = W.ClipAction(env)
        sp = twin.action_space

        def low(r):
            w = np.where(np.isfinite(sp.high - sp.low), sp.high - sp.low, 1.0) + 1
            return action_of(r, sp) + r.normal(size=sp.shape) * w

        def act(a):
            return np.clip(a, sp.low, sp.high)

    elif which == "treward":
        env = W.TransformReward(env, lambda r: 3 * r + 1)

        def view(out, k):
            return (out[0], None if out[1] is None else 3 * out[1] + 1)

    elif which == "tobs":
        env = W.TransformObservation(env, lambda o: 2 * o, None)

        def view(out, k):
            return (2 * out[0], out[1])

    elif which == "stack":
        env = W.FrameStackObservation(env, 3, padding_type="reset")
        hist = []

        def view(out, k):
            if k == 0:
                hist.clear()
                hist.extend([np.array(out[0])] * 2)
            hist.append(np.array(out[0]))
            return (np.stack(hist[-3:]), out[1])

    elif which == "dtype":
        env = W.DtypeObservation(env, np.float32)

        def view(out, k):
            return (np.asarray(out[0]).astype(np.float32), out[1])

    else:
        limit = int(rng.integers(3, 30))
        env = W.TimeLimit(W.OrderEnforcing(W.PassiveEnvChecker(env)), limit)
        env = W.TransformReward(W.FlattenObservation(env), lambda r: -r)

        def view(out, k):
            return (out[0], None if out[1] is None else -out[1])

    compare(ctx, env, twin, gen.seed(rng), n, info, act, view, low, tol, limit)


def stats(ctx, env, twin, info):
    """RecordEpisodeStatistics sums exactly the rewards of each episode."""
    rng = ctx.rng
    seed = gen.seed(rng)
    env.reset(seed=seed)
    twin.reset(seed=seed)
    total, length = 0.0, 0
    for t in range(60):
        a = action_of(rng, twin.action_space)
        out, out2 = env.step(a), twin.step(a)
        check_step(ctx, twin, out2, info)
        same(ctx, out[0], out2[0], "wrapped-observation", "step %d" % t, info)
        same(ctx, out[1], out2[1], "wrapped-reward", "step %d" % t, info)
        ctx.count("wrapped_steps")
        total, length = total + float(out2[1]), length + 1
        if out2[2]:
            ctx.count("terminal_wrapped")
            e = out[4].get("episode")
            if ctx.check(e is not None, "episode-statistics", "no statistics at the end of an episode", **info):
                same(ctx, e["l"], length, "episode-length", "length", info)
                same(ctx, e["r"], total, "episode-return", "return", info, 1e-6)
            if ctx.tired():
                break
            env.reset()
            twin.reset()
            total, length = 0.0, 0
    ctx.nontrivial("stats", str(info), seed)


# --- vector environments -------------------------------------------------------------------------
def vector_case(ctx):
    from gymnasium.vector import AsyncVectorEnv, SyncVectorEnv

    rng = ctx.rng
    make, label = factory(ctx, terminal=rng.random() < 0.6)
    n = int(rng.integers(2, 5))
    info = {"environment": str(label), "kind": ctx.kind, "n": n}
    if ctx.kind == "sync":
        vec = SyncVectorEnv([make] * n)
    else:
        vec = AsyncVectorEnv([make] * n, shared_memory=bool(rng.random() < 0.5), daemon=True)
    try:
        vec_compare(ctx, vec, [make] * n, 30 if ctx.kind == "sync" else 15, info)
    finally:
        vec.close()


def vec_compare(ctx, vec, makes, steps, info):
    rng = ctx.rng
    twins = [m() for m in makes]
    n = len(twins)
    sp = twins[0].action_space
    seed = gen.pick(rng, [gen.seed(rng), [int(x) for x in rng.integers(1 << 30, size=n)]])
    seeds = seed if isinstance(seed, list) else [seed + k for k in range(n)]
    ctx.check(vec.num_envs == n and vec.single_action_space == sp and vec.single_observation_space == twins[0].observation_space, "vector-spaces", "spaces of the vector environment", **info)
    obs, _ = vec.reset(seed=seed)
    want = np.array([t.reset(seed=s)[0] for t, s in zip(twins, seeds)])
    same(ctx, obs, want, "vector-reset", "reset", info)
    done = [False] * n
    for t in range(steps):
        acts = np.array([action_of(rng, sp) for _ in range(n)], dtype=sp.dtype).reshape((n,) + sp.shape)
        out = vec.step(acts)
        ctx.count("vector_steps" if ctx.kind != "async" else "async_steps", n)
        ctx.evaluated(n)
        for k, tw in enumerate(twins):
            if done[k]:
                # the step after the end of an episode resets the environment
                o2, r2, d2 = tw.reset()[0], 0.0, False
                ctx.count("autoresets")
            else:
                o2, r2, d2, _, _ = tw.step(acts[k])
            same(ctx, out[0][k], o2, "vector-observation", "environment %d, step %d" % (k, t), info)
            same(ctx, out[1][k], r2, "vector-reward", "environment %d, step %d" % (k, t), info)
            ctx.check(bool(out[2][k]) == bool(d2), "vector-terminated", "environment %d, step %d: %s instead of %s" % (k, t, out[2][k], d2), **info)
            ctx.check(not out[3][k], "vector-truncated", "environment %d, step %d" % (k, t), **info)
            done[k] = bool(d2)
            ctx.count("vector_terminal", bool(d2))
        if any(done) and ctx.tired():
            break
    ctx.nontrivial("vector", str(info), str(seeds))
