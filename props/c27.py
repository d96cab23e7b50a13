"""C27: any action in the action space is always safe to take."""
import copy
import math

import numpy as np

from vmon import envs, gen, ref, work
from vmon.core import Skip

RULE = (
    "long episodes on random networks (all optional values omitted now and then, tight and absurd ratings, zero-width "
    "limits), on ANM6Easy and on user-defined ANM6 environments, with actions from corners, bounds, samples and other "
    "number types, and internal variables from calm to astronomically large; a totality monitor watches every call; "
    "non-trivial = distinct (environment, action mode, variable mode, outcome)"
)
ASSUMPTIONS = [
    "actions are finite numbers (also where the action space is unbounded)",
    "internal variables are finite numbers of any size, or infinities where the device has finite limits",
]
MIN = {"steps": 6000, "terminal": 100, "steps_after_terminal": 200, "corner_actions": 1000, "huge_variables": 500, "infinite_variables": 200, "unbounded_spaces": 20, "other_dtypes": 200, "distinct_nontrivial": 300, "long_episodes": 6, "clipped_variables": 1000}
CASE_CPU_S = {"quick": 300, "thorough": 400}


def plan(tier):
    q = tier == "quick"
    return [("random", 150 if q else 2400), ("unbounded", 40 if q else 800), ("easy", 10 if q else 120), ("anm6", 10 if q else 200)]


def run(ctx, kind):
    {"random": random_case, "unbounded": unbounded_case, "easy": easy_case, "anm6": anm6_case}[kind](ctx)


ACTIONS = ["sample", "uniform", "corner", "low", "high", "zero", "sparse", "float32", "list", "int", "edge", "huge"]
VARS = ["calm", "wide", "extreme", "huge", "tiny", "infinite", "zero", "mixed", "denormal"]


def action(ctx, rng, space, mode):
    if mode == "sample":
        return space.sample()
    if mode == "float32":
        a = work.sample_action(rng, space).astype(np.float32)
        lo, hi = space.low, space.high
        # rounding may leave the space
        a = np.where(a.astype(float) < lo, np.nextafter(a, np.float32(np.inf)), a)
        a = np.where(a.astype(float) > hi, np.nextafter(a, np.float32(-np.inf)), a).astype(np.float32)
        ctx.count("other_dtypes")
        if not space.contains(a):
            return work.sample_action(rng, space)
        return a
    if mode == "list":
        ctx.count("other_dtypes")
        return [float(x) for x in work.sample_action(rng, space)]
    if mode == "int":
        a = np.trunc(work.sample_action(rng, space)).astype(np.int32)
        ctx.count("other_dtypes")
        return a if space.contains(a) else work.sample_action(rng, space)
    if mode == "edge":
        a = work.sample_action(rng, space, "corner")
        ctx.count("corner_actions")
        # one unit in the last place inside the space
        return np.where(rng.random(a.shape) < 0.5, np.clip(np.nextafter(a, 0), space.low, space.high), a)
    if mode == "huge":
        lo = np.where(np.isfinite(space.low), space.low, -(10.0 ** rng.uniform(3, 12)))
        hi = np.where(np.isfinite(space.high), space.high, 10.0 ** rng.uniform(3, 12))
        return np.where(rng.random(lo.shape) < 0.5, lo, hi)
    if mode == "corner":
        ctx.count("corner_actions")
    return work.sample_action(rng, space, mode)


def variables(ctx, rng, net, K, mode):
    n = len(net.loads) + len(net.gens)
    aux = rng.uniform(-12, 12, size=K)
    if mode == "calm":
        v = work.random_vars(rng, net, [], "inside") * 0.5
    elif mode in ("wide", "extreme", "tiny", "zero"):
        v = work.random_vars(rng, net, [], mode)
    elif mode == "huge":
        ctx.count("huge_variables")
        v = rng.choice([-1, 1], size=n) * 10.0 ** rng.uniform(6, 300, size=n)
    elif mode == "infinite":
        ctx.count("infinite_variables")
        v = rng.choice([-np.inf, np.inf, 0.0, 1.0], size=n)
        for k, i in enumerate(net.loads + net.gens):
            # where a device has no limit, nothing can be clipped
            if not math.isfinite(net.devs[i].pmin) or not math.isfinite(net.devs[i].pmax):
                v[k] = rng.choice([-1e9, 1e9])
    elif mode == "denormal":
        v = rng.choice([-1, 1], size=n) * 5e-324
    else:
        v = np.array([variables(ctx, rng, net, 0, gen.pick(rng, VARS[:-2]))[k] for k in range(n)]).reshape(n)
    return np.concatenate([np.asarray(v, dtype=float).reshape(n), aux])


def watch(ctx, env, out, clip, info, was_terminal):
    """Everything that must hold after any step."""
    ctx.count("steps")
    ctx.evaluated()
    if not ctx.check(isinstance(out, tuple) and len(out) == 5, "step-result", "step() returned %r" % (out,), **info):
        return True
    obs, r, term, trunc, inf = out
    term = bool(term)
    ctx.check(np.all(np.isfinite(np.asarray(obs, dtype=float))), "observation-not-finite", "observation %s" % (obs,), **info)
    ctx.check(np.all(np.isfinite(np.asarray(env.state, dtype=float))), "state-not-finite", "state %s" % (env.state,), **info)
    # (without cost clipping, the terminal reward is documented as -infinity)
    free = term and not was_terminal and (clip is None or None in clip)
    ctx.check(math.isfinite(float(r)) or free and float(r) == -np.inf, "reward-not-finite", "reward %r" % (r,), **info)
    ctx.check(not trunc, "truncated", "truncated is %r" % (trunc,), **info)
    c1, c2 = [np.inf if c is None else c for c in (clip or (None, None))]
    if was_terminal:
        ctx.check(term, "terminal-left", "a terminal state was left", **info)
        ctx.check(float(r) == 0, "terminal-reward", "reward %r in a terminal state" % (r,), **info)
        ctx.count("steps_after_terminal")
        return term
    if not term:
        el, pen = float(env.e_loss), float(env.penalty)
        ok = math.isfinite(el) and math.isfinite(pen) and abs(el) <= c1 and 0 <= pen <= c2
        ctx.check(ok, "costs", "energy loss %r, penalty %r, clipping %s" % (el, pen, clip), **info)
        ctx.check(-(c1 + c2) * (1 + 1e-12) <= float(r), "reward-clipping", "reward %r, clipping %s" % (r, clip), **info)
        st = env.simulator.state
        ctx.check(np.all(np.isfinite(envs.flat(st))), "full-state-not-finite", "full state %s" % (st,), **info)
    else:
        ctx.count("terminal")
    return term


def clipped(ctx, env, net, info):
    """Internal variables of any size act as their projection on the device limits."""
    st = env.simulator.state
    v = np.asarray(env.given, dtype=float) / net.base
    for k, i in enumerate(net.loads + net.gens):
        d = net.devs[i]
        want = min(max(v[k], d.pmin), d.pmax)
        got = st["dev_p" if k < len(net.loads) else "gen_p_max"]["pu"][i]
        ctx.count("clipped_variables", want != v[k])
        what = "load-not-clipped" if k < len(net.loads) else "potential-not-clipped"
        ctx.check(abs(got - want) <= 1e-9 * (1 + abs(want)), what, "device %d in [%r, %r] p.u.: variable %r acts as %r" % (i, d.pmin, d.pmax, v[k], got), **info)


def episodes(ctx, env, net, K, clip, init, n_resets, length, info0, set_vars=None, modes=None):
    rng = ctx.rng
    env.action_space.seed(int(rng.integers(1 << 30)))
    for ep in range(n_resets):
        obs, _ = init()
        ctx.check(np.all(np.isfinite(np.asarray(obs, dtype=float))), "reset-observation", "observation %s" % (obs,), **info0)
        term, left = bool(env.terminated), 3
        calm = rng.random() < 0.5
        log = []
        for t in range(length):
            am = gen.pick(rng, ACTIONS)
            vm = gen.pick(rng, ["calm", "wide", "tiny", "zero"] if calm else VARS)
            a = action(ctx, rng, env.action_space, am)
            if set_vars is not None:
                set_vars(variables(ctx, rng, net, K, vm))
            log.append((am, vm))
            info = dict(info0, action=a, variables=getattr(env, "given", None), step=t, log=log[-6:])
            try:
                out = env.step(a)
            except Exception as e:
                import traceback

                ctx.fail("exception:" + type(e).__name__, "step(): %s\n%s" % (e, traceback.format_exc()[-1200:]), **info)
                return
            was = term
            term = watch(ctx, env, out, clip, info, was)
            if set_vars is not None and not term:
                clipped(ctx, env, net, info)
            ctx.nontrivial(work.net_key(net), am, vm, term)
            if term:
                left -= 1
                if left == 0:
                    break


def build(ctx, network, K, observation, clip, cls_hook=None):
    rng = ctx.rng
    net = ref.Net(network)
    box = {}

    def init_fn(env):
        return box["init"]

    def vars_fn(env, s_t):
        return box["vars"]

    env = work.make_env(copy.deepcopy(network), observation, K, float(gen.pick(rng, [0.25, 1.0, 24.0, 1e-3])), float(gen.pick(rng, [0, 0.5, 0.99])), gen.pick(rng, [0, 1, 1000, 1e8]), None, clip, None, init_fn, vars_fn, cls_hook)

    def init():
        for k in range(12):
            s = gen.init_state(rng, net, rng.uniform(-3, 3, size=K), "inside" if k else None)
            box["init"] = s * (0.5 if k > 3 else 1.0)
            if not work.Simulator(copy.deepcopy(network), 0.25, 100).reset(np.array(box["init"])):
                continue
            try:
                return env.reset()
            except Exception as e:
                if "EnvInitialization" in type(e).__name__ or "feasible" in str(e).lower():
                    continue
                raise
        raise Skip("no-feasible-initial-state")

    def set_vars(v):
        box["vars"] = v
        env.given = v

    return env, net, init, set_vars


def clipping(rng):
    return gen.pick(rng, [None, (None, None), (1.0, 100.0), (1e-3, None), (None, 1e-6), (1e5, 1e5), (0.0, 0.0)])


def random_case(ctx):
    rng = ctx.rng
    network = gen.network(rng, stress=float(gen.pick(rng, [0.2, 0.5, 1.0, 3.0])), finite=rng.random() < 0.6, rates=gen.pick(rng, [None, None, "tight", "none"]))
    K = int(rng.integers(0, 3))
    clip = clipping(rng)
    env, net, init, set_vars = build(ctx, network, K, gen.pick(rng, ["state", observation(rng, net=ref.Net(network))]), clip)
    length = 30
    info0 = dict(network=gen.describe(network), K=K, clip=clip)
    episodes(ctx, env, net, K, clip, init, 4, length, info0, set_vars)
    if ctx.idx == 0:
        ctx.sample({"network": gen.describe(network), "clip": clip})


def observation(rng, net):
    qs = [("bus_v_magn", "pu"), ("bus_v_ang", "degree"), ("bus_p", "MW"), ("branch_s", "MVA"), ("branch_i_magn", "pu"), ("dev_p", "pu"), ("des_soc", "MWh"), ("gen_p_max", "pu"), ("bus_i_ang", "rad")]
    out = []
    for q, u in qs:
        if q == "des_soc" and not net.des or q == "gen_p_max" and not net.gens:
            continue
        if rng.random() < 0.6:
            out.append((q, "all", u))
    return out or [("bus_p", "all", "MW")]


def unbounded_case(ctx):
    """Networks whose devices have no limits at all."""
    rng = ctx.rng
    network = gen.network(rng, p_none=0.9, stress=0.3)
    K = 0
    clip = clipping(rng)
    env, net, init, set_vars = build(ctx, network, K, "state", clip)
    sp = env.action_space
    ctx.count("unbounded_spaces", not (np.all(np.isfinite(sp.low)) and np.all(np.isfinite(sp.high))))
    episodes(ctx, env, net, K, clip, init, 5, 12, dict(network=gen.describe(network), clip=clip), set_vars)


def easy_case(ctx):
    from gym_anm.envs import ANM6Easy
    from vmon.envs import flat

    rng = ctx.rng
    env = ANM6Easy()
    env.action_space.seed(int(rng.integers(1 << 30)))
    from gym_anm.envs.anm6_env.network import network

    net = ref.Net(network)
    first = [int(rng.integers(1 << 30))]

    def init():
        s, first[0] = first[0], None
        return env.reset(seed=s)

    long = ctx.tier != "quick" or ctx.idx % 2 == 0
    ctx.count("long_episodes", long)
    episodes(ctx, env, net, 1, (1.0, 100.0), init, 2, 500 if long else 60, dict(env="ANM6Easy"))


def anm6_case(ctx):
    from gym_anm.envs import ANM6
    from gym_anm.envs.anm6_env.network import network

    rng = ctx.rng
    net = ref.Net(network)
    K = int(rng.integers(0, 3))
    box = {}

    class Task(ANM6):
        def init_state(self):
            return box["init"]

        def next_vars(self, s_t):
            return box["vars"]

    clip = clipping(rng) or (None, None)
    env = Task("state", K, float(gen.pick(rng, [0.25, 1.0, 12.0])), 0.9, 100, None, clip)

    def init():
        for _ in range(20):
            box["init"] = gen.init_state(rng, net, rng.uniform(-3, 3, size=K), "inside") * 0.6
            if work.Simulator(network, 0.25, 100).reset(np.array(box["init"])):
                return env.reset()
        raise Skip("no-feasible-initial-state")

    def set_vars(v):
        box["vars"] = v
        env.given = v

    ctx.count("long_episodes")
    episodes(ctx, env, net, K, clip, init, 3, 100, dict(env="ANM6", K=K, clip=clip), set_vars)
