"""C10: environment rewards are clipped as configured; terminal states are absorbing."""
import copy
import math

import numpy as np

from vmon import envs, gen, ref, work

RULE = (
    "custom environments on random networks with every kind of clipping configuration, gamma and lambda; unclipped "
    "costs are recomputed from the reached full state; a load able to collapse the network is triggered at random "
    "moments, followed by steps in the terminal state and resets; non-trivial = distinct step where a clip is active, "
    "the energy loss is negative, or a terminal state is entered"
)
ASSUMPTIONS = ["gamma = 1 with a penalty clip of 0 is not used (0/0)", "unclipped costs are those of C09"]
MIN = {"steps_checked": 250, "distinct_nontrivial": 150, "loss_clipped": 30, "penalty_clipped": 20, "negative_loss": 20, "terminal_entries": 40, "absorbing_steps": 80, "resets_after_terminal": 30, "zero_clips": 8}


def plan(tier):
    q = tier == "quick"
    return [("random", 90 if q else 3000), ("terminal", 70 if q else 2000), ("clip", 60 if q else 2000)]


def check_step(ctx, run, out):
    obs, r, term, trunc, _ = out
    env, info = run.env, run.info()
    c1 = math.inf if run.clip is None or run.clip[0] is None else run.clip[0]
    c2 = math.inf if run.clip is None or run.clip[1] is None else run.clip[1]
    ctx.evaluated()
    ctx.count("steps_checked")
    if not term:
        loss, pen, tl, tp = run.costs()
        el = math.copysign(min(abs(loss), c1), loss)
        ep = min(max(pen, 0.0), c2)
        ctx.close(env.e_loss, el, tl, "clipped-loss", "exposed energy loss (unclipped %r, clip %r)" % (loss, c1), **info)
        ctx.close(env.penalty, ep, tp, "clipped-penalty", "exposed penalty (unclipped %r, clip %r)" % (pen, c2), **info)
        ctx.close(r, -(el + ep), tl + tp, "clipped-reward", "reward", **info)
        ctx.check(r >= -(c1 + c2) - 1e-9 and (c1 == math.inf or r <= c1 + 1e-9), "reward-range", "reward %r outside [-(c1+c2), c1]" % r, **info)
        a, b, c = abs(loss) > c1, pen > c2, loss < -1e-9
        ctx.count("loss_clipped", a)
        ctx.count("penalty_clipped", b)
        ctx.count("negative_loss", c)
        if a or b or c:
            ctx.nontrivial(round(float(loss), 9), round(float(pen), 9), c1, c2)
        return
    ctx.count("terminal_entries")
    exp = -c2 / (1 - run.gamma) if run.gamma < 1 else -math.inf
    ctx.check(r == exp or (math.isfinite(exp) and abs(r - exp) <= 1e-9 * abs(exp)), "terminal-reward", "reward %r instead of %r" % (r, exp), **info)
    ctx.check(env.e_loss == c1 and env.penalty == c2, "terminal-costs", "costs %r, %r instead of the clips %r, %r" % (env.e_loss, env.penalty, c1, c2), **info)
    check_zero(ctx, run, obs, "entering")
    ctx.nontrivial("terminal", work.net_key(run.net), c2, run.gamma, env.timestep)


def check_zero(ctx, run, obs, when):
    env, info = run.env, run.info()
    ctx.check(isinstance(obs, np.ndarray) and obs.shape == env.observation_space.shape and not np.any(obs), "terminal-observation", "observation %s a terminal state: %r" % (when, obs), **info)
    ctx.check(env.state.shape == (2 * len(run.net.ids) + len(run.net.des) + len(run.net.gens) + run.K,) and not np.any(env.state), "terminal-state", "state %s a terminal state: %r" % (when, env.state), **info)
    ctx.check(env.terminated is True or env.terminated == True, "terminal-flag", "terminated attribute is %r" % (env.terminated,), **info)  # noqa: E712


def judged_step(ctx, r, **kw):
    """One step; it ends the episode exactly when the same transition of a
    second simulator, copied before the step, collapses."""
    twin = copy.deepcopy(r.env.simulator)
    out = r.step(**kw)
    conv = twin.transition(*r.request())[-1]
    ctx.check(bool(out[2]) == (not conv), "terminal-iff-collapse", "terminated=%r although the power flow of this step %s" % (out[2], "converges" if conv else "does not converge"), **r.info())
    ctx.count("collapse_verdicts")
    check_step(ctx, r, out)
    return out


def run(ctx, kind):
    rng = ctx.rng
    network = gen.network(rng, stress=float(gen.pick(rng, [0.3, 1.0, 2.0])))
    bomb = envs.add_bomb(rng, network) if kind != "clip" or rng.random() < 0.3 else None
    obsspec = gen.pick(rng, ["state", [("bus_v_magn", "all"), ("branch_s", "all", "pu")], lambda s: s[:2] * 1.0])
    kw = {}
    if kind == "clip":
        kw["clip"] = (float(10 ** rng.uniform(-5, -1)), float(10 ** rng.uniform(-4, 1)))
        if rng.random() < 0.3:
            # No cost at all of one kind (or of both).
            kw["clip"] = [(0, kw["clip"][1]), (kw["clip"][0], 0.0), (0.0, None), (None, 0)][int(rng.integers(4))]
            kw["gamma"] = float(gen.pick(rng, [0.5, 0.9, 0.995]))
            ctx.count("zero_clips")
        kw["lamb"] = float(gen.pick(rng, [10, 100, 1000]))
    if kind == "terminal" and rng.random() < 0.2:
        kw["gamma"] = 1.0
        kw["clip"] = (1.0, 10.0)
    r = envs.Run(ctx, network, bomb, observation=obsspec, **kw)
    r.reset(seed=int(rng.integers(1 << 30)))
    ctx.check(r.env.e_loss == 0 and r.env.penalty == 0, "reset-costs", "costs after reset: %r, %r" % (r.env.e_loss, r.env.penalty), **r.info())
    rounds = 2 if kind == "terminal" else 1
    for _ in range(rounds):
        if r.env.terminated:
            r.reset()  # the first step after the previous reset ended the episode
        for k in range(int(rng.integers(1, 6))):
            out = judged_step(ctx, r)
            if out[2]:
                break
        if bomb is None:
            continue
        if not r.env.terminated:
            out = judged_step(ctx, r, explode=True)
            if not out[2]:
                ctx.count("bomb_survived")
                continue
        ent = (r.env.e_loss, r.env.penalty)
        for k in range(int(rng.integers(1, 5))):
            # Any action, even one which would be fine again.
            out = r.step(explode=bool(rng.random() < 0.3))
            ctx.count("absorbing_steps")
            ctx.check(out[1] == 0 and out[2] is not False and bool(out[2]) and not out[3], "not-absorbing", "step in a terminal state returned reward %r, terminated %r" % (out[1], out[2]), **r.info())
            check_zero(ctx, r, out[0], "in")
            ctx.check(r.env.e_loss == ent[0] and r.env.penalty == ent[1], "terminal-costs-change", "costs (%r, %r) in a terminal state entered with %r" % (r.env.e_loss, r.env.penalty, ent), **r.info())
        obs, _ = r.reset()
        ctx.count("resets_after_terminal")
        ctx.check(not r.env.terminated and r.env.e_loss == 0 and r.env.penalty == 0 and r.env.timestep == 0, "reset-after-terminal", "terminated=%r costs=(%r, %r) timestep=%r after reset" % (r.env.terminated, r.env.e_loss, r.env.penalty, r.env.timestep), **r.info())
        out = judged_step(ctx, r)
    if ctx.idx == 0:
        ctx.sample({"kind": kind, **r.info(), "reward": out[1], "terminated": out[2]})
