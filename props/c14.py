"""C14: reset honours the requested initial state and forgets the past."""
import math
import os
import sys

import numpy as np

from vmon import core, envs, gen, ref, work

RULE = (
    "random initial states (feasible, out of range, on bounds, infeasible) on random networks: injections after reset "
    "are compared with an independent projection, SoC/potentials/aux with the given values; a reset after a random "
    "history (steps, collapses, failed resets, other resets) is compared bit by bit, with all later transitions, with a "
    "fresh instance; the history also holds steps and resets cut short at a random line of the real code (an interrupt) "
    "or by an exception of the user's own init_state()/next_vars(); reached states are used as initial states; non-trivial = distinct reset after a non-empty history "
    "or with a state needing projection"
)
ASSUMPTIONS = ["the mapping of the initial injection of a storage unit uses an empty unit for charging and a full one for discharging (documented in the code and thesis)"]
MIN = {"resets_checked": 250, "distinct_nontrivial": 200, "history_resets": 50, "after_collapse": 25, "after_failed_reset": 15, "round_trips": 45, "env_retries": 15, "interrupted": 40, "user_errors": 25}


def plan(tier):
    q = tier == "quick"
    return [("map", 80 if q else 3000), ("history", 60 if q else 2500), ("roundtrip", 60 if q else 2000), ("env", 60 if q else 2000), ("faults", 60 if q else 2000)]


def check_reset(ctx, net, dt, init, full, info):
    n = len(net.ids)
    gi = si = 0
    moved = False
    for k, i in enumerate(net.ids):
        d = net.devs[i]
        if d.typ == 0:
            continue
        p0, q0 = init[k] / net.base, init[n + k] / net.base
        p, q = full["dev_p"]["pu"][i], full["dev_q"]["pu"][i]
        if d.typ == -1:
            e = min(max(p0, d.pmin), d.pmax)
            ctx.close([p, q], [e, e * d.qp], 1e-12 * (1 + abs(e)), "reset-load", "load %d" % i, **info)
            moved |= e != p0
            continue
        if d.typ == 3:
            soc = d.smin if p0 <= 0 else d.smax
            region = net.constraints(d, soc=soc, dt=dt)
            s = min(max(init[2 * n + si] / net.base, d.smin), d.smax)
            ctx.close(full["des_soc"]["pu"][i], s, 1e-12 * (1 + abs(s)), "reset-soc", "storage %d" % i, **info)
            moved |= s != init[2 * n + si] / net.base
            si += 1
        else:
            pot = init[2 * n + len(net.des) + gi] / net.base
            region = net.constraints(d, p_pot=pot)
            e = min(max(pot, d.pmin), d.pmax)
            ctx.close(full["gen_p_max"]["pu"][i], e, 1e-12 * (1 + abs(e)), "reset-potential", "generator %d" % i, **info)
            moved |= e != pot
            gi += 1
        bp, bq = net.project(region, p0, q0)
        t = 1e-7 * (1e-3 + abs(p0) + abs(q0))
        ctx.close([p, q], [bp, bq], t, "reset-injection", "device %d (type %d), asked for (%r, %r)" % (i, d.typ, p0, q0), **info)
        moved |= abs(bp - p0) + abs(bq - q0) > 1e-9
    return moved


def check_pf(ctx, net, full, info):
    V = ref.volts(full)
    v = np.array([V[b] for b in net.bus_ids])
    S = v * np.conj(net.ybus() @ v)
    for k, b in enumerate(net.bus_ids):
        if b == net.slack_bus:
            continue
        p = sum(full["dev_p"]["pu"][i] for i, d in net.devs.items() if d.bus == b)
        q = sum(full["dev_q"]["pu"][i] for i, d in net.devs.items() if d.bus == b)
        ctx.check(abs(S[k] - complex(p, q)) <= 1e-4 * (1 + abs(S[k])), "reset-power-flow", "bus %d: V conj(YV) = %r but the devices inject %r" % (b, S[k], complex(p, q)), **info)


def run(ctx, kind):
    rng = ctx.rng
    if kind in ("env", "faults"):
        return env_case(ctx, kind == "faults")
    network = gen.network(rng, stress=float(gen.pick(rng, [0.2, 0.5, 1.0])), n_des=int(rng.integers(0, 4)))
    bomb = envs.add_bomb(rng, network) if kind == "history" else None
    ep = work.Episode(ctx, network, reset=False)
    net = ep.net

    def one(explode=False):
        s = gen.init_state(rng, net, (), gen.pick(rng, [None, "inside", "wide", "corner", "extreme"]))
        if bomb is not None:
            k = net.ids.index(bomb)
            s[k] = s[len(net.ids) + k] = 0.0
            if explode:
                s[k] = -1e5 * net.base * rng.uniform(0.2, 1)
        return s

    def req(explode=False):
        r = gen.request(rng, net)
        if bomb is not None:
            r[0][bomb] = -1e5 * net.base * float(rng.uniform(0.2, 1)) if explode else 0.0
        return r

    if kind == "map":
        for _ in range(int(rng.integers(1, 4))):
            init = one()
            ev = ep.reset(init)
            ctx.evaluated()
            ctx.count("resets_checked")
            moved = check_reset(ctx, net, ep.dt, init, ev.state, ep.info(ev))
            if ev.conv:
                check_pf(ctx, net, ev.state, ep.info(ev))
            if moved:
                ctx.nontrivial(work.net_key(net), tuple(init))
            for _ in range(int(rng.integers(0, 3))):
                ep.step()
    elif kind == "history":
        ep.reset(one())
        tags = set()
        for _ in range(int(rng.integers(1, 8))):
            u = rng.random()
            if u < 0.6:
                ev = ep.step(req(rng.random() < 0.3))
                last = "collapse" if not ev.conv else "step"
            else:
                ev = ep.reset(one(rng.random() < 0.5))
                last = "reset" if ev.conv else "failed_reset"
            tags.add(last)
        init = one()
        ev = ep.reset(init)
        fresh = work.Simulator(network, ep.dt, ep.lamb)
        conv = fresh.reset(np.array(init))
        info = ep.info(ev)
        ctx.evaluated()
        ctx.count("resets_checked")
        ctx.count("history_resets")
        ctx.count("after_collapse", "collapse" in tags)
        ctx.count("after_failed_reset", "failed_reset" in tags)
        ctx.check(bool(conv) == bool(ev.conv), "history-flag", "converged %r after a history, %r on a fresh instance" % (ev.conv, conv), history=sorted(tags), **info)
        ctx.check(envs.same_state(ev.state, fresh.state), "history-state", "the state after reset depends on what happened before", history=sorted(tags), **info)
        check_reset(ctx, net, ep.dt, init, ev.state, info)
        for _ in range(3):
            r = req(rng.random() < 0.1)
            ev = ep.step(r)
            out = fresh.transition(*[dict(x) for x in r])
            same = envs.same_state(ev.state, out[0]) and (ev.reward == out[1] or (math.isnan(ev.reward) and math.isnan(out[1]))) and bool(ev.conv) == bool(out[4])
            ctx.check(same, "history-transition", "a transition after reset depends on what happened before the reset", history=sorted(tags), **ep.info(ev))
        ctx.nontrivial(work.net_key(net), tuple(init), tuple(sorted(tags)))
    else:
        ev = ep.reset(one())
        for _ in range(int(rng.integers(1, 5))):
            ev = ep.step(req())
        if not ev.conv:
            ctx.count("roundtrip_unconverged")
            return
        s = ev.state
        vec = work.expected_state_vector(net, s, ())
        sim2 = work.Simulator(network, ep.dt, ep.lamb)
        sim2.reset(gen.init_state(rng, net))
        target = ep.sim if rng.random() < 0.5 else sim2
        conv = target.reset(vec.copy())
        info = ep.info(ev)
        ctx.evaluated()
        ctx.count("resets_checked")
        ctx.count("round_trips")
        ctx.check(bool(conv), "roundtrip-flag", "resetting to a reached state did not converge", **info)
        sc = 1 + sum(abs(x) for x in s["dev_p"]["pu"].values())
        # The solver stops at a residual of 1e-5: near-singular states amplify it.
        amp = 1 + 0.1 / max(net.jac_sigma_min(ref.volts(s)), 1e-9)
        for q in ref.QUANTITIES:
            if q in ("bus_i_ang", "branch_i_ang", "branch_i_magn", "branch_s", "bus_i_magn"):
                continue  # signs/angles of ~0 currents are not continuous
            u = "rad" if q.endswith("_ang") else "pu"
            a = np.array([s[q][u][k] for k in s[q][u]], dtype=float)
            b = np.array([target.state[q][u][k] for k in s[q][u]], dtype=float)
            ctx.close(b, a, 1e-5 * sc * amp, "roundtrip:" + q, "%s after resetting to a reached state" % q, **info)
        ids = [i for i in net.ids if i != net.slack_dev]
        for q in ("dev_p", "dev_q"):
            ctx.close([target.state[q]["pu"][i] for i in ids], [s[q]["pu"][i] for i in ids], 1e-8 * sc, "roundtrip-exact:" + q, "%s after resetting to a reached state" % q, **info)
        for q in ("des_soc", "gen_p_max"):
            k = list(s[q]["pu"])
            ctx.close([target.state[q]["pu"][i] for i in k], [s[q]["pu"][i] for i in k], 1e-11 * sc, "roundtrip-exact:" + q, "%s after resetting to a reached state" % q, **info)
        ctx.nontrivial(work.net_key(net), work.state_key(s))
    if ctx.idx == 0:
        ctx.sample({"kind": kind, **ep.info(ep.events[-1])})


class Interrupt(BaseException):
    """Stands for a KeyboardInterrupt."""


class UserError(Exception):
    pass


def lines_run(fn, stop=None):
    """Runs fn(), counts the lines executed in the package, interrupts at the stop-th."""
    root = os.path.join(os.path.realpath(core.REPO), "gym_anm") + os.sep
    count, ours = [0], {}

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] == stop:
                raise Interrupt()
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        if f not in ours:
            ours[f] = os.path.realpath(f).startswith(root)
        return local if ours[f] else None

    old = sys.gettrace()
    sys.settrace(glob)
    try:
        fn()
        return count[0], False
    except Interrupt:
        return count[0], True
    finally:
        sys.settrace(old)


def fault(ctx, r):
    """One step or reset that does not complete."""
    rng = ctx.rng
    resetting = bool(rng.random() < 0.35)
    if rng.random() < 0.65:
        # How many lines such a call takes, then the same again, cut short.
        total, _ = lines_run((lambda: r.reset(seed=3)) if resetting else r.step)
        if not resetting and r.env.terminated:
            r.reset(seed=4)
        _, cut = lines_run((lambda: r.reset(seed=5)) if resetting else r.step, int(rng.integers(1, total + 1)))
        ctx.count("interrupted", cut)
        ctx.count("interrupted_resets", cut and resetting)
        return

    def bad(*args):
        raise UserError()

    name = "random_init" if resetting else "random_vars"
    setattr(r, name, bad)
    try:
        if resetting:
            r.reset()
        else:
            r.next_vars = None
            r.env.step(work.sample_action(rng, r.env.action_space))
    except UserError:
        ctx.count("user_errors")
    finally:
        delattr(r, name)


def env_case(ctx, faults=False):
    rng = ctx.rng
    network = gen.network(rng, stress=0.4)
    bomb = envs.add_bomb(rng, network)
    obs = gen.pick(rng, ["state", [("bus_v_magn", "all"), ("dev_p", "all", "pu"), ("aux", "all", None)]])
    r = envs.Run(ctx, network, bomb, observation=obs, K=int(rng.integers(0, 4)))
    net = r.net
    r.reset(seed=1)
    for _ in range(int(rng.integers(0, 5))):
        r.step(explode=bool(rng.random() < 0.25))
    for _ in range(int(rng.integers(1, 4)) if faults else 0):
        if r.env.terminated:
            r.reset(seed=2)
        fault(ctx, r)
    # A few infeasible initial states before a feasible one.
    bad = int(gen.pick(rng, [0, 0, 1, 3, 20]))
    inits = []
    for _ in range(bad):
        s = r.random_init()
        s[net.ids.index(bomb)] = -1e5 * net.base * rng.uniform(0.2, 1)
        inits.append(s)
    good = r.good_init()
    inits.append(good)
    it = iter([np.array(s) for s in inits])
    r.random_init = lambda: next(it)
    n0 = len(r.calls)
    o1, info1 = r.reset()
    info = r.info()
    ctx.evaluated()
    ctx.count("resets_checked")
    ctx.count("env_retries", bad > 0)
    n = sum(c[0] == "init_state" for c in r.calls[n0:])
    ctx.check(n == len(inits), "init-draws", "%d initial states were drawn for %d infeasible ones" % (n, bad), **info)
    env = r.env
    ctx.check(env.timestep == 0 and not env.terminated and env.e_loss == 0 and env.penalty == 0, "reset-attributes", "timestep %r, terminated %r, costs %r, %r" % (env.timestep, env.terminated, env.e_loss, env.penalty), **info)
    full = env.simulator.state
    moved = check_reset(ctx, net, r.dt, good, full, info)
    check_pf(ctx, net, full, info)
    aux = good[len(good) - r.K :] if r.K else []
    ctx.close(env.state, work.expected_state_vector(net, full, aux), 0.0, "reset-state-vector", "state vector after reset (aux %s)" % (aux,), **info)
    fresh = envs.Run(ctx, network, bomb, observation=obs, K=r.K, dt=r.dt, gamma=r.gamma, lamb=r.lamb, clip=r.clip, aux_bounds=r.aux_bounds)
    o2, _ = fresh.reset(init=good.copy())
    ctx.check(np.array_equal(o1, o2, equal_nan=True), "env-history-observation", "first observation %s; a fresh environment gives %s" % (o1, o2), **info)
    ctx.check(envs.same_state(full, fresh.env.simulator.state), "env-history-state", "the state after reset depends on the past", **info)
    for _ in range(2):
        v = r.random_vars()
        a = work.sample_action(rng, env.action_space)
        x, y = r.step(a, v.copy()), fresh.step(a.copy(), v.copy())
        same = np.array_equal(x[0], y[0], equal_nan=True) and (x[1] == y[1]) and bool(x[2]) == bool(y[2])
        ctx.check(same, "env-history-step", "a step after reset gives %r, in a fresh environment %r" % (x[:3], y[:3]), **r.info())
    if bad or moved:
        ctx.nontrivial("env", work.net_key(net), tuple(good))
