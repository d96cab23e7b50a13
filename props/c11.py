"""C11: state, action and next-variable vectors are wired to the right devices."""
import copy

import numpy as np

from vmon import envs, gen, ref, work

RULE = (
    "environments on networks with any device IDs and row order and up to 25 devices; every element of the action, "
    "internal-variable and initial-state vectors has a distinct value, and each device's injection is compared with the "
    "one obtained by handing the same values, keyed by device ID, to an independent projection and a second simulator; "
    "non-trivial = distinct step with >= 2 devices of one type"
)
ASSUMPTIONS = ["documented layouts: action [P gens, Q gens, P storage, Q storage], variables [loads, potentials, aux], state [P, Q, SoC, potentials, aux]"]
MIN = {"steps_checked": 250, "distinct_nontrivial": 150, "unsorted_ids": 40, "many_devices": 8}
QUICK_X = 3


def plan(tier):
    q = tier == "quick"
    return [("random", 110 if q else 3500), ("many", 24 if q else 500), ("each", 60 if q else 1500)]


def check_vectors(ctx, r, obs, aux):
    full = r.env.simulator.state
    exp = work.expected_state_vector(r.net, full, aux)
    ctx.close(r.env.state, exp, 0.0, "state-layout", "state vector vs full state in documented order", **r.info())
    lo, hi = r.env.observation_space.low, r.env.observation_space.high
    ctx.close(obs, np.clip(exp, lo, hi), 0.0, "observation-layout", "'state' observation", **r.info())


def check_step(ctx, r, twin, before):
    net = r.net
    req = r.request()
    full = r.env.simulator.state
    for i in net.loads:
        d = net.devs[i]
        p = min(max(req[0][i] / net.base, d.pmin), d.pmax)
        ctx.close(full["dev_p"]["pu"][i], p, 1e-12 * (1 + abs(p)), "load-wiring", "load %d" % i, **r.info())
    for i in net.gens + net.des:
        d = net.devs[i]
        region = net.constraints(d, p_pot=req[1].get(i, 0) / net.base if d.typ != 3 else None, soc=before.get(i), dt=r.dt)
        wp, wq = req[2][i] / net.base, req[3][i] / net.base
        bp, bq = net.project(region, wp, wq)
        t = 1e-7 * (1e-3 + abs(wp) + abs(wq))
        ctx.close([full["dev_p"]["pu"][i], full["dev_q"]["pu"][i]], [bp, bq], t, "setpoint-wiring", "device %d (type %d)" % (i, d.typ), **r.info())
        if d.typ != 3:
            pot = min(max(req[1][i] / net.base, d.pmin), d.pmax)
            ctx.close(full["gen_p_max"]["pu"][i], pot, 1e-12 * (1 + abs(pot)), "potential-wiring", "generator %d" % i, **r.info())
    st, rew, _, _, _ = twin.transition(*req)
    ctx.check(envs.same_state(st, full), "twin", "the environment's simulator and one driven with the same values by device ID differ", **r.info())


def run(ctx, kind):
    rng = ctx.rng
    kw = dict(dev_ids=gen.pick(rng, ["shuffled", "sparse", "wide", "zero"]), stress=0.3)
    if kind == "many":
        kw.update(n_bus=int(rng.integers(4, 10)), n_load=int(rng.integers(4, 9)), n_gen=int(rng.integers(1, 5)), n_rer=int(rng.integers(2, 7)), n_des=int(rng.integers(2, 6)), dev_ids=gen.pick(rng, ["zero", "sparse", "wide", "one"]))
    network = gen.network(rng, **kw)
    r = envs.Run(ctx, network)
    net = r.net
    # The action space itself is laid out in the documented order.
    exp_lo, exp_hi = [], []
    for ids, a, b in ((net.gens, "pmin", "pmax"), (net.gens, "qmin", "qmax"), (net.des, "pmin", "pmax"), (net.des, "qmin", "qmax")):
        exp_lo += [getattr(net.devs[i], a) * net.base for i in ids]
        exp_hi += [getattr(net.devs[i], b) * net.base for i in ids]
    ctx.close(r.env.action_space.low, np.array(exp_lo, dtype=float), 1e-9 * net.base, "action-space-layout", "lower bounds", **r.info())
    ctx.close(r.env.action_space.high, np.array(exp_hi, dtype=float), 1e-9 * net.base, "action-space-layout", "upper bounds", **r.info())
    obs, _ = r.reset(seed=int(rng.integers(1 << 30)))
    init = r.last_init
    check_vectors(ctx, r, obs, init[len(init) - r.K :] if r.K else [])
    # Initial state wiring.
    n = len(net.ids)
    full = r.env.simulator.state
    for k, i in enumerate(net.ids):
        d = net.devs[i]
        if d.typ == -1:
            p = min(max(init[k] / net.base, d.pmin), d.pmax)
            ctx.close(full["dev_p"]["pu"][i], p, 1e-12 * (1 + abs(p)), "init-load", "load %d" % i, **r.info())
    for k, i in enumerate(net.des):
        d = net.devs[i]
        s = min(max(init[2 * n + k] / net.base, d.smin), d.smax)
        ctx.close(full["des_soc"]["pu"][i], s, 1e-12 * (1 + abs(s)), "init-soc", "storage %d" % i, **r.info())
    for k, i in enumerate(net.gens):
        d = net.devs[i]
        p = min(max(init[2 * n + len(net.des) + k] / net.base, d.pmin), d.pmax)
        ctx.close(full["gen_p_max"]["pu"][i], p, 1e-12 * (1 + abs(p)), "init-potential", "generator %d" % i, **r.info())

    for _ in range(int(rng.integers(2, 5))):
        before = dict(r.env.simulator.state["des_soc"]["pu"])
        twin = copy.deepcopy(r.env.simulator)
        if kind == "each":
            # Change exactly one element of the action: exactly that device
            # (and the slack) may react.
            probe_single(ctx, r, twin)
        act = work.sample_action(rng, r.env.action_space, gen.pick(rng, ["uniform", "uniform", "corner"]))
        obs, rew, term, _, _ = r.step(act)
        ctx.evaluated()
        ctx.count("steps_checked")
        if term:
            break
        check_step(ctx, r, twin, before)
        check_vectors(ctx, r, obs, r.last_vars[len(r.last_vars) - r.K :] if r.K else [])
        raw = [int(x[0]) for x in network["device"]]
        ctx.count("unsorted_ids", raw != sorted(raw))
        ctx.count("many_devices", len(raw) > 10)
        if max(len(net.loads), len(net.gens), len(net.des)) >= 2:
            ctx.nontrivial(work.net_key(net), work.state_key(r.env.simulator.state))
    if ctx.idx == 0:
        ctx.sample({"kind": kind, **r.info(), "state": r.env.state})


def probe_single(ctx, r, twin):
    rng, net = ctx.rng, r.net
    ng, nd = len(net.gens), len(net.des)
    na = 2 * ng + 2 * nd
    if na == 0:
        return
    base = work.sample_action(rng, r.env.action_space, "zero")
    k = int(rng.integers(na))
    other = base.copy()
    alt = work.sample_action(rng, r.env.action_space, "uniform")
    other[k] = alt[k]
    owner = net.gens[k % ng] if k < 2 * ng else net.des[(k - 2 * ng) % nd]
    v = r.random_vars()
    e1, e2 = copy.deepcopy(r.env.simulator), copy.deepcopy(r.env.simulator)
    env = r.env
    keep, r.next_vars = env.simulator, v
    outs = []
    for sim, a in ((e1, base), (e2, other)):
        # Step a throw-away copy of the environment.
        c = copy.copy(env)
        c.simulator = sim
        c.step(a)
        outs.append(sim.state)
    for i in net.ids:
        if i in (owner, net.slack_dev):
            continue
        same = outs[0]["dev_p"]["pu"][i] == outs[1]["dev_p"]["pu"][i] and outs[0]["dev_q"]["pu"][i] == outs[1]["dev_q"]["pu"][i]
        ctx.check(same, "cross-talk", "changing action element %d (device %d) changes device %d" % (k, owner, i), **r.info())
    ctx.count("single_probes")
