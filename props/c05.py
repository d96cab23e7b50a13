"""C05: the reported state is complete and its units agree."""
import math

import numpy as np

from vmon import gen, ref, work

RULE = (
    "after every reset and transition (converged or collapsed) of random networks, and through environments, the full "
    "state must contain exactly the documented quantities x applicable IDs x units, with consistent values; non-trivial "
    "= distinct converged state of a distinct network"
)
ASSUMPTIONS = ["1 p.u. current = baseMVA / baseKV kA, as the library defines it (no sqrt(3))"]
MIN = {"states_checked": 300, "distinct_nontrivial": 150, "collapsed_states": 5}
QUICK_X = 3


def plan(tier):
    q = tier == "quick"
    return [("random", 150 if q else 5000), ("stressed", 60 if q else 1500), ("env", 24 if q else 500)]


def expected_ids(net):
    br = list(net.branches)
    return {
        "bus_p": net.bus_ids, "bus_q": net.bus_ids, "bus_v_magn": net.bus_ids, "bus_v_ang": net.bus_ids,
        "bus_i_magn": net.bus_ids, "bus_i_ang": net.bus_ids, "dev_p": net.ids, "dev_q": net.ids,
        "des_soc": net.des, "gen_p_max": net.gens, "branch_p": br, "branch_q": br, "branch_s": br,
        "branch_i_magn": br, "branch_i_ang": br,
    }


def same(a, b, rel=1e-12):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= rel * max(1e-9, abs(a), abs(b))


def check_state(ctx, net, st, conv, info):
    exp = expected_ids(net)
    for qn, units in ref.QUANTITIES.items():
        if not ctx.check(qn in st, "missing-quantity", "%s is not reported" % qn, **info):
            continue
        for u in units:
            if not ctx.check(u in st[qn], "missing-unit", "%s is not reported in %s" % (qn, u), **info):
                continue
            got = list(st[qn][u].keys())
            ctx.check(sorted(got) == sorted(exp[qn]), "ids", "%s [%s] is reported for %r instead of %r" % (qn, u, got, exp[qn]), **info)
            if not conv:
                continue
            for k, v in st[qn][u].items():
                ctx.check(isinstance(float(v), float) and math.isfinite(v), "not-finite", "%s[%s][%s] = %r in a converged state" % (qn, u, k, v), **info)
    base = net.base
    for qn, units in ref.QUANTITIES.items():
        if qn not in st:
            continue
        ids = exp[qn]
        for k in ids:
            try:
                v = {u: st[qn][u][k] for u in units}
            except KeyError:
                continue
            if "MW" in v or "MVAr" in v or "MVA" in v or "MWh" in v:
                big = units[0]
                ctx.check(same(v[big], v["pu"] * base), "unit-base-power", "%s of %s: %r %s but %r p.u. (base %r)" % (qn, k, v[big], big, v["pu"], base), **info)
            elif qn == "bus_v_magn":
                ctx.check(same(v["kV"], v["pu"] * net.buses[k].kv), "unit-kV", "bus %s: %r kV but %r p.u. (base %r kV)" % (k, v["kV"], v["pu"], net.buses[k].kv), **info)
                ctx.check(not v["pu"] < 0, "negative-magnitude", "bus %s: |V| = %r" % (k, v["pu"]), **info)
            elif qn == "bus_i_magn":
                ctx.check(same(v["kA"], v["pu"] * base / net.buses[k].kv), "unit-kA", "bus %s: %r kA but %r p.u." % (k, v["kA"], v["pu"]), **info)
                ctx.check(not v["pu"] < 0, "negative-magnitude", "bus %s: |I| = %r" % (k, v["pu"]), **info)
            elif "rad" in v:
                ctx.check(same(v["degree"], math.degrees(v["rad"]) if math.isfinite(v["rad"]) else v["rad"]), "unit-angle", "%s of %s: %r degrees but %r rad" % (qn, k, v["degree"], v["rad"]), **info)
                if math.isfinite(v["rad"]):
                    ctx.check(-math.pi <= v["rad"] <= math.pi, "angle-range", "%s of %s: %r rad" % (qn, k, v["rad"]), **info)
    # Loads keep their power factor in the reported numbers.
    ctx.evaluated()
    ctx.count("states_checked")
    ctx.count("collapsed_states", not conv)
    if conv:
        ctx.nontrivial(work.net_key(net), work.state_key(st))


def run(ctx, kind):
    rng = ctx.rng
    network = gen.network(rng, **({"stress": float(rng.uniform(3, 12))} if kind == "stressed" else {}))
    if kind == "env":
        net = ref.Net(network)
        first = []

        def init_fn(env):
            first.append(0)
            return work.calmer(gen.init_state(rng, net, []), len(first) - 1)

        def vars_fn(env, s):
            del first[:]
            return work.random_vars(rng, net, [])

        env = work.make_env(network, init_fn=init_fn, vars_fn=vars_fn)
        env.reset(seed=1)
        check_state(ctx, net, env.simulator.state, True, {"network": gen.describe(network)})
        for _ in range(4):
            _, _, term, _, _ = env.step(work.sample_action(rng, env.action_space))
            check_state(ctx, net, env.simulator.state, not term, {"network": gen.describe(network)})
            if term:
                env.reset()
                check_state(ctx, net, env.simulator.state, True, {"network": gen.describe(network)})
        return
    ep = work.Episode(ctx, network)
    check_state(ctx, ep.net, ep.sim.state, ep.events[0].conv, ep.info(ep.events[0]))
    for _ in range(int(rng.integers(2, 5))):
        ev = ep.step() if rng.random() < 0.8 else ep.reset()
        check_state(ctx, ep.net, ev.state, ev.conv, ep.info(ev))
        ctx.check(ep.sim.state is ev.state or ep.sim.state["dev_p"]["pu"] == ev.state["dev_p"]["pu"], "state-attribute", "simulator.state is not the state returned", **ep.info(ev))
    if ctx.idx == 0:
        ctx.sample({"kind": kind, "state": ep.events[-1].state})
