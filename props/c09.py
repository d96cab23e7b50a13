"""C09: the simulator's reward is minus (energy loss + penalty) of the reached state."""
import math

import numpy as np

from vmon import gen, ref, work

RULE = (
    "random transitions of networks with tight and loose ratings and voltage limits, all device mixes, lambda and "
    "delta_t; the reward terms are recomputed from the reached state (apparent power at both ends from the voltages, "
    "curtailment from the requested potential); non-trivial = distinct converged transition with a non-zero penalty or "
    "curtailment"
)
ASSUMPTIONS = ["the reached state is the one reported (its physics is C01-C04)"]
MIN = {"converged": 200, "distinct_nontrivial": 120, "voltage_violations": 30, "rating_violations": 60, "curtailed": 60, "no_violation": 30, "slack_excess": 20}
QUICK_X = 3


def plan(tier):
    q = tier == "quick"
    return [("random", 110 if q else 4000), ("tight", 110 if q else 4000), ("voltage", 60 if q else 2000), ("collapse", 15 if q else 300)]


def check_event(ctx, ep, ev):
    net, st = ep.net, ev.state
    info = ep.info(ev)
    ctx.check(not ev.penalty < 0, "negative-penalty", "penalty = %r" % ev.penalty, **info)
    if not ev.conv:
        return
    V = ref.volts(st)
    pot = {i: min(max(ev.req[1][i] / net.base, net.devs[i].pmin), net.devs[i].pmax) for i in net.rers}
    smax = {}
    for k, br in net.branches.items():
        _, _, s_f, s_t = net.flows(br, V)
        smax[k] = max(abs(s_f), abs(s_t))
    vm = {b: abs(v) for b, v in V.items()}
    loss, pen = net.reward(st["dev_p"]["pu"], pot, vm, smax, ep.lamb, ep.dt)
    ysum = sum(abs(br.ys) for br in net.branches.values())
    psum = sum(abs(x) for x in st["dev_p"]["pu"].values())
    ctx.close(ev.e_loss, loss, 1e-10 * (1 + psum) * max(1, ep.dt), "energy-loss", "energy loss (p.u.h)", **info)
    ctx.close(ev.penalty, pen, (1e-11 * (1 + ysum)) * max(1.0, ep.lamb * ep.dt), "penalty", "penalty", **info)
    ctx.close(ev.reward, -(ev.e_loss + ev.penalty), 1e-12 * (1 + abs(ev.e_loss) + abs(ev.penalty)), "reward-sum", "reward vs -(loss + penalty)", **info)
    viol = any(vm[b.id] > b.vmax + 1e-9 or vm[b.id] < b.vmin - 1e-9 for b in net.buses.values())
    over = any(smax[k] > br.rate + 1e-9 for k, br in net.branches.items())
    if ep.lamb > 0:
        if viol or over:
            ctx.check(ev.penalty > 0, "missed-violation", "limits are violated but the penalty is %r" % ev.penalty, **info)
        elif not any(vm[b.id] > b.vmax - 1e-9 or vm[b.id] < b.vmin + 1e-9 for b in net.buses.values() if not b.slack) and not any(smax[k] > br.rate - 1e-9 for k, br in net.branches.items()):
            ctx.check(ev.penalty <= 1e-9 * ep.lamb, "phantom-penalty", "no limit is violated but the penalty is %r" % ev.penalty, **info)
    # The reported larger-end flow is what is penalised, at either end.
    ctx.count("voltage_violations", viol)
    ctx.count("rating_violations", over)
    ctx.count("no_violation", not viol and not over)
    cur = any(pot[i] - st["dev_p"]["pu"][i] > 1e-9 for i in net.rers)
    ctx.count("curtailed", cur)
    ctx.evaluated()
    if viol or over or cur:
        ctx.nontrivial(work.net_key(net), round(float(ev.reward), 9))


def run(ctx, kind):
    rng = ctx.rng
    kw = {}
    if kind == "tight":
        kw = dict(rates="tight", n_rer=int(rng.integers(1, 4)))
    elif kind == "voltage":
        kw = dict(rates="none", stress=float(rng.uniform(0.8, 2)))
    elif kind == "collapse":
        kw = dict(stress=30.0)
    network = gen.network(rng, **kw)
    if kind == "voltage":
        for r in network["bus"]:
            if r[1] != 0:
                r[3] = gen.r6(rng.uniform(0.95, 1.05))
                r[4] = gen.r6(r[3] - rng.uniform(0, 0.03))
            elif rng.random() < 0.5:
                # The slack bus is held at 1 p.u., which its own limits may exclude.
                r[3], r[4] = [(gen.r6(rng.uniform(0.9, 0.999)), 0.0), (gen.r6(rng.uniform(0.9, 0.999)), 0.85), (1.1, gen.r6(rng.uniform(1.001, 1.05)))][int(rng.integers(3))]
                ctx.count("slack_excess")
    ep = work.Episode(ctx, network)
    for k in range(int(rng.integers(2, 7))):
        check_event(ctx, ep, ep.step())
    if ctx.idx == 0:
        e = ep.events[-1]
        ctx.sample({"kind": kind, "network": gen.describe(network), "reward": e.reward, "e_loss": e.e_loss, "penalty": e.penalty})
