"""C03: active and reactive power are conserved everywhere."""
import numpy as np

from vmon import gen, ref, work

RULE = (
    "random networks and transitions as in C01, biased to devices at the slack bus, capacitive lines and meshes; "
    "non-trivial = distinct converged state with a non-zero series loss"
)
ASSUMPTIONS = ["tolerance of one power flow mismatch (1e-5 p.u.) per bus", "networks are connected and have >= 2 buses"]
MIN = {"converged": 150, "distinct_nontrivial": 100, "devices_at_slack": 30}
QUICK_X = 3


def plan(tier):
    q = tier == "quick"
    return [("random", 160 if q else 6000), ("slack-devices", 80 if q else 2500), ("stressed", 50 if q else 1500)]


def check_state(ctx, ep, ev):
    if not ev.conv:
        return
    net, st = ep.net, ev.state
    info = ep.info(ev)
    V = ref.volts(st)
    dev_s = {i: complex(st["dev_p"]["pu"][i], st["dev_q"]["pu"][i]) for i in net.ids}
    bus_s = {b: complex(st["bus_p"]["pu"][b], st["bus_q"]["pu"][b]) for b in net.bus_ids}
    # 1. bus = sum of its devices
    for b in net.bus_ids:
        tot = sum((dev_s[i] for i in net.ids if net.devs[i].bus == b), 0j)
        n_at = sum(net.devs[i].bus == b for i in net.ids)
        if b == net.slack_bus and n_at > 1:
            ctx.count("devices_at_slack")
        ctx.check(abs(tot - bus_s[b]) <= 1e-9 * (1 + abs(tot) + sum(abs(dev_s[i]) for i in net.ids if net.devs[i].bus == b)), "devices-vs-bus", "bus %d%s: reports %r, its %d devices sum to %r" % (b, " (slack)" if b == net.slack_bus else "", bus_s[b], n_at, tot), **info)
    # 2. bus = sum of branch flows
    out = {b: 0j for b in net.bus_ids}
    scale = {b: 1.0 for b in net.bus_ids}
    loss, qloss = 0.0, 0.0
    for k, br in net.branches.items():
        i_f, i_t, s_f, s_t = net.flows(br, V)
        rep = complex(st["branch_p"]["pu"][k], st["branch_q"]["pu"][k])
        out[br.f] += rep
        out[br.t] += s_t
        scale[br.f] += abs(br.yff)
        scale[br.t] += abs(br.ytt)
        i_s = br.ys * (V[br.f] / br.tap - V[br.t])
        l = br.r * abs(i_s) ** 2
        loss += l
        qloss += br.x * abs(i_s) ** 2 - 0.5 * br.b * (abs(V[br.f] / br.a) ** 2 + abs(V[br.t]) ** 2)
        # the documented attributes of the branch, which the full state does not carry
        obj = getattr(ep.sim, "branches", {}).get(k)
        if getattr(obj, "p_to", None) is not None and getattr(obj, "q_to", None) is not None:
            ctx.count("receiving_flows")
            ctx.check(abs(complex(obj.p_to, obj.q_to) - s_t) <= 1e-9 * (1 + abs(br.ytt) + abs(br.ys)), "receiving-flow", "branch %s: receiving-end flow %r instead of %r" % (k, complex(obj.p_to, obj.q_to), s_t), **info)
        # reported sending flow - implied receiving flow = loss of the line
        ctx.check(abs((rep + s_t).real - l) <= 1e-9 * (1 + abs(br.ys)), "branch-loss", "branch %s: flow in minus flow out is %r but r|i|^2 = %r" % (k, (rep + s_t).real, l), **info)
        ctx.check((rep + s_t).real >= -1e-9 * (1 + abs(br.ys)), "negative-loss", "branch %s creates active power" % (k,), **info)
    for b in net.bus_ids:
        tol = 1.5e-5 + 1e-12 * scale[b]
        ctx.check(abs(out[b] - bus_s[b]) <= tol * 1.42, "branches-vs-bus", "bus %d: injects %r but its branches carry away %r" % (b, bus_s[b], out[b]), **info)
    # 3. network balance
    tot = sum(dev_s.values(), 0j)
    tol = 1.5e-5 * len(net.bus_ids) + 1e-12 * sum(scale.values())
    ctx.check(abs(tot.real - loss) <= tol, "network-balance-P", "net injection %r, series losses %r" % (tot.real, loss), **info)
    ctx.check(abs(tot.imag - qloss) <= tol, "network-balance-Q", "net reactive injection %r, line consumption %r" % (tot.imag, qloss), **info)
    ctx.check(loss >= 0 and tot.real >= -tol, "negative-loss", "network creates active power: %r" % tot.real, **info)
    ctx.evaluated()
    ctx.count("branches_checked", len(net.branches))
    if loss > 1e-9:
        ctx.nontrivial(work.net_key(net), work.state_key(st))


def run(ctx, kind):
    rng = ctx.rng
    kw = {}
    if kind == "slack-devices":
        kw = dict(n_bus=int(rng.integers(2, 5)), n_load=3, n_gen=2, n_rer=1, n_des=2)
    elif kind == "stressed":
        kw = dict(stress=float(rng.uniform(1, 4)))
    network = gen.network(rng, **kw)
    if kind == "slack-devices":
        rows = network["device"]
        sb = [r[1] for r in rows if r[2] == 0][0]
        for r in rows:
            if r[2] != 0 and rng.random() < 0.4:
                r[1] = sb
    ep = work.Episode(ctx, network)
    check_state(ctx, ep, ep.events[0])
    for _ in range(int(rng.integers(2, 6))):
        check_state(ctx, ep, ep.step() if rng.random() < 0.85 else ep.reset())
    if ctx.idx == 0:
        st = ep.events[-1].state
        ctx.sample({"kind": kind, "network": gen.describe(network), "bus_p": st["bus_p"]["pu"], "dev_p": st["dev_p"]["pu"], "branch_p": st["branch_p"]["pu"]})
