"""C01: converged states satisfy the AC power flow equations."""
import numpy as np

from vmon import gen, ref, work

RULE = (
    "random valid networks (2-40 buses, trees and meshes, any bus IDs and slack position, taps, shifts, charging, "
    "omitted values, several base powers) driven through resets and transitions with random, boundary and extreme "
    "requests; non-trivial = a distinct converged state with at least one non-zero injection at a non-slack bus"
)
ASSUMPTIONS = [
    "the solver tolerance is 1e-5 p.u. on each non-slack bus (the library's default)",
    "networks are connected and have >= 2 buses",
]
MIN = {"converged": 150, "distinct_nontrivial": 100, "cases:sparse-ids": 10, "slack_not_first": 20}
TOL = 1.02e-5
QUICK_X = 3


def plan(tier):
    q = tier == "quick"
    return [("random", 160 if q else 6000), ("sparse-ids", 60 if q else 1500), ("stressed", 60 if q else 1500), ("large", 16 if q else 400), ("ratios", 60 if q else 1500)]


def check_state(ctx, ep, ev):
    net, st = ep.net, ev.state
    if not ev.conv:
        return
    V = ref.volts(st)
    ids = net.bus_ids
    Y = net.ybus()
    v = np.array([V[b] for b in ids])
    I = Y @ v
    S = v * np.conj(I)
    p = np.array([st["bus_p"]["pu"][b] for b in ids], dtype=float)
    q = np.array([st["bus_q"]["pu"][b] for b in ids], dtype=float)
    ysc = 1e-12 * (1 + np.abs(Y).max())
    k = net.ix[net.slack_bus]
    tol = np.full(len(ids), TOL + ysc)
    tol[k] = 1e-9 + 100 * ysc
    ctx.close(S.real, p, tol, "active-balance", "V conj(YV) vs reported bus P (p.u.)", **ep.info(ev))
    ctx.close(S.imag, q, tol, "reactive-balance", "V conj(YV) vs reported bus Q (p.u.)", **ep.info(ev))

    im = np.array([st["bus_i_magn"]["pu"][b] for b in ids])
    ia = np.array([st["bus_i_ang"]["rad"][b] for b in ids])
    Irep = im * np.exp(1j * ia)
    ctx.close(Irep.real, I.real, 1e-9 + 100 * ysc, "bus-current", "reported bus current vs YV (real part)", **ep.info(ev))
    ctx.close(Irep.imag, I.imag, 1e-9 + 100 * ysc, "bus-current", "reported bus current vs YV (imaginary part)", **ep.info(ev))

    ctx.close(st["bus_v_magn"]["pu"][net.slack_bus], 1.0, 1e-12, "slack-magnitude", "|V| of the slack bus", **ep.info(ev))
    ctx.close(st["bus_v_ang"]["rad"][net.slack_bus], 0.0, 1e-12, "slack-angle", "angle of the slack bus", **ep.info(ev))

    inj = {b: 0.0 + 0.0j for b in ids}
    for i, d in net.devs.items():
        inj[d.bus] += complex(st["dev_p"]["pu"][i], st["dev_q"]["pu"][i])
    for b in ids:
        if b != net.slack_bus:
            s = complex(st["bus_p"]["pu"][b], st["bus_q"]["pu"][b])
            ctx.check(abs(s - inj[b]) <= 1e-9 * (1 + abs(s)), "bus-injection", "bus %d injects %r but its devices inject %r" % (b, s, inj[b]), **ep.info(ev))
    ctx.evaluated()
    if any(abs(inj[b]) > 1e-9 for b in ids if b != net.slack_bus):
        ctx.nontrivial(work.net_key(net), work.state_key(st))
        if net.slack_bus != min(ids):
            ctx.count("slack_not_first")
    ctx.count("buses_checked", len(ids))


def run(ctx, kind):
    rng = ctx.rng
    kw = {}
    if kind == "sparse-ids":
        kw = dict(bus_ids=gen.pick(rng, ["sparse", "wide", "shuffled"]), dev_ids="sparse")
    elif kind == "stressed":
        kw = dict(stress=float(rng.uniform(1.5, 5)))
    elif kind == "large":
        kw = dict(n_bus=int(rng.integers(13, 41)), n_load=int(rng.integers(4, 14)), n_gen=3, n_rer=4, n_des=3)
    network = gen.network(rng, **kw)
    if kind == "ratios":
        # Short lines (busbar sections) next to long ones.
        rows = network["branch"]
        for i in range(len(rows)):
            if rng.random() < 0.5:
                f = 10 ** -rng.uniform(1, 6)
                rows[i][2], rows[i][3] = float((rows[i][2] or 0) * f), float((rows[i][3] or 0) * f)
    ep = work.Episode(ctx, network)
    check_state(ctx, ep, ep.events[0])
    for _ in range(int(rng.integers(2, 6))):
        if rng.random() < 0.15:
            ev = ep.reset()
        else:
            ev = ep.step()
        check_state(ctx, ep, ev)
    if ctx.idx < 1:
        ctx.sample({"kind": kind, "network": gen.describe(ep.network), "states": [{"converged": bool(e.conv), "V": e.state["bus_v_magn"]["pu"]} for e in ep.events]})
