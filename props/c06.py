"""C06: applied set-points always lie in the device's feasible region."""
import math

import numpy as np

from vmon import gen, ref, work

RULE = (
    "random devices (omitted limits, degenerate boxes, partial capability points, equal limits) receive inside, wide, "
    "corner, extreme (up to 1e5 x rating) and zero requests, with any potential generation and state of charge; "
    "non-trivial = distinct request that lies outside the device's region at that time"
)
ASSUMPTIONS = [
    "feasibility up to 1e-7 p.u. + 1e-9 of the request size (floating-point rounding of the projection)",
    "requests are finite",
    "Q+ < QMAX with QMAX omitted is not used (the sloped limit has no finite meaning then)",
]
MIN = {"points_checked": 1200, "distinct_nontrivial": 500, "sloped_active": 60, "soc_limited": 60, "pot_limited": 60}
QUICK_X = 4


def plan(tier):
    q = tier == "quick"
    return [("random", 150 if q else 6000), ("storage", 80 if q else 3000), ("generators", 80 if q else 3000), ("long", 8 if q else 200)]


def tol(req, d):
    m = max([abs(x) for x in (d.pmin, d.pmax, getattr(d, "qmin", 0), getattr(d, "qmax", 0)) if math.isfinite(x)] + [0.0])
    return 1e-9 * (1 + m) + 1e-7 * min(1.0, m + 1e-3) + 1e-9 * abs(req)


def check_event(ctx, ep, ev):
    net, st = ep.net, ev.state
    info = ep.info(ev)
    for i, d in net.devs.items():
        if d.typ == 0:
            continue
        p, q = st["dev_p"]["pu"][i], st["dev_q"]["pu"][i]
        if d.typ == -1:
            want = ev.req[0][i] / net.base if ev.kind == "step" else ev.init[net.ids.index(i)] / net.base
            exp = min(max(want, d.pmin), d.pmax)
            t = 1e-12 * (1 + abs(exp))
            ctx.check(abs(p - exp) <= t, "load-clip", "load %d asked %r p.u. in [%r, %r]: applied %r" % (i, want, d.pmin, d.pmax, p), **info)
            ctx.check(abs(q - p * d.qp) <= t, "load-ratio", "load %d: q/p = %r instead of %r" % (i, q / p if p else q, d.qp), **info)
            ctx.count("loads")
            continue
        if ev.kind == "reset":
            # The SoC constraint used during a reset is that of an empty / full
            # unit; the operating limits hold in any case.
            k = net.ids.index(i)
            wp, wq = ev.init[k] / net.base, ev.init[len(net.ids) + k] / net.base
            pot = ev.init[2 * len(net.ids) + len(net.des) + net.gens.index(i)] / net.base if d.typ != 3 else None
            region = net.constraints(d, p_pot=pot) if d.typ != 3 else net.constraints(d, soc=d.smin if wp <= 0 else d.smax, dt=ep.dt)
        else:
            wp, wq = ev.req[2][i] / net.base, ev.req[3][i] / net.base
            pot = ev.req[1][i] / net.base if d.typ != 3 else None
            region = net.constraints(d, p_pot=pot, soc=ev.before.get(i), dt=ep.dt)
        t = tol(math.hypot(wp, wq), d)
        ex = net.excess(region, p, q)
        ctx.check(math.isfinite(p) and math.isfinite(q) and ex <= t, "outside-region", "device %d (type %d): request (%r, %r) p.u. applied as (%r, %r), %.3g outside of p in [%r, %r], q <= %r, q >= %r (a + c p)" % (i, d.typ, wp, wq, p, q, ex, region[0], region[1], region[2], region[3]), soc=ev.before.get(i), **info)
        ctx.track("largest_excess", max(0.0, ex))
        ctx.count("points_checked")
        if net.excess(region, wp, wq) > t:
            ctx.nontrivial(i, round(wp, 9), round(wq, 9), work.net_key(net))
            ctx.count("outside_requests")
            box = p <= d.pmax - 1e-9 and p >= d.pmin + 1e-9
            if any(c != 0 and abs(q - (a + c * p)) < 1e-9 for a, c in region[2] + region[3]):
                ctx.count("sloped_active")
            if d.typ == 3 and box and (abs(p - region[0]) < 1e-9 or abs(p - region[1]) < 1e-9):
                ctx.count("soc_limited")
            if d.typ != 3 and box and abs(p - region[1]) < 1e-9:
                ctx.count("pot_limited")
    ctx.evaluated()


def run(ctx, kind):
    rng = ctx.rng
    kw = {}
    if kind == "storage":
        kw = dict(n_bus=2, n_load=0, n_gen=0, n_rer=0, n_des=4)
    elif kind == "generators":
        kw = dict(n_bus=2, n_load=1, n_gen=2, n_rer=3, n_des=0)
    ep = work.Episode(ctx, gen.network(rng, **kw))
    check_event(ctx, ep, ep.events[0])
    n = 60 if kind == "long" else int(rng.integers(3, 8))
    for k in range(n):
        ev = ep.step() if rng.random() < 0.93 else ep.reset()
        check_event(ctx, ep, ev)
    if ctx.idx == 0:
        ev = ep.events[-1]
        ctx.sample({"kind": kind, "devices": gen.describe(ep.network)["device"], "request": getattr(ev, "req", None), "applied_p": ev.state["dev_p"]["MW"], "applied_q": ev.state["dev_q"]["MVAr"]})
