"""C07: set-points are mapped to the closest feasible injection."""
import copy
import math

import numpy as np

from vmon import gen, ref, work

RULE = (
    "as C06, with the applied point compared with the exact Euclidean projection (independent 1-D convex piecewise "
    "quadratic minimisation), plus feasible requests (kept unchanged), re-requests of applied points (fixed points) and "
    "pairs of requests (the mapping never expands distances); non-trivial = distinct request outside the region"
)
ASSUMPTIONS = ["finite requests", "distances compared up to 1e-12 of the distance, positions up to 1e-7 p.u. of the rating + 1e-7 of the distance"]
MIN = {"points_checked": 1000, "distinct_nontrivial": 400, "feasible_requests": 150, "fixed_points": 100, "vertex_or_edge": 60, "loads_outside_limits": 40}
QUICK_X = 2


def plan(tier):
    q = tier == "quick"
    return [("random", 120 if q else 5000), ("storage", 100 if q else 3500), ("generators", 100 if q else 3500), ("feasible", 60 if q else 2000)]


def tol(req, d):
    m = max([abs(x) for x in (d.pmin, d.pmax, d.qmin, d.qmax) if math.isfinite(x)] + [0.0])
    return 1e-9 * (1 + m) + 1e-7 * min(1.0, m + 1e-3) + 1e-9 * abs(req)


def regions(ep, before, req):
    net = ep.net
    out = {}
    for i in net.gens + net.des:
        d = net.devs[i]
        pot = req[1][i] / net.base if d.typ != 3 else None
        out[i] = (net.constraints(d, p_pot=pot, soc=before.get(i), dt=ep.dt), req[2][i] / net.base, req[3][i] / net.base)
    return out


def check_event(ctx, ep, ev):
    net, st = ep.net, ev.state
    info = ep.info(ev)
    for i, (region, wp, wq) in regions(ep, ev.before, ev.req).items():
        d = net.devs[i]
        p, q = st["dev_p"]["pu"][i], st["dev_q"]["pu"][i]
        bp, bq = net.project(region, wp, wq)
        t = tol(math.hypot(wp, wq), d)
        ctx.count("points_checked")
        if net.excess(region, wp, wq) <= 0:
            ctx.count("feasible_requests")
            ctx.check(abs(p - wp) <= 1e-9 * (1 + abs(wp)) and abs(q - wq) <= 1e-9 * (1 + abs(wq)), "feasible-request-changed", "device %d: feasible request (%r, %r) p.u. applied as (%r, %r)" % (i, wp, wq, p, q), **info)
        else:
            ctx.nontrivial(i, round(wp, 9), round(wq, 9), work.net_key(net))
        # Squared distances are only defined up to rounding: points whose
        # distances agree to 1e-14 may lie ~1e-7 x distance apart.
        D = math.hypot(bp - wp, bq - wq)
        worse = math.hypot(p - wp, q - wq) - D
        ctx.check(math.hypot(p - bp, q - bq) <= t + 1e-7 * D and worse <= t * 1e-3 + 1e-12 * D + 1e-11, "not-closest", "device %d (type %d): request (%r, %r) applied as (%r, %r) at distance %.9g; (%r, %r) is feasible at distance %.9g" % (i, d.typ, wp, wq, p, q, math.hypot(p - wp, q - wq), bp, bq, math.hypot(bp - wp, bq - wq)), region=region, **info)
        ctx.track("distance_to_closest_point", math.hypot(p - bp, q - bq))
        if any(c != 0 and abs(q - (a + c * p)) < 1e-9 for a, c in region[2] + region[3]):
            ctx.count("vertex_or_edge")
    # A load is moved to the closest demand within [PMIN, PMAX], with Q = P * (Q/P).
    for i in net.loads:
        d = net.devs[i]
        want = ev.req[0][i] / net.base
        best = min(max(want, d.pmin), d.pmax)
        ctx.count("loads_outside_limits", best != want)
        p, q = st["dev_p"]["pu"][i], st["dev_q"]["pu"][i]
        ctx.close([p, q], [best, best * d.qp], 1e-9 * (1 + abs(best)), "load", "load %d: demand %r p.u. in [%r, %r]" % (i, want, d.pmin, d.pmax), **info)
    ctx.evaluated()


def run(ctx, kind):
    rng = ctx.rng
    kw = {}
    if kind == "storage":
        kw = dict(n_bus=2, n_load=0, n_gen=0, n_rer=0, n_des=4)
    elif kind in ("generators", "feasible"):
        kw = dict(n_bus=2, n_load=0, n_gen=2, n_rer=3, n_des=1)
    ep = work.Episode(ctx, gen.network(rng, **kw))
    net = ep.net
    for k in range(int(rng.integers(3, 7))):
        before = dict(ep.state["des_soc"]["pu"])
        req = gen.request(rng, net)
        if kind == "feasible" or rng.random() < 0.2:
            # Move the requests into (or onto the border of) the regions.
            for i, (region, wp, wq) in regions(ep, before, req).items():
                bp, bq = net.project(region, wp, wq)
                mid = net.project(region, 0.0, 0.0)
                u = gen.pick(rng, [0.0, rng.random(), 1 - 1e-9])
                req[2][i] = (mid[0] + u * (bp - mid[0])) * net.base
                req[3][i] = (mid[1] + u * (bq - mid[1])) * net.base
        twin = copy.deepcopy(ep.sim)
        twin2 = copy.deepcopy(ep.sim)
        ev = ep.step(req)
        check_event(ctx, ep, ev)
        # Fixed points: requesting what was applied applies it again.
        st = ev.state
        P = {i: st["dev_p"]["pu"][i] * net.base for i in net.gens + net.des}
        Q = {i: st["dev_q"]["pu"][i] * net.base for i in net.gens + net.des}
        st2 = twin.transition(req[0], req[1], dict(P), dict(Q))[0]
        for i in P:
            d = net.devs[i]
            t = tol(math.hypot(P[i], Q[i]) / net.base, d)
            e = math.hypot(st2["dev_p"]["pu"][i] - st["dev_p"]["pu"][i], st2["dev_q"]["pu"][i] - st["dev_q"]["pu"][i])
            ctx.count("fixed_points")
            ctx.check(e <= t, "not-idempotent", "device %d: re-requesting the applied point (%r, %r) MW moves it by %.3g p.u." % (i, P[i], Q[i], e), **ep.info(ev))
        # Non-expansive: a second request ends no further away than it was asked.
        req2 = gen.request(rng, net)
        st3 = twin2.transition(req[0], req[1], req2[2], req2[3])[0]
        for i in P:
            a = math.hypot(req2[2][i] - req[2][i], req2[3][i] - req[3][i]) / net.base
            b = math.hypot(st3["dev_p"]["pu"][i] - st["dev_p"]["pu"][i], st3["dev_q"]["pu"][i] - st["dev_q"]["pu"][i])
            d = net.devs[i]
            t = tol(max(abs(req2[2][i]), abs(req2[3][i]), abs(req[2][i]), abs(req[3][i])) / net.base, d)
            ctx.check(b <= a + t, "expansive", "device %d: requests %.6g p.u. apart are applied %.6g apart" % (i, a, b), **ep.info(ev))
    if ctx.idx == 0:
        ctx.sample({"kind": kind, "devices": gen.describe(ep.network)["device"], "request": ep.events[-1].req, "applied": st["dev_p"]["MW"]})
