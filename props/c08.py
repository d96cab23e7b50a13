"""C08: state of charge follows the storage dynamics and stays in bounds."""
import math

import numpy as np

from vmon import gen, ref, work

RULE = (
    "storage-rich networks driven through long histories of (dis)charging, boundary-riding, idle, collapsing and reset "
    "steps with random efficiency (0-1), capacities and time steps; the SoC trace is replayed offline from the reported "
    "injections; non-trivial = distinct transition with a non-zero storage injection"
)
ASSUMPTIONS = ["SoC compared up to 1e-9 p.u.h relative to the capacity"]
MIN = {"soc_updates": 1500, "distinct_nontrivial": 600, "charging": 200, "discharging": 200, "hit_empty": 30, "hit_full": 30, "after_collapse": 20}


def plan(tier):
    q = tier == "quick"
    return [("long", 40 if q else 1200), ("short", 80 if q else 2500), ("ride", 30 if q else 800), ("collapse", 30 if q else 800), ("directed", 6 if q else 60)]


def check_bounds(ctx, ep, ev):
    net = ep.net
    for i in net.des:
        d = net.devs[i]
        s = ev.state["des_soc"]["pu"][i]
        e = 1e-12 * (1 + abs(d.smax))
        ctx.check(d.smin - e <= s <= d.smax + e, "soc-bounds", "storage %d: SoC %r outside [%r, %r]" % (i, s, d.smin, d.smax), **ep.info(ev))


def check_event(ctx, ep, ev, acc):
    net = ep.net
    check_bounds(ctx, ep, ev)
    if ev.kind == "reset":
        acc.clear()
        return
    for i in net.des:
        d = net.devs[i]
        p = ev.state["dev_p"]["pu"][i]
        s0, s1 = ev.before[i], ev.state["des_soc"]["pu"][i]
        exp = net.soc_next(d, s0, p, ep.dt)
        t = 1e-9 * (1e-3 + d.smax) + 1e-12
        ctx.check(abs(s1 - exp) <= t, "soc-dynamics", "storage %d (eff %r): SoC %r -> %r with p = %r p.u. during %r h, expected %r" % (i, d.eff, s0, s1, p, ep.dt, exp), **ep.info(ev))
        ctx.track("soc_error", abs(s1 - exp))
        # The applied power is never more than what can be stored / delivered:
        # without clipping the documented dynamics stay within the capacity.
        raw = s0 - ep.dt * (d.eff * p if p <= 0 else (p / d.eff if d.eff > 0 else math.inf))
        ctx.check(d.smin - t <= raw <= d.smax + t, "energy-from-nowhere", "storage %d: p = %r p.u. from SoC %r would lead to %r outside [%r, %r]" % (i, p, s0, raw, d.smin, d.smax), **ep.info(ev))
        # Ledger over the whole history since the last reset.
        a = acc.setdefault(i, [s0, 0.0, 0.0, 0])
        a[1] += ep.dt * max(0.0, -p)
        a[2] += ep.dt * max(0.0, p)
        a[3] += 1
        bal = a[0] + d.eff * a[1] - (a[2] / d.eff if a[2] > 0 else 0.0) if d.eff > 0 else a[0]
        ctx.check(abs(bal - s1) <= t * (2 + a[3]), "ledger", "storage %d: after %d steps SoC is %r but initial + eff x charged - discharged / eff = %r" % (i, a[3], s1, bal), **ep.info(ev))
        ctx.count("soc_updates")
        ctx.count("charging", p < -1e-9)
        ctx.count("discharging", p > 1e-9)
        ctx.count("hit_empty", p > 1e-9 and abs(s1 - d.smin) < 1e-9)
        ctx.count("hit_full", p < -1e-9 and abs(s1 - d.smax) < 1e-9)
        ctx.count("after_collapse", not ev.conv)
        if abs(p) > 1e-9:
            ctx.nontrivial(i, round(p, 9), round(s0, 9), d.eff, ep.dt)
    ctx.evaluated()


def run(ctx, kind):
    rng = ctx.rng
    kw = dict(n_bus=int(rng.integers(2, 5)), n_load=int(rng.integers(0, 3)), n_gen=int(rng.integers(0, 2)), n_rer=int(rng.integers(0, 2)), n_des=int(rng.integers(1, 4)))
    if kind == "collapse":
        kw["stress"] = float(rng.uniform(5, 40))
    network = gen.network(rng, **kw)
    if kind == "directed":
        for r in network["device"]:
            if r[2] == 3:
                r[14] = [0.0, 1.0, None, 1e-3, 0.5, 0.0][ctx.idx % 6] if network["device"].dtype == object else [0.0, 1.0, 1.0, 1e-3, 0.5, 0.0][ctx.idx % 6]
    ep = work.Episode(ctx, network)
    acc = {}
    check_event(ctx, ep, ep.events[0], acc)
    n = {"long": 60, "short": 8, "ride": 40, "collapse": 15, "directed": 10}[kind]
    direction = {i: 1 for i in ep.net.des}
    for k in range(n):
        if kind == "ride":
            # Charge to full, discharge to empty, again and again.
            req = gen.request(rng, ep.net)
            for i in ep.net.des:
                if rng.random() < 0.15:
                    direction[i] *= -1
                req[2][i] = direction[i] * gen.scale_of(ep.net) * ep.net.base * float(rng.choice([0.1, 1, 5]))
            ev = ep.step(req)
        elif rng.random() < 0.04:
            ev = ep.reset()
        else:
            ev = ep.step()
        check_event(ctx, ep, ev, acc)
    if ctx.idx == 0:
        ctx.sample({"kind": kind, "soc_trace_MWh": [e.state["des_soc"]["MWh"] for e in ep.events[:8]], "p_MW": [{i: e.state["dev_p"]["MW"][i] for i in ep.net.des} for e in ep.events[:8]]})
