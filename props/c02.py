"""C02: the convergence flag is honest in both directions."""
import math

import numpy as np

from vmon import gen, ref, work
from vmon.core import Skip

RULE = (
    "(a) constructed: voltages near nominal are drawn first and the injections that produce them are requested, so a "
    "normal solution is known to exist; (b) nose: networks that reduce to one source behind one impedance, loaded at a "
    "known fraction of the analytic maximum (up to 1 - 3e-5 of it, and from 1.005 times it); (c) islands: buses without a path to the slack bus; (d) recovery: collapse, "
    "then a solvable request; non-trivial = distinct (network, request) whose solvability is known independently"
)
ASSUMPTIONS = [
    "close to the nose (above 90 % of the maximum) only loads without a voltage rise above 1.05 p.u. count as normal operating points",
    "near-nominal: |V| of the unloaded network in [0.93, 1.07], voltages within 3 % and 0.03 rad of it (any phase shifts), and an independent dense Newton method converges to it quickly",
    "a state is unsolvable when the two-bus discriminant is negative by more than 0.5%, or a loaded bus is islanded",
]
MIN = {"solvable_known": 100, "solvable_rotated": 30, "solvable_near_the_nose": 40, "unsolvable_known": 60, "recoveries": 15, "distinct_nontrivial": 120}
QUICK_X = 2


def plan(tier):
    q = tier == "quick"
    return [
        ("constructed", 150 if q else 4000),
        ("nose", 120 if q else 4000),
        ("recovery", 40 if q else 1000),
        ("island", 30 if q else 600),
        ("overload", 40 if q else 1500),
    ]


def injection_network(rng, n=None, **kw):
    """A network where every non-slack bus has one storage-free generator/load
    pair able to realise any moderate injection."""
    base = float(gen.pick(rng, [1, 10, 100, 37.5]))
    net = gen.network(rng, n_bus=n, base=base, n_load=0, n_gen=0, n_rer=0, n_des=0, shuffle=False, **kw)
    rows = [list(r) for r in net["device"]]
    sb = [r[1] for r in rows if r[2] == 0][0]
    did = max(r[0] for r in rows) + 1
    for b in net["bus"]:
        if b[0] == sb:
            continue
        # A storage unit with ample energy realises any (P, Q) exactly.
        row = [did, b[0], 3] + [None] * 12
        m = 50 * base
        row[4:8] = [m, -m, m, -m]
        row[12:15] = [1e9, 0.0, 1.0]
        rows.append(row)
        did += 1
    net["device"] = gen.as_array(rng, rows)
    return net


def apply(ep, S):
    """Request injections S {bus: p.u.} through the storage units."""
    net = ep.net
    P, Q = {}, {}
    for i in net.des:
        s = S[net.devs[i].bus]
        P[i], Q[i] = s.real * net.base, s.imag * net.base
    return ep.step(({}, {}, P, Q))


def mid_soc(net):
    n = len(net.ids)
    s = np.zeros(2 * n + len(net.des))
    s[2 * n :] = 5e8
    return s


def run(ctx, kind):
    globals()["run_" + kind](ctx)


def known_solution(ctx, net, spread):
    """Voltages near nominal and the injections producing them."""
    rng = ctx.rng
    V0 = {b: 1.0 + 0j for b in net.bus_ids}
    # Profile with no injection at all (charging, taps and shifts included).
    base = unloaded(net)
    V = {}
    for b in net.bus_ids:
        V[b] = base[b] if b == net.slack_bus else base[b] * (1 + rng.uniform(-spread, spread)) * np.exp(1j * rng.uniform(-spread, spread))
    Y = net.ybus()
    v = np.array([V[b] for b in net.bus_ids])
    s = v * np.conj(Y @ v)
    return V, {b: complex(s[net.ix[b]]) for b in net.bus_ids}


def unloaded(net):
    """The (linear) profile without injections."""
    Y = net.ybus()
    sl = net.ix[net.slack_bus]
    ns = [k for k in range(len(net.bus_ids)) if k != sl]
    v = np.ones(len(net.bus_ids), dtype=complex)
    v[ns] = np.linalg.solve(Y[np.ix_(ns, ns)], -Y[ns, sl])
    if np.any(abs(abs(v) - 1) > 0.07):
        raise Skip("no nominal unloaded profile")
    return dict(zip(net.bus_ids, v))


def run_constructed(ctx):
    rng = ctx.rng
    network = injection_network(rng, shifts=gen.pick(rng, [False, False, True, "groups"]))
    ep = work.Episode(ctx, network, reset=False)
    net = ep.net
    ep.reset(mid_soc(net))
    for _ in range(3):
        V, S = known_solution(ctx, net, float(rng.choice([0.003, 0.01, 0.03])))
        if max(abs(s) for b, s in S.items() if b != net.slack_bus) > 40:
            ctx.count("too_large")
            continue
        Vr, it = net.solve(S, unloaded(net))
        if Vr is None or it > 5 or max(abs(Vr[b] - V[b]) for b in V) > 1e-6 or net.jac_sigma_min(V) < 0.02:
            ctx.count("not_clearly_normal")
            continue
        ev = apply(ep, S)
        ctx.evaluated()
        ctx.count("solvable_known")
        ctx.count("solvable_rotated", max(abs(np.angle(v)) for v in V.values()) > 0.5)
        ctx.nontrivial("c", work.net_key(net), round(abs(V[net.bus_ids[0]]), 7), round(abs(V[net.bus_ids[-1]]), 7))
        if not ctx.check(ev.conv, "missed-solution", "a solution with |V| in %.3f..%.3f exists but the flag is False" % (min(map(abs, V.values())), max(map(abs, V.values()))), V=[abs(x) for x in V.values()], **ep.info(ev)):
            continue
        got = ref.volts(ev.state)
        err = max(abs(got[b] - V[b]) for b in V)
        tol = 3e-5 * len(V) / max(net.jac_sigma_min(V), 1e-3) + 1e-6
        ctx.track("voltage_error", err)
        ctx.check(err <= tol, "wrong-solution", "reported voltages differ from the normal solution by %.3g (tolerance %.3g)" % (err, tol), **ep.info(ev))
    if ctx.idx == 0:
        ctx.sample({"kind": "constructed", "info": ep.info(ep.events[-1]), "flag": bool(ep.events[-1].conv)})


def two_bus_discriminant(z, s):
    """For a source 1 p.u. behind z feeding injection s (generator convention):
    v^4 + v^2 (-2 Re(z conj(s)) - 1) + |z s|^2 = 0."""
    a = z * np.conj(s)
    return (1 + 2 * a.real) ** 2 - 4 * abs(a) ** 2


def run_nose(ctx):
    """A path whose only loaded bus is its end: Thevenin equivalent 1 / sum(z)."""
    rng = ctx.rng
    n = int(rng.integers(2, 8))
    network = injection_network(rng, n, taps=False, p_none=0.1, extra=0)
    for r in network["branch"]:
        r[4] = 0.0
    ep = work.Episode(ctx, network, reset=False)
    net = ep.net
    ep.reset(mid_soc(net))
    # Path impedance from the slack bus to every bus (tree).
    adj = {}
    for br in net.branches.values():
        adj.setdefault(br.f, []).append((br.t, complex(br.r, br.x)))
        adj.setdefault(br.t, []).append((br.f, complex(br.r, br.x)))
    Z = {net.slack_bus: 0j}
    todo = [net.slack_bus]
    while todo:
        b = todo.pop()
        for o, z in adj.get(b, []):
            if o not in Z:
                Z[o] = Z[b] + z
                todo.append(o)
    if len(Z) != len(net.bus_ids) or len(net.branches) != len(net.bus_ids) - 1:
        raise Skip("not a tree")
    target = gen.pick(rng, [b for b in net.bus_ids if b != net.slack_bus])
    z = Z[target]
    ang = rng.uniform(-0.9, 0.9)
    u = -np.exp(1j * ang)  # a consumption with some power factor
    # Largest k with discriminant(k u) >= 0 (bisection).
    lo, hi = 0.0, 1.0
    while two_bus_discriminant(z, hi * u) > 0:
        hi *= 2
        if hi > 1e6:
            raise Skip("no limit")
    for _ in range(80):
        mid = 0.5 * (lo + hi)
        if two_bus_discriminant(z, mid * u) >= 0:
            lo = mid
        else:
            hi = mid
    kmax = lo
    if kmax > 45 or kmax < 0.05:
        raise Skip("outside the device range or the tolerance")
    for frac in (float(rng.uniform(0.05, 0.9)), float(rng.uniform(0.9, 0.99)), float(1 - 10 ** rng.uniform(-4.5, -2)), float(rng.uniform(1.005, 1.02)), float(gen.pick(rng, [rng.uniform(1.02, 1.3), rng.uniform(1.3, 6)]))):
        k = frac * kmax
        if k > 49:
            continue
        S = {b: (k * u if b == target else 0j) for b in net.bus_ids}
        ev = apply(ep, S)
        ctx.evaluated()
        ctx.nontrivial("n", work.net_key(net), target, round(frac, 6))
        if frac < 1:
            a = z * np.conj(k * u)
            vv = 0.5 * ((1 + 2 * a.real) + math.sqrt(max(0.0, two_bus_discriminant(z, k * u))))
            if frac > 0.9:
                # Close to the maximum with a voltage rise (strongly capacitive
                # load): the normal solution is not near nominal any more.
                if vv > 1.1:
                    ctx.count("not_near_nominal")
                    continue
                ctx.count("solvable_near_the_nose")
            ctx.count("solvable_known")
            if ctx.check(ev.conv, "missed-solution", "load at %.3f of the maximum reported as collapse" % frac, **ep.info(ev)):
                ctx.close(ev.state["bus_v_magn"]["pu"][target], math.sqrt(vv), 5e-3, "wrong-solution", "not the high-voltage solution at %.3f of the maximum load" % frac, **ep.info(ev))
        else:
            disc = two_bus_discriminant(z, k * u)
            # How far the required injection is from anything realisable.
            gap = k - kmax
            if gap < 1e-4 * max(1, len(net.bus_ids)):
                ctx.count("too_close_to_the_nose")
                continue
            ctx.count("unsolvable_known")
            ctx.check(not ev.conv, "false-convergence", "load at %.4f of the maximum transferable power reported as converged (discriminant %.3g)" % (frac, disc), **ep.info(ev))
    if ctx.idx == 0:
        ctx.sample({"kind": "nose", "kmax_pu": kmax, "flags": [bool(e.conv) for e in ep.events]})


def run_overload(ctx):
    """Demand above the physical limit of a cut: consumption at the buses behind
    a single line larger than |V|^2 / (4 r)-type bounds can never be served."""
    rng = ctx.rng
    n = int(rng.integers(2, 7))
    network = injection_network(rng, n, taps=False, extra=0)
    for r in network["branch"]:
        r[4] = 0.0
    ep = work.Episode(ctx, network, reset=False)
    net = ep.net
    ep.reset(mid_soc(net))
    # In a lossless or lossy charging-free network every bus is connected to the
    # slack bus through branches; consumption with only consuming buses needs
    # more power from the slack than |sum over slack branches 1/(4 r..)|: use
    # the bound  P_total <= sum over slack branches |y| (1/(2(1+cos)))... a
    # crude one is enough: |V|<=1 for inductive consumption, so the power sent
    # into a branch at the slack end is at most |y|.(1 + 1).
    cap = sum(2 * abs(br.ys) for br in net.branches.values() if net.slack_bus in (br.f, br.t))
    if cap > 40 or cap < 0.01:
        raise Skip("limit outside the device range")
    if any((br.x or 0) < 0 for br in net.branches.values()):
        raise Skip("capacitive")
    w = rng.dirichlet(np.ones(n - 1))
    nb = [b for b in net.bus_ids if b != net.slack_bus]
    k = cap * float(rng.uniform(1.05, 1.2))
    S = {b: -k * complex(wi, wi * 0.3) for b, wi in zip(nb, w)}
    S[net.slack_bus] = 0j
    ev = apply(ep, S)
    ctx.evaluated()
    ctx.count("unsolvable_known")
    ctx.nontrivial("o", work.net_key(net), round(k, 6))
    ctx.check(not ev.conv, "false-convergence", "consumption above any transferable power reported as converged", **ep.info(ev))


def run_recovery(ctx):
    """Collapses leave no trace: the next solvable request is solved as usual."""
    rng = ctx.rng
    network = injection_network(rng, int(rng.integers(2, 7)), shifts=False)
    ep = work.Episode(ctx, network, reset=False)
    fresh = work.Episode(ctx, network, dt=ep.dt, lamb=ep.lamb, reset=False)
    net = ep.net
    ep.reset(mid_soc(net))
    fresh.reset(mid_soc(net))
    V, S = known_solution(ctx, net, 0.01)
    Vr, it = net.solve(S, unloaded(net))
    if Vr is None or it > 5 or net.jac_sigma_min(V) < 0.02 or max(abs(s) for b, s in S.items() if b != net.slack_bus) > 40:
        raise Skip("not clearly normal")
    ncol = 0
    for _ in range(3):
        k = 10 ** rng.uniform(0.5, 1.6)
        bad = {b: -complex(min(49.0, k), min(49.0, 0.5 * k)) for b in net.bus_ids}
        e = apply(ep, bad)
        ncol += not e.conv
    ev = apply(ep, S)
    ev2 = apply(fresh, S)
    ctx.evaluated()
    if ncol == 0:
        raise Skip("did not collapse")
    ctx.count("recoveries")
    ctx.count("solvable_known")
    ctx.nontrivial("r", work.net_key(net), round(abs(V[net.bus_ids[0]]), 7), round(abs(V[net.bus_ids[-1]]), 7))
    ctx.check(ev.conv and ev2.conv, "no-recovery", "after %d collapses the solvable request gives %s, a fresh simulator %s" % (ncol, ev.conv, ev2.conv), **ep.info(ev))
    if ev.conv and ev2.conv:
        a, b = ref.volts(ev.state), ref.volts(ev2.state)
        ctx.close([abs(a[i] - b[i]) for i in a], [0.0] * len(a), 1e-9, "no-recovery", "voltages differ from those of a fresh simulator", **ep.info(ev))


def run_island(ctx):
    """Loaded buses without any path to the slack bus cannot be served."""
    rng = ctx.rng
    n = int(rng.integers(3, 8))
    network = injection_network(rng, n, taps=False, extra=0)
    for r in network["branch"]:
        r[4] = 0.0
    cut = int(rng.integers(0, len(network["branch"])))
    rows = [list(r) for k, r in enumerate(network["branch"]) if k != cut]
    network["branch"] = gen.as_array(rng, rows)
    ep = work.Episode(ctx, network, reset=False)
    net = ep.net
    ep.reset(mid_soc(net))
    reach, todo = {net.slack_bus}, [net.slack_bus]
    while todo:
        b = todo.pop()
        for br in net.branches.values():
            for x, y in ((br.f, br.t), (br.t, br.f)):
                if x == b and y not in reach:
                    reach.add(y)
                    todo.append(y)
    # A net consumption inside the island: impossible without any source.
    S = {b: (-complex(rng.uniform(0.05, 0.5), rng.uniform(0, 0.2)) if b not in reach else 0j) for b in net.bus_ids}
    ev = apply(ep, S)
    ctx.evaluated()
    ctx.count("unsolvable_known")
    ctx.nontrivial("i", work.net_key(net), len(reach), round(abs(sum(S.values())), 8))
    ctx.check(not ev.conv, "false-convergence", "an islanded consumption was reported as served", **ep.info(ev))
