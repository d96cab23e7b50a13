"""Random network dictionaries, requests and hostile inputs."""
import math

import numpy as np

from . import ref

INF = float("inf")


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def seed(rng):
    """A seed for reset(): any non-negative integer."""
    return int(pick(rng, [0, 0, 1, 2**31 - 1, 2**32 - 1, 2**40] + [rng.integers(2**31)] * 10))


def r6(x):
    """Round to few digits: readable replays, still generic values."""
    return float("%.6g" % x)


def make_ids(rng, n, style=None):
    """n distinct non-negative IDs (not sorted)."""
    style = style or pick(rng, ["zero", "zero", "one", "shuffled", "sparse", "sparse", "wide"])
    if style == "zero":
        ids = list(range(n))
    elif style == "one":
        ids = list(range(1, n + 1))
    elif style == "shuffled":
        ids = list(rng.permutation(n))
    elif style == "sparse":
        ids = list(rng.choice(3 * n + 5, size=n, replace=False))
    else:
        ids = list(rng.choice(1000, size=n, replace=False))
    return [int(i) for i in ids]


def topology(rng, n, extra=None):
    """Edges (pairs of indices) of a connected graph on n nodes."""
    style = pick(rng, ["tree", "tree", "chain", "star", "mesh", "mesh"])
    edges = []
    for k in range(1, n):
        if style == "chain":
            j = k - 1
        elif style == "star":
            j = 0
        else:
            j = int(rng.integers(0, k))
        edges.append((j, k))
    if extra is None:
        extra = int(rng.integers(1, n)) if style == "mesh" else 0
    have = set(frozenset(e) for e in edges)
    for _ in range(extra):
        i, j = (int(x) for x in rng.integers(0, n, size=2))
        if i != j and frozenset((i, j)) not in have:
            have.add(frozenset((i, j)))
            edges.append((i, j))
    return edges


def network(
    rng,
    n_bus=None,
    stress=None,
    base=None,
    bus_ids=None,
    dev_ids=None,
    taps=True,
    n_load=None,
    n_gen=None,
    n_rer=None,
    n_des=None,
    p_none=0.25,
    shuffle=True,
    finite=False,
    slack_wide=True,
    at_slack=True,
    slack_vmax=None,
    rates=None,
    shifts=True,
    extra=None,
    zero_eff=True,
):
    """A valid random network dictionary.

    stress: scale of device powers with respect to a lightly loaded network.
    finite: all limits of all non-slack devices given (needed for bounded Boxes).
    """
    n = n_bus or int(pick(rng, [2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 12]))
    base = base or float(pick(rng, [1, 10, 100, 100, 37.5, 250]))
    stress = stress if stress is not None else float(pick(rng, [0.3, 0.6, 1.0]))

    ids = make_ids(rng, n, bus_ids)
    edges = topology(rng, n, extra)

    # Impedances, then a power scale for which the network is lightly loaded.
    z = []
    zscale = 10 ** rng.uniform(-2.3, -0.7)
    # networks in which many branches lack a parameter (purely resistive, ...)
    bare = rng.random() < 0.12
    for _ in edges:
        ang = rng.uniform(0.15, math.pi / 2)
        m = zscale * rng.uniform(0.3, 2.0)
        r, x = m * math.cos(ang), m * math.sin(ang)
        u = rng.random()
        if u < (0.25 if bare else 0.06):
            r = None if rng.random() < 0.5 else 0.0
        elif u < (0.65 if bare else 0.10):
            x = None if rng.random() < 0.5 else 0.0
        z.append((r if r is None else r6(r), x if x is None else r6(x)))
    zsum = sum(math.hypot(r or 0, x or 0) for r, x in z)

    counts = {
        -1: n_load if n_load is not None else int(rng.integers(0, 5)),
        1: n_gen if n_gen is not None else int(rng.integers(0, 3)),
        2: n_rer if n_rer is not None else int(rng.integers(0, 3)),
        3: n_des if n_des is not None else int(rng.integers(0, 3)),
    }
    types = [t for t, k in counts.items() for _ in range(k)]
    ndev = len(types) + 1
    scale = stress * 0.12 / zsum / max(1, len(types)) * base  # MW per device
    scale = max(scale, 1e-3 * base)

    def opt(v, p=None):
        """Possibly omitted optional value."""
        if not finite and rng.random() < (p_none if p is None else p):
            return None
        return v

    def val(lo, hi):
        return r6(scale * rng.uniform(lo, hi))

    dids = make_ids(rng, ndev, dev_ids)
    rows = []
    slack_idx = int(rng.integers(0, n)) if rng.random() < 0.5 else 0
    slack_row = [dids[0], ids[slack_idx], 0, None] + [None] * 11
    if not slack_wide:
        m = r6(scale * 50 * ndev)
        slack_row[4:8] = [m, -m, m, -m]
    elif rng.random() < 0.5:
        m = r6(base * 1e4)
        slack_row[4:8] = [m, -m, m, -m]
    rows.append(slack_row)
    for did, t in zip(dids[1:], types):
        if at_slack and rng.random() < 0.15:
            bus = ids[slack_idx]
        else:
            bus = pick(rng, [b for k, b in enumerate(ids) if k != slack_idx])
        row = [did, bus, t] + [None] * 12
        if t == -1:
            row[3] = r6(pick(rng, [0.0, 0.2, 0.5, rng.uniform(-0.6, 0.8), -0.3]))
            row[4] = opt(pick(rng, [0.0, 0.0, -0.1 * abs(val(0, 1))]), 0.3)
            row[5] = opt(val(-2, -0.5))
            if row[4] is not None and row[5] is not None and rng.random() < 0.05:
                row[4] = row[5]
        elif t in (1, 2):
            pmax = val(0.4, 2)
            pmin = pick(rng, [0.0, 0.0, 0.0, r6(pmax * rng.uniform(0, 0.6))])
            if rng.random() < 0.04:
                pmin = pmax
            qmax, qmin = val(0.1, 1.2), val(-1.2, -0.1)
            if rng.random() < 0.1:
                qmin, qmax = sorted((val(-1, 1), val(-1, 1)))
            if rng.random() < 0.06:
                qmin = qmax = pick(rng, [0.0, qmax])
            row[4], row[5], row[6], row[7] = opt(pmax, 0.1), opt(pmin, 0.3), opt(qmax, 0.1), opt(qmin, 0.1)
            if rng.random() < 0.6:
                row[8] = opt(r6(rng.uniform(pmin, pmax)) if rng.random() < 0.9 else pick(rng, [pmin, pmax]))
                if row[6] is not None and row[7] is not None:
                    a, b = sorted(rng.uniform(qmin, qmax, size=2))
                    a, b = max(r6(a), qmin), min(r6(b), qmax)
                    if rng.random() < 0.15:
                        a = b
                    row[10] = opt(b)
                    row[11] = opt(a)
            _fix_caps(row)
        else:
            pmax, pmin = val(0.3, 1.5), val(-1.5, -0.3)
            if rng.random() < 0.08:
                pmax = 0.0
            elif rng.random() < 0.08:
                pmin = 0.0
            qmax, qmin = val(0.1, 1.2), val(-1.2, -0.1)
            row[4], row[5], row[6], row[7] = opt(pmax, 0.1), opt(pmin, 0.1), opt(qmax, 0.1), opt(qmin, 0.1)
            if rng.random() < 0.6:
                hi = row[4] if row[4] is not None else 2 * scale
                lo = row[5] if row[5] is not None else -2 * scale
                a, b = sorted(rng.uniform(lo, hi, size=2))
                if rng.random() < 0.7:
                    a, b = min(a, 0.0), max(b, 0.0)
                a, b = max(r6(a), lo), min(r6(b), hi)
                row[8], row[9] = opt(b), opt(a)
                if row[6] is not None and row[7] is not None:
                    a, b = sorted(rng.uniform(qmin, qmax, size=2))
                    row[10], row[11] = opt(min(r6(b), qmax)), opt(max(r6(a), qmin))
            _fix_caps(row)
            smin = pick(rng, [0.0, 0.0, val(0, 1)])
            smax = r6(smin + abs(val(0, 3))) if rng.random() > 0.05 else smin
            row[12] = smax
            row[13] = opt(smin) if smin == 0.0 else smin
            row[14] = opt(r6(pick(rng, [1.0, 0.9, rng.uniform(0.3, 1.0)] + ([0.0] if zero_eff and rng.random() < 0.1 else []))))
        rows.append(row)

    buses = []
    kv = [132.0, 33.0, 11.0, 0.4]
    for k, b in enumerate(ids):
        v1 = pick(rng, [1.1, 1.05, r6(rng.uniform(1.0, 1.2)), 1.0])
        v0 = pick(rng, [0.9, 0.95, r6(rng.uniform(0.8, 1.0)), 0.0, 1.0])
        if k == slack_idx:
            v1 = 1.0 if slack_vmax is None else slack_vmax
            v0 = pick(rng, [1.0, 0.9, None if not finite else 1.0])
        buses.append([b, 0 if k == slack_idx else 1, pick(rng, kv) if rng.random() < 0.8 else r6(10 ** rng.uniform(-0.7, 2.7)), v1, min(v0, v1) if v0 is not None else None])

    branches = []
    for (i, j), (r, x) in zip(edges, z):
        if rng.random() < 0.5:
            i, j = j, i
        b = pick(rng, [0.0, 0.0, r6(rng.uniform(0, 0.1)), None])
        rate = opt(r6(scale * rng.uniform(0.2, 4) * math.sqrt(ndev)), 0.15)
        if rates == "tight":
            rate = r6(scale * rng.uniform(0.05, 0.8))
        elif rates == "none":
            rate = None
        elif rng.random() < 0.03:
            rate = 0.0
        tap, shift = pick(rng, [1.0, 1.0, None]), pick(rng, [0.0, 0.0, None])
        if taps and rng.random() < (0.7 if bare else 0.25):
            tap = r6(rng.uniform(0.94, 1.06))
        if taps and shifts and rng.random() < 0.15:
            shift = pick(rng, [r6(rng.uniform(0, 6)), r6(rng.uniform(354, 360)), 360.0])
        branches.append([ids[i], ids[j], r, x, b, rate, tap, shift])

    if taps and shifts and (shifts == "groups" or rng.random() < 0.15):
        # Voltage levels behind phase-shifting transformers (vector groups or
        # any angle), consistent around loops.
        phase = {b: float(pick(rng, [0.0, 30.0, 150.0, 180.0, 330.0, r6(rng.uniform(0, 360))])) for b in ids}
        for r in branches:
            d = phase[r[0]] - phase[r[1]]
            if d != 0.0:
                r[7] = r6(((r[7] or 0.0) + d) % 360.0)

    if shuffle:
        rng.shuffle(buses)
        rng.shuffle(rows)
        rng.shuffle(branches)
    net = {"baseMVA": base if rng.random() < 0.7 or base != int(base) else int(base)}
    net["bus"] = as_array(rng, buses)
    net["device"] = as_array(rng, rows)
    net["branch"] = as_array(rng, branches)
    return net


def _fix_caps(row):
    """Make P+/P-/Q+/Q- consistent with the (possibly omitted) box limits."""
    t = int(row[2])
    pmax = INF if row[4] is None else row[4]
    pmin = (0.0 if t in (1, 2) else -INF) if row[5] is None else row[5]
    qmax = INF if row[6] is None else row[6]
    qmin = -INF if row[7] is None else row[7]
    if row[8] is not None:
        row[8] = min(max(row[8], pmin), pmax)
    if row[9] is not None:
        row[9] = min(max(row[9], pmin), pmax)
        pp = pmax if row[8] is None else row[8]
        row[9] = min(row[9], pp)
    pm = pmin if row[9] is None else row[9]
    if row[8] is not None:
        row[8] = max(row[8], pm) if t == 3 else row[8]
    qp = qmax if row[10] is None else row[10]
    qm = qmin if row[11] is None else row[11]
    if row[10] is not None:
        row[10] = min(max(row[10], qmin), qmax)
    if row[11] is not None:
        row[11] = min(max(row[11], qmin), qmax)
        if row[11] > (qmax if row[10] is None else row[10]):
            row[11] = row[10]


def as_array(rng, rows):
    if not any(v is None for row in rows for v in row) and rng.random() < 0.6:
        return np.array(rows, dtype=float)
    a = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
    for i, row in enumerate(rows):
        for j, v in enumerate(row):
            a[i, j] = v
    return a


def finite_range(d, scale):
    """A finite [lo, hi] of p for sampling, whatever is omitted."""
    lo = d.pmin if math.isfinite(d.pmin) else -scale
    hi = d.pmax if math.isfinite(d.pmax) else scale
    if not math.isfinite(d.pmin):
        lo = min(lo, hi)
    if not math.isfinite(d.pmax):
        hi = max(lo, hi)
    return lo, hi


def q_range(d, scale):
    lo = d.qmin if math.isfinite(d.qmin) else -scale
    hi = d.qmax if math.isfinite(d.qmax) else scale
    return min(lo, hi), max(lo, hi)


def scale_of(net):
    """Typical device power (p.u.) of a parsed network."""
    v = [abs(x) for d in net.devs.values() if d.typ != 0 for x in (d.pmin, d.pmax) if math.isfinite(x) and x != 0]
    return float(np.median(v)) if v else 0.05


MODES = ["inside", "inside", "wide", "corner", "extreme", "zero", "tiny"]


def _value(rng, lo, hi, mode, scale):
    if mode == "inside":
        return rng.uniform(lo, hi)
    if mode == "wide":
        w = (hi - lo) + scale
        return rng.uniform(lo - w, hi + w)
    if mode == "corner":
        return pick(rng, [lo, hi])
    if mode == "extreme":
        return pick(rng, [-1, 1]) * scale * 10 ** rng.uniform(0, 5)
    if mode == "tiny":
        return rng.normal() * scale * 1e-6
    return 0.0


def request(rng, net, mode=None, load_mode=None, pot_mode=None):
    """(P_load, P_pot, P_set, Q_set) dictionaries in MW / MVAr."""
    sc = scale_of(net)
    P_load, P_pot, P_set, Q_set = {}, {}, {}, {}
    for i, d in net.devs.items():
        m = mode or pick(rng, MODES)
        lo, hi = finite_range(d, 2 * sc)
        if d.typ == -1:
            lm = load_mode or pick(rng, ["inside", "inside", "inside", "corner", "wide"])
            P_load[i] = _value(rng, lo, hi, lm, sc) * net.base
        elif d.typ in (1, 2):
            pm = pot_mode or pick(rng, ["inside", "inside", "corner", "wide", "extreme", "zero"])
            P_pot[i] = _value(rng, lo, hi, pm, sc) * net.base
        if d.typ in (1, 2, 3):
            P_set[i] = _value(rng, lo, hi, m, sc) * net.base
            m = mode or pick(rng, MODES)
            qlo, qhi = q_range(d, 2 * sc)
            Q_set[i] = _value(rng, qlo, qhi, m, sc) * net.base
    return P_load, P_pot, P_set, Q_set


def init_state(rng, net, aux=(), mode=None):
    """A random initial state vector in the documented layout."""
    P_load, P_pot, P_set, Q_set = request(rng, net, mode)
    n = len(net.ids)
    s = []
    for i in net.ids:
        s.append(P_load.get(i, P_set.get(i, 0.0)))
    for i in net.ids:
        d = net.devs[i]
        s.append(P_load[i] * d.qp if d.typ == -1 else Q_set.get(i, 0.0))
    for i in net.des:
        d = net.devs[i]
        u = pick(rng, [0.0, 1.0, rng.random(), rng.random(), rng.uniform(-0.5, 1.5)])
        s.append((d.smin + u * (d.smax - d.smin)) * net.base)
    for i in net.gens:
        s.append(P_pot[i])
    s += list(aux)
    return np.array(s, dtype=float)


def describe(network):
    """JSON-able copy of a network dictionary."""
    return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in network.items()}
