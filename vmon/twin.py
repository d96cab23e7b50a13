"""Pairs of networks which describe the same physical system."""
import copy
import math

import numpy as np

from . import gen, ref

DEVQ = ("dev_p", "dev_q", "des_soc", "gen_p_max")
BUSQ = ("bus_p", "bus_q", "bus_v_magn", "bus_v_ang", "bus_i_magn", "bus_i_ang")
ANG = {"bus_v_ang", "bus_i_ang", "branch_i_ang"}


class Map:
    def __init__(self):
        self.bus, self.dev, self.flip = {}, {}, set()

    def branch(self, k):
        f, t = k
        return (self.bus[t], self.bus[f]) if k in self.flip else (self.bus[f], self.bus[t])


def identity(net):
    m = Map()
    m.bus = {b: b for b in net.bus_ids}
    m.dev = {d: d for d in net.ids}
    return m


def relabel(rng, network, bus=True, dev=True, rows=True, flip=True):
    """A twin of a network: other labels, row order and line directions."""
    net = ref.Net(network)
    m = identity(net)
    if bus:
        m.bus = dict(zip(net.bus_ids, (int(x) for x in rng.permutation(gen.make_ids(rng, len(net.bus_ids))))))
    if dev:
        m.dev = dict(zip(net.ids, (int(x) for x in rng.permutation(gen.make_ids(rng, len(net.ids))))))
    out = {"baseMVA": network["baseMVA"]}
    rb = [list(r) for r in network["bus"]]
    for r in rb:
        r[0] = m.bus[int(r[0])]
    rd = [list(r) for r in network["device"]]
    for r in rd:
        r[0], r[1] = m.dev[int(r[0])], m.bus[int(r[1])]
    rl = [list(r) for r in network["branch"]]
    for r in rl:
        k = (int(r[0]), int(r[1]))
        br = net.branches[k]
        if flip and br.a == 1.0 and br.shift == 0.0 and rng.random() < 0.5:
            m.flip.add(k)
        r[0], r[1] = m.branch(k)
    if rows:
        for x in (rb, rd, rl):
            rng.shuffle(x)
    out["bus"], out["device"], out["branch"] = gen.as_array(rng, rb), gen.as_array(rng, rd), gen.as_array(rng, rl)
    return out, m


def map_request(req, m):
    return [{m.dev[i]: v for i, v in r.items()} for r in req]


def map_state_vector(net, net2, m, s):
    """The same state vector in the layout of the twin."""
    n, nd, ng = len(net.ids), len(net.des), len(net.gens)
    parts = [dict(zip(net.ids, s[:n])), dict(zip(net.ids, s[n : 2 * n])), dict(zip(net.des, s[2 * n : 2 * n + nd])), dict(zip(net.gens, s[2 * n + nd : 2 * n + nd + ng]))]
    aux = s[2 * n + nd + ng :]
    inv = {v: k for k, v in m.dev.items()}
    out = [parts[0][inv[i]] for i in net2.ids] + [parts[1][inv[i]] for i in net2.ids]
    out += [parts[2][inv[i]] for i in net2.des] + [parts[3][inv[i]] for i in net2.gens]
    return np.array(out + list(aux), dtype=float)


def map_vars(net, net2, m, v):
    nl, ng = len(net.loads), len(net.gens)
    L, G = dict(zip(net.loads, v[:nl])), dict(zip(net.gens, v[nl : nl + ng]))
    inv = {v_: k for k, v_ in m.dev.items()}
    return np.array([L[inv[i]] for i in net2.loads] + [G[inv[i]] for i in net2.gens] + list(v[nl + ng :]), dtype=float)


def map_action(net, net2, m, a):
    ng, nd = len(net.gens), len(net.des)
    inv = {v: k for k, v in m.dev.items()}
    parts = [dict(zip(net.gens, a[:ng])), dict(zip(net.gens, a[ng : 2 * ng])), dict(zip(net.des, a[2 * ng : 2 * ng + nd])), dict(zip(net.des, a[2 * ng + nd :]))]
    out = [parts[0][inv[i]] for i in net2.gens] + [parts[1][inv[i]] for i in net2.gens]
    out += [parts[2][inv[i]] for i in net2.des] + [parts[3][inv[i]] for i in net2.des]
    return np.array(out, dtype=float)


def accuracy(net, state, cap=1e-4):
    """How far the reported power flow may be from the exact one (p.u.),
    from its residual and the conditioning at the reported voltages."""
    V = ref.volts(state)
    Y = net.ybus()
    v = np.array([V[b] for b in net.bus_ids])
    S = v * np.conj(Y @ v)
    inj = {b: 0j for b in net.bus_ids}
    for i, d in net.devs.items():
        inj[d.bus] += complex(state["dev_p"]["pu"][i], state["dev_q"]["pu"][i])
    res = max([abs(S[net.ix[b]] - inj[b]) for b in net.bus_ids if b != net.slack_bus], default=0.0)
    sig = net.jac_sigma_min(V)
    return min(cap, 4 * res / max(sig, 1e-12)), sig, res


def same_physics(ctx, net1, st1, net2, st2, m, tol, mech, info, skip_pu=()):
    """Compare two full states item by item.

    tol: voltage accuracy (p.u.); everything else is scaled with admittances.
    skip_pu: quantities whose p.u. values are not comparable (different bases).
    """
    ymax = 1 + sum(abs(br.ys) for br in net1.branches.values())
    vt = tol + 1e-9
    ft = (tol + 1e-11) * 4 * ymax + 1e-9  # flows, currents (p.u.)
    V = ref.volts(st1)
    ok = True
    for q, units in st1.items():
        if not ctx.check(q in st2 and set(units) == set(st2[q]), mech + "-keys", "quantity %s" % q, **info):
            return False
        for u in units:
            if u == "pu" and q in skip_pu:
                continue
            # scale of one p.u. in this unit
            for k, a in units[u].items():
                if q in DEVQ:
                    k2 = m.dev[k]
                elif q in BUSQ:
                    k2 = m.bus[k]
                else:
                    k2 = m.branch(k)
                if not ctx.check(k2 in st2[q][u], mech + "-keys", "%s %s has no entry %s" % (q, u, k2), **info):
                    return False
                b = st2[q][u][k2]
                scale = 1.0
                if u in ("MW", "MVAr", "MVA", "MWh"):
                    scale = net1.base
                elif u == "kV":
                    scale = net1.buses[k].kv
                elif u == "kA":
                    scale = max(1.0, net1.base / min(x.kv for x in net1.buses.values()))
                flip = q.startswith("branch") and k in m.flip
                if flip:
                    # The other end, from the independent model.
                    i_f, i_t, s_f, s_t = net1.flows(net1.branches[k], V)
                    pu_f = {"branch_p": s_f.real, "branch_q": s_f.imag}
                    pu_t = {"branch_p": s_t.real, "branch_q": s_t.imag}
                    if q in pu_t:
                        a = pu_t[q] * scale
                    elif q == "branch_s":
                        a = abs(a)
                        if abs(s_t.real) > 2 * ft:
                            ok &= ctx.check((b > 0) == (s_t.real > 0), mech + "-direction", "branch %s reversed: P at its new sending end is %r but branch_s is %r" % (k, s_t.real, b), **info)
                        b = abs(b)
                    elif q == "branch_i_magn":
                        # (currents at the sending end, signed)
                        a = abs(i_t) * (a / i_f_signed(i_f, a) if abs(i_f) > 1e-9 else 1.0)
                        a, b = abs(a), abs(b)
                        if abs(i_f) <= 1e-9:
                            continue
                    elif q == "branch_i_ang":
                        if abs(i_t) < 1e-5:
                            continue
                        a = math.atan2(i_t.imag, i_t.real) * (180 / math.pi if u == "degree" else 1)
                if q in ANG:
                    w = 2 * math.pi if u == "rad" else 360.0
                    mag = {"bus_v_ang": 1.0, "bus_i_ang": abs(st1["bus_i_magn"]["pu"].get(k, 0)) if q == "bus_i_ang" else 0, "branch_i_ang": abs(st1["branch_i_magn"]["pu"].get(k, 0)) if q == "branch_i_ang" else 0}[q]
                    if mag < 1e-5:
                        continue
                    d = (a - b) / w
                    d = abs(d - round(d)) * w
                    at = (vt * 4 if q == "bus_v_ang" else 2 * ft / mag) * (w / (2 * math.pi))
                    ok &= ctx.check(d <= at, mech + "-" + q, "%s %s of %s: %r and %r (tolerance %g)" % (q, u, k, a, b, at), **info)
                    continue
                t = (vt if q == "bus_v_magn" else ft) * scale
                if q in ("dev_p", "dev_q") and k != net1.slack_dev or q in ("des_soc", "gen_p_max"):
                    t = 1e-8 * (scale + abs(a))
                if q in ("bus_i_magn", "branch_i_magn") and not flip and a * b < 0:
                    # signed by the real part of the current: undecided near 0
                    ang = st1["bus_i_ang" if q == "bus_i_magn" else "branch_i_ang"]["rad"][k]
                    if abs(a * math.cos(ang)) < 4 * t:
                        a, b = abs(a), abs(b)
                if q == "branch_s" and not flip and a * b < 0 and abs(st1["branch_p"]["pu"][k]) < 2 * ft:
                    a, b = abs(a), abs(b)
                ok &= ctx.close(a, b, t + 1e-9 * abs(a), mech + "-" + q, "%s %s of %s" % (q, u, k), **info)
    return ok


def i_f_signed(i_f, a):
    return abs(i_f) if a >= 0 else -abs(i_f)


def rebase(rng, network, factor=None):
    """The same physical network in another per-unit system."""
    b0 = float(network["baseMVA"])
    f = factor if factor is not None else float(gen.pick(rng, [0.5, 2.0, 10.0, 0.1, 3.7, 100.0, 0.01]))
    b1 = b0 * f
    out = copy.deepcopy(network)
    out["baseMVA"] = b1 if b1 != int(b1) or rng.random() < 0.5 else int(b1)
    rows = [list(r) for r in network["branch"]]
    for r in rows:
        for j, g in ((2, f), (3, f), (4, 1 / f)):
            if r[j] is not None:
                r[j] = r[j] * g
    out["branch"] = gen.as_array(rng, rows)
    return out, f


def spell_out(rng, network, share=0.6):
    """Replace omitted optional values by their documented defaults."""
    out = copy.deepcopy(network)
    n = 0
    INF = float("inf")

    def put(row, j, v):
        nonlocal n
        if row[j] is None and v is not None and rng.random() < share:
            row[j] = v
            n += 1

    bus = [list(r) for r in network["bus"]]
    for r in bus:
        put(r, 4, 0.0)
    br = [list(r) for r in network["branch"]]
    for r in br:
        for j, v in ((2, 0.0), (3, 0.0), (4, 0.0), (5, INF), (6, 1.0), (7, 0.0)):
            put(r, j, v)
    dev = [list(r) for r in network["device"]]
    for r in dev:
        t = int(r[2])
        if t == -1:
            put(r, 4, 0.0)
            put(r, 5, -INF)
            continue
        pmax = INF if r[4] is None else r[4]
        pmin = (0.0 if t in (1, 2) else -INF) if r[5] is None else r[5]
        qmax = INF if r[6] is None else r[6]
        qmin = -INF if r[7] is None else r[7]
        for j, v in ((4, pmax), (5, pmin), (6, qmax), (7, qmin)):
            put(r, j, v)
        if t in (1, 2, 3):
            put(r, 8, pmax)
            put(r, 10, qmax)
            put(r, 11, qmin)
        if t == 3:
            put(r, 9, pmin)
            put(r, 13, 0.0)
            put(r, 14, 1.0)
    out["bus"], out["device"], out["branch"] = gen.as_array(rng, bus), gen.as_array(rng, dev), gen.as_array(rng, br)
    return out, n
