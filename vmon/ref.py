"""Independent reference semantics, written from the documentation / the paper.

Nothing here imports gym_anm.  A network dictionary is parsed into per-unit
quantities with the documented defaults; everything else is recomputed from it.
"""
import math

import numpy as np

INF = float("inf")

BUS = ["BUS_ID", "BUS_TYPE", "BASE_KV", "VMAX", "VMIN"]
DEV = ["DEV_ID", "BUS_ID", "DEV_TYPE", "Q/P", "PMAX", "PMIN", "QMAX", "QMIN", "P+", "P-", "Q+", "Q-", "SOC_MAX", "SOC_MIN", "EFF"]
BR = ["F_BUS", "T_BUS", "BR_R", "BR_X", "BR_B", "RATE", "TAP", "SHIFT"]

# Documented quantities and units (first unit = default).
QUANTITIES = {
    "bus_p": ("MW", "pu"),
    "bus_q": ("MVAr", "pu"),
    "bus_v_magn": ("pu", "kV"),
    "bus_v_ang": ("degree", "rad"),
    "bus_i_magn": ("pu", "kA"),
    "bus_i_ang": ("degree", "rad"),
    "dev_p": ("MW", "pu"),
    "dev_q": ("MVAr", "pu"),
    "des_soc": ("MWh", "pu"),
    "gen_p_max": ("MW", "pu"),
    "branch_p": ("MW", "pu"),
    "branch_q": ("MVAr", "pu"),
    "branch_s": ("MVA", "pu"),
    "branch_i_magn": ("pu",),
    "branch_i_ang": ("degree", "rad"),
}


class Rec:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return "Rec(%s)" % ", ".join("%s=%r" % kv for kv in self.__dict__.items())


def _row(row, names):
    return {n: (None if v is None else float(v)) for n, v in zip(names, row)}


class Net:
    """Per-unit view of a (valid) network dictionary."""

    def __init__(self, network):
        self.base = base = float(network["baseMVA"])
        self.buses = {}
        for row in network["bus"]:
            r = _row(row, BUS)
            b = Rec(id=int(r["BUS_ID"]), slack=r["BUS_TYPE"] == 0, kv=r["BASE_KV"], vmax=r["VMAX"], vmin=r["VMIN"] if r["VMIN"] is not None else 0.0)
            self.buses[b.id] = b
        self.bus_ids = sorted(self.buses)
        self.slack_bus = [i for i in self.bus_ids if self.buses[i].slack][0]
        self.ix = {b: k for k, b in enumerate(self.bus_ids)}

        self.branches = {}
        for row in network["branch"]:
            r = _row(row, BR)
            br = Rec(
                f=int(r["F_BUS"]),
                t=int(r["T_BUS"]),
                r=r["BR_R"] or 0.0,
                x=r["BR_X"] or 0.0,
                b=r["BR_B"] or 0.0,
                rate=INF if r["RATE"] is None else r["RATE"] / base,
                a=1.0 if r["TAP"] is None else r["TAP"],
                shift=0.0 if r["SHIFT"] is None else math.radians(r["SHIFT"]),
            )
            ys = 1.0 / complex(br.r, br.x)
            tap = br.a * complex(math.cos(br.shift), math.sin(br.shift))
            # Two-port of the pi-equivalent with an ideal transformer (ratio
            # tap:1) at the sending end.
            br.ys, br.tap = ys, tap
            br.yff = (ys + 0.5j * br.b) / (br.a**2)
            br.yft = -ys / tap.conjugate()
            br.ytf = -ys / tap
            br.ytt = ys + 0.5j * br.b
            self.branches[(br.f, br.t)] = br

        devs = {}
        for row in network["device"]:
            d = self._device(_row(row, DEV))
            devs[d.id] = d
        self.devs = {i: devs[i] for i in sorted(devs)}
        self.loads = [i for i, d in self.devs.items() if d.typ == -1]
        self.gens = [i for i, d in self.devs.items() if d.typ in (1, 2)]
        self.rers = [i for i, d in self.devs.items() if d.typ == 2]
        self.des = [i for i, d in self.devs.items() if d.typ == 3]
        self.slack_dev = [i for i, d in self.devs.items() if d.typ == 0][0]
        self.ids = list(self.devs)

    def _device(self, r):
        base = self.base

        def pu(k, default):
            return default if r[k] is None else r[k] / base

        typ = int(r["DEV_TYPE"])
        d = Rec(id=int(r["DEV_ID"]), bus=int(r["BUS_ID"]), typ=typ)
        if typ == -1:
            d.qp = r["Q/P"]
            d.pmax, d.pmin = pu("PMAX", 0.0), pu("PMIN", -INF)
            if d.qp == 0:
                d.qmin = d.qmax = 0.0
            else:
                d.qmin, d.qmax = sorted((d.pmin * d.qp, d.pmax * d.qp))
            return d
        d.pmax = pu("PMAX", INF)
        d.pmin = pu("PMIN", 0.0 if typ in (1, 2) else -INF)
        d.qmax, d.qmin = pu("QMAX", INF), pu("QMIN", -INF)
        d.pplus = pu("P+", d.pmax)
        d.qplus, d.qminus = pu("Q+", d.qmax), pu("Q-", d.qmin)
        d.pminus = pu("P-", d.pmin) if typ == 3 else None
        if typ == 3:
            d.smax, d.smin = pu("SOC_MAX", None), pu("SOC_MIN", 0.0)
            d.eff = 1.0 if r["EFF"] is None else r["EFF"]
        return d

    # --- network model --------------------------------------------------------
    def ybus(self):
        n = len(self.bus_ids)
        Y = np.zeros((n, n), dtype=complex)
        for br in self.branches.values():
            f, t = self.ix[br.f], self.ix[br.t]
            Y[f, f] += br.yff
            Y[f, t] += br.yft
            Y[t, f] += br.ytf
            Y[t, t] += br.ytt
        return Y

    def flows(self, br, V):
        """(i_f, i_t, s_f, s_t) of a branch for bus voltages {bus: complex}."""
        vf, vt = V[br.f], V[br.t]
        i_f = br.yff * vf + br.yft * vt
        i_t = br.ytf * vf + br.ytt * vt
        return i_f, i_t, vf * np.conj(i_f), vt * np.conj(i_t)

    def series_loss(self, br, V):
        """Ohmic losses of the series impedance: r |i|^2 (pi model, tap at sending end)."""
        i = br.ys * (V[br.f] / br.tap - V[br.t])
        return br.r * abs(i) ** 2

    # --- devices --------------------------------------------------------------
    def constraints(self, d, p_pot=None, soc=None, dt=None):
        """Feasible region of a non-load device: lo <= p <= hi, and lists of
        (a, c): q <= a + c p (upper) and q >= a + c p (lower)."""
        lo, hi = d.pmin, d.pmax
        if d.typ in (1, 2) and p_pot is not None:
            hi = min(hi, min(max(p_pot, d.pmin), d.pmax))
        if d.typ == 3 and soc is not None:
            hi = min(hi, d.eff * (soc - d.smin) / dt)
            if d.eff > 0:
                lo = max(lo, (soc - d.smax) / (dt * d.eff))
        up, dn = [], []
        if d.qmax < INF:
            up.append((d.qmax, 0.0))
        if d.qmin > -INF:
            dn.append((d.qmin, 0.0))

        def line(p0, q0, p1, q1):
            # the line through (p0, q0) and (p1, q1)
            c = (q1 - q0) / (p1 - p0)
            return (q0 - c * p0, c)

        if d.pplus != d.pmax and d.pmax < INF:
            if d.qmax < INF:
                up.append(line(d.pplus, d.qmax, d.pmax, d.qplus))
            if d.qmin > -INF:
                dn.append(line(d.pplus, d.qmin, d.pmax, d.qminus))
        if d.typ == 3 and d.pminus != d.pmin and d.pmin > -INF:
            if d.qmax < INF:
                up.append(line(d.pminus, d.qmax, d.pmin, d.qplus))
            if d.qmin > -INF:
                dn.append(line(d.pminus, d.qmin, d.pmin, d.qminus))
        return lo, hi, up, dn

    @staticmethod
    def excess(region, p, q):
        """Largest violation of a region's constraints at (p, q) (0 if inside)."""
        lo, hi, up, dn = region
        v = [lo - p, p - hi]
        # distance to the sloped lines, not vertical excess
        v += [(q - (a + c * p)) / math.hypot(1, c) for a, c in up]
        v += [((a + c * p) - q) / math.hypot(1, c) for a, c in dn]
        return max(v)

    @staticmethod
    def project(region, p0, q0):
        """Closest point of a region: minimise over p the convex piecewise
        quadratic (p - p0)^2 + dist(q0, [qlo(p), qhi(p)])^2."""
        lo, hi, up, dn = region
        lines = up + dn
        bps = set()
        for i, (a, c) in enumerate(lines):
            if c != 0:
                bps.add((q0 - a) / c)
            for a2, c2 in lines[:i]:
                if c != c2:
                    bps.add((a2 - a) / (c - c2))
        bps = sorted(b for b in bps if lo < b < hi and math.isfinite(b))
        edges = [lo] + bps + [hi]

        def q_of(p):
            h = min([a + c * p for a, c in up], default=INF)
            l = max([a + c * p for a, c in dn], default=-INF)
            if l > h:  # degenerate up to rounding
                l = h = 0.5 * (l + h)
            return min(max(q0, l), h)

        best, arg = INF, None
        for e0, e1 in zip(edges[:-1], edges[1:]):
            cand = [min(max(p0, e0), e1)]
            cand += [e for e in (e0, e1) if math.isfinite(e)]
            for a, c in lines:
                # minimiser of (p - p0)^2 + (a + c p - q0)^2
                p = (p0 - c * (a - q0)) / (1 + c * c)
                cand.append(min(max(p, e0), e1))
            for p in cand:
                q = q_of(p)
                dd = (p - p0) ** 2 + (q - q0) ** 2
                if dd < best:
                    best, arg = dd, (p, q)
        if lo == hi and arg is None:
            arg = (lo, q_of(lo))
        return arg

    def soc_next(self, d, soc, p, dt):
        """Documented storage dynamics."""
        if p <= 0:
            s = soc - dt * d.eff * p
        else:
            s = soc - dt * p / d.eff if d.eff > 0 else -INF
        return min(max(s, d.smin), d.smax)

    # --- rewards --------------------------------------------------------------
    def reward(self, dev_p, p_pot, vmag, smax, lamb, dt):
        """(e_loss, penalty) in p.u.; dev_p {id: p}, p_pot {rer id: p}, vmag
        {bus: v}, smax {branch: apparent power}."""
        loss = 0.0
        for i, d in self.devs.items():
            if d.typ != 3:
                loss += dev_p[i]
            if d.typ == 2:
                loss += max(0.0, p_pot[i] - dev_p[i])
        pen = 0.0
        for b in self.buses.values():
            pen += max(0.0, vmag[b.id] - b.vmax) + max(0.0, b.vmin - vmag[b.id])
        for k, br in self.branches.items():
            pen += max(0.0, abs(smax[k]) - br.rate)
        return dt * loss, dt * lamb * pen

    # --- reference power flow ---------------------------------------------------
    def solve(self, S, v0=None, tol=1e-11, itmax=30):
        """Dense Newton power flow (rectangular coordinates) for the injections
        S {bus: complex} of the non-slack buses; returns ({bus: V}, iterations)
        or (None, it)."""
        Y = self.ybus()
        n = len(self.bus_ids)
        sl = self.ix[self.slack_bus]
        ns = [k for k in range(n) if k != sl]
        s = np.array([S[b] for b in self.bus_ids], dtype=complex)
        V = np.ones(n, dtype=complex) if v0 is None else np.array([v0[b] for b in self.bus_ids], dtype=complex)
        for it in range(itmax + 1):
            I = Y @ V
            F = (V * np.conj(I) - s)[ns]
            err = np.max(np.abs(F)) if len(F) else 0.0
            if not np.isfinite(err):
                return None, it
            if err < tol:
                return dict(zip(self.bus_ids, V)), it
            # d(V conj(YV)) = conj(I) dV + V conj(Y) conj(dV)
            A = np.diag(np.conj(I))
            B = np.diag(V) @ np.conj(Y)
            J = np.block([[(A + B).real, (-A + B).imag], [(A + B).imag, (A - B).real]])
            idx = np.array(ns + [n + k for k in ns])
            try:
                dx = np.linalg.solve(J[np.ix_(idx, idx)], -np.concatenate([F.real, F.imag]))
            except np.linalg.LinAlgError:
                return None, it
            V = V.copy()
            V[ns] += dx[: len(ns)] + 1j * dx[len(ns) :]
        return None, itmax

    def jac_sigma_min(self, V):
        """Smallest singular value of the power-flow Jacobian at V (polar-free)."""
        Y = self.ybus()
        n = len(self.bus_ids)
        sl = self.ix[self.slack_bus]
        ns = [k for k in range(n) if k != sl]
        v = np.array([V[b] for b in self.bus_ids])
        I = Y @ v
        A, B = np.diag(np.conj(I)), np.diag(v) @ np.conj(Y)
        J = np.block([[(A + B).real, (-A + B).imag], [(A + B).imag, (A - B).real]])
        idx = np.array(ns + [n + k for k in ns])
        return np.linalg.svd(J[np.ix_(idx, idx)], compute_uv=False)[-1]


def volts(state):
    """{bus: complex V} from a full-state dictionary (p.u., rad)."""
    vm, va = state["bus_v_magn"]["pu"], state["bus_v_ang"]["rad"]
    return {b: vm[b] * complex(math.cos(va[b]), math.sin(va[b])) for b in vm}
