"""Reference multi-stage DC optimal power flow (HiGHS), from a parsed network."""
import math

import numpy as np
import scipy.sparse as sp
from scipy.optimize import linprog


class Plan:
    """LP: minimise sum_i gamma^i [ sum P(non-renewable generators, slack)
    + lamb * sum_branches max(0, |P_ij| - margin * rate) ] over N stages."""

    def __init__(self, net, dt, lamb, gamma, margin, N):
        self.net, self.dt, self.N = net, dt, N
        self.gamma, self.margin, self.lamb = gamma, margin, lamb
        self.brs = list(net.branches.values())
        # Susceptance of each line in the DC approximation (without phase shifts).
        self.B = [-float(b.ys.imag) / abs(b.tap) for b in self.brs]
        self.nd, self.nb, self.ne, self.ns = len(net.ids), len(net.bus_ids), len(self.brs), len(net.des)
        self.per = self.nd + self.nb + self.ne + 2 * self.ns
        self.dcol = {i: k for k, i in enumerate(net.ids)}

    def off(self, stage):
        return stage * self.per

    def solve(self, P_load, P_gen, soc, first=None, band=0.0):
        """P_load (n_load, N), P_gen (n_gen, N), soc {des: p.u.}; first = {device: P}
        fixes the first stage up to band. Returns (cost, first-stage P) or None."""
        net, N, dt = self.net, self.N, self.dt
        nv = N * self.per
        c = np.zeros(nv)
        lb, ub = np.full(nv, -np.inf), np.full(nv, np.inf)
        eq, beq, le, ble = [], [], [], []

        for i in range(N):
            o = self.off(i)
            oth, obr, oc = o + self.nd, o + self.nd + self.nb, o + self.nd + self.nb + self.ne
            w = self.gamma**i
            for d in net.devs.values():
                k = o + self.dcol[d.id]
                if d.typ in (0, 1):
                    c[k] = w
                if d.typ == -1:
                    lb[k] = ub[k] = P_load[net.loads.index(d.id), i]
                elif d.typ in (1, 2):
                    lb[k], ub[k] = d.pmin, min(d.pmax, P_gen[net.gens.index(d.id), i])
                elif d.typ == 3:
                    lb[k], ub[k] = d.pmin, d.pmax
            for b in net.bus_ids:
                k = oth + net.ix[b]
                lb[k], ub[k] = (-math.pi, math.pi) if b != net.slack_bus else (0.0, 0.0)
            # Balance of every bus.
            rows = [dict() for _ in net.bus_ids]
            for d in net.devs.values():
                rows[net.ix[d.bus]][o + self.dcol[d.id]] = 1.0
            for e, br in enumerate(self.brs):
                f, t, B = net.ix[br.f], net.ix[br.t], self.B[e]
                for a, s in ((f, 1.0), (t, -1.0)):
                    rows[a][oth + f] = rows[a].get(oth + f, 0.0) - s * B
                    rows[a][oth + t] = rows[a].get(oth + t, 0.0) + s * B
                k = obr + e
                lb[k] = 0.0
                if math.isinf(br.rate):
                    ub[k] = 0.0
                    continue
                c[k] = w * self.lamb
                for s in (1.0, -1.0):
                    le.append({oth + f: s * B, oth + t: -s * B, k: -1.0})
                    ble.append(self.margin * br.rate)
            eq += rows
            beq += [0.0] * len(rows)
            # Storage: SoC after stage i within bounds.
            for j, sid in enumerate(net.des):
                d = net.devs[sid]
                pc, pd = oc + 2 * j, oc + 2 * j + 1
                lb[pc] = lb[pd] = 0.0
                if d.eff == 0:
                    ub[pd] = 0.0
                eq.append({o + self.dcol[sid]: 1.0, pd: -1.0, pc: 1.0})
                beq.append(0.0)
                row = {}
                for m in range(i + 1):
                    q = self.off(m) + self.nd + self.nb + self.ne + 2 * j
                    row[q] = dt * d.eff
                    row[q + 1] = -dt / d.eff if d.eff > 0 else 0.0
                le.append(row)
                ble.append(d.smax - soc[sid])
                le.append({k: -v for k, v in row.items()})
                ble.append(soc[sid] - d.smin)
        if first is not None:
            for i, p in first.items():
                k = self.dcol[i]
                lb[k], ub[k] = max(lb[k], p - band), min(ub[k], p + band)
                if lb[k] > ub[k]:
                    return None

        def mat(rows):
            r, cc, v = [], [], []
            for a, row in enumerate(rows):
                for k, x in row.items():
                    r.append(a)
                    cc.append(k)
                    v.append(x)
            return sp.csr_matrix((v, (r, cc)), shape=(len(rows), nv))

        res = linprog(c, A_ub=mat(le) if le else None, b_ub=ble or None, A_eq=mat(eq), b_eq=beq, bounds=np.column_stack([lb, ub]), method="highs")
        self.status = res.status
        if res.status != 0:
            return None
        return float(res.fun), {i: float(res.x[self.dcol[i]]) for i in net.ids}
