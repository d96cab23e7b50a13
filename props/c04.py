"""C04: branch flows follow the pi model (direction, larger end, sign)."""
import math

import numpy as np

from vmon import gen, ref, work

RULE = (
    "random networks rich in taps, phase shifts, charging and resistive/reactive-only lines, driven through random "
    "transitions; every branch of every converged state is recomputed from the two-port of its pi-equivalent; "
    "non-trivial = distinct (branch parameters, end voltages) with non-zero flow"
)
ASSUMPTIONS = ["flows are evaluated at the reported bus voltages (their correctness is C01)"]
MIN = {"branches_checked": 600, "distinct_nontrivial": 400, "off_nominal": 80, "shifted": 40, "reverse_flow": 60, "max_at_receiving_end": 40}
QUICK_X = 3


def plan(tier):
    q = tier == "quick"
    return [("random", 140 if q else 5000), ("transformers", 100 if q else 3000), ("idle", 30 if q else 500)]


def check_state(ctx, ep, ev):
    if not ev.conv:
        return
    net, st = ep.net, ev.state
    V = ref.volts(st)
    for k, br in net.branches.items():
        i_f, i_t, s_f, s_t = net.flows(br, V)
        info = dict(branch=k, params=br.__dict__, vf=V[br.f], vt=V[br.t])
        tol = 1e-10 * (1 + abs(br.ys))
        p, q = st["branch_p"]["pu"][k], st["branch_q"]["pu"][k]
        s = st["branch_s"]["pu"][k]
        ctx.close(p, s_f.real, tol, "sending-P", "P_ij of branch %s" % (k,), **info)
        ctx.close(q, s_f.imag, tol, "sending-Q", "Q_ij of branch %s" % (k,), **info)
        ctx.close(abs(s), max(abs(s_f), abs(s_t)), tol, "apparent-power", "|S| of branch %s (larger end)" % (k,), **info)
        if abs(p) > 10 * tol:
            ctx.check((s >= 0) == (p > 0), "direction", "branch %s: P_ij = %r but the apparent power is %r" % (k, p, s), **info)
        elif p == 0 and abs(s) > 0:
            ctx.check(s > 0, "direction-at-zero", "branch %s: P_ij = 0 but the apparent power is %r" % (k, s), **info)
            ctx.count("zero_active_flow")
        im, ia = st["branch_i_magn"]["pu"][k], st["branch_i_ang"]["rad"][k]
        ctx.close(abs(im), abs(i_f), tol, "current-magnitude", "|I_ij| of branch %s" % (k,), **info)
        if abs(i_f) > 1e-6:
            d = np.exp(1j * ia) - i_f / abs(i_f)
            ctx.check(abs(d) < 1e-6 * (1 + abs(br.ys)) , "current-angle", "angle of I_ij of branch %s: %r rad, expected %r" % (k, ia, math.atan2(i_f.imag, i_f.real)), **info)
            ctx.count("currents")
            if abs(i_f.real) > 1e-6 * (1 + abs(br.ys)):
                ctx.check((im >= 0) == (i_f.real > 0), "current-sign", "signed magnitude of I_ij of branch %s is %r but its real part is %r" % (k, im, i_f.real), **info)
        ctx.count("branches_checked")
        ctx.count("off_nominal", br.a != 1)
        ctx.count("shifted", br.shift % (2 * math.pi) > 1e-9)
        ctx.count("reverse_flow", p < 0)
        ctx.count("max_at_receiving_end", abs(s_t) > abs(s_f) * 1.000001)
        if abs(s_f) > 1e-9:
            ctx.nontrivial(round(br.r, 6), round(br.x, 6), br.a, round(V[br.f].real, 6), round(V[br.t].imag, 7))
    ctx.evaluated()


def run(ctx, kind):
    rng = ctx.rng
    network = gen.network(rng, **({"n_bus": int(rng.integers(2, 6))} if kind != "random" else {}))
    if kind == "transformers":
        for r in network["branch"]:
            if rng.random() < 0.7:
                r[6] = gen.r6(rng.uniform(0.9, 1.1))
            if rng.random() < 0.6:
                r[7] = gen.pick(rng, [gen.r6(rng.uniform(0, 12)), gen.r6(rng.uniform(345, 360)), 30.0, 330.0])
            r[4] = gen.pick(rng, [0.0, gen.r6(rng.uniform(0, 0.2)), None if r.dtype == object else 0.02])
    if kind == "idle":
        # Lines with purely reactive (or no) flow: zero P at the sending end.
        rows = network["device"]
        keep = [r for r in rows if r[2] == 0]
        network["device"] = gen.as_array(rng, [list(r) for r in keep])
        for r in network["branch"]:
            r[2], r[3] = 0.0, gen.r6(rng.uniform(0.01, 0.3))
            r[4] = gen.pick(rng, [0.0, 0.05])
            if rng.random() < 0.8:
                r[7] = 0.0
    ep = work.Episode(ctx, network)
    check_state(ctx, ep, ep.events[0])
    for _ in range(2 if kind == "idle" else int(rng.integers(2, 6))):
        check_state(ctx, ep, ep.step())
    if ctx.idx == 0:
        st = ep.events[-1].state
        ctx.sample({"kind": kind, "branches": gen.describe(network)["branch"], "branch_s": st["branch_s"]["pu"], "branch_p": st["branch_p"]["pu"]})
