"""C17: a network specification is accepted if and only if it is valid."""
import copy

import numpy as np

from vmon import gen, ref, work

RULE = (
    "random valid networks: every input rule is violated alone, at a random row, by a small or a large amount, in float "
    "or object arrays, and the documented error class must be raised by the simulator and by an environment; boundary "
    "values, omitted optional values and random valid networks must be accepted and usable; non-trivial = distinct "
    "(rule, position, amount) rejected or distinct accepted boundary network"
)
ASSUMPTIONS = [
    "an invalid DEV_TYPE raises NotImplementedError in the simulator (documented there) or a device error",
    "NaN entries, networks without branches and isolated buses are not covered by the documented rules",
]
MIN = {"invalid_networks": 350, "valid_networks": 150, "rules_exercised": 350, "distinct_nontrivial": 350, "boundary_values": 150}

B = {n: k for k, n in enumerate(ref.BUS)}
D = {n: k for k, n in enumerate(ref.DEV)}
R = {n: k for k, n in enumerate(ref.BR)}


class NA(Exception):
    """The rule cannot be violated in this network."""


def amount(rng):
    return float(gen.pick(rng, [1e-6, 0.01, 1.0, 1e3]))


def row_of(rng, rows, cond):
    idx = [i for i, r in enumerate(rows) if cond(r)]
    if not idx:
        raise NA()
    return idx[int(rng.integers(len(idx)))]


def typ(*ts):
    return lambda r: r[D["DEV_TYPE"]] in ts


def is_slack(r):
    return r[B["BUS_TYPE"]] == 0


def pq(r):
    return r[B["BUS_TYPE"]] != 0


def std_gen(r):
    """Consistent, generic values: violating one rule breaks only that rule."""
    r[4:12] = [30.0, 2.0, 15.0, -12.0, 20.0, None, 8.0, -7.0]


def std_des(r):
    r[4:12] = [30.0, -25.0, 15.0, -12.0, 20.0, -15.0, 8.0, -7.0]
    r[12:15] = [50.0, 5.0, 0.9]


def std_load(r):
    r[3:6] = [0.2, 0.0, -20.0]


def std_slack(r):
    r[4:12] = [300.0, -300.0, 200.0, -200.0, None, None, None, None]


STD = {-1: std_load, 0: std_slack, 1: std_gen, 2: std_gen, 3: std_des}


def setter(table, cols, cond, values, std=False):
    """Violate by writing values(rng, row) into the columns of a random row."""

    def f(rng, n):
        i = row_of(rng, n[table], cond)
        r = n[table][i]
        if std:
            STD[int(r[2])](r)
        v = values(rng, r) if callable(values) else values
        for c, x in zip(cols, v):
            r[c] = x
        return i

    return f


def rules():
    d, a = {}, amount

    def bus(name, cols, values, cond=lambda r: True):
        d["bus:" + name] = ("BusSpecError", setter("bus", [B[c] for c in cols], cond, values))

    def dev(name, types, cols, values):
        for t in types:
            d["dev%d:%s" % (t, name)] = ("DeviceSpecError", setter("device", [D[c] for c in cols], typ(t), values, True))

    def br(name, cols, values):
        d["branch:" + name] = ("BranchSpecError", setter("branch", [R[c] for c in cols], lambda r: True, values))

    def base(v):
        def f(rng, n):
            n["baseMVA"] = v(rng)
            return v

        return f

    d["base:zero"] = ("BaseMVAError", base(lambda rng: gen.pick(rng, [0, 0.0])))
    d["base:negative"] = ("BaseMVAError", base(lambda rng: -a(rng)))

    # --- buses
    def second_slack(rng, n):
        i = row_of(rng, n["bus"], pq)
        n["bus"][i][B["BUS_TYPE"]] = 0
        return i

    def no_slack(rng, n):
        n["bus"][row_of(rng, n["bus"], is_slack)][B["BUS_TYPE"]] = 1

    def dup_bus(rng, n):
        i = row_of(rng, n["bus"], lambda r: True)
        r = list(n["bus"][i])
        r[B["BUS_TYPE"]] = 1
        if r[B["VMIN"]] is None:
            r[B["VMIN"]] = 0.9
        r[B["VMIN"]] = min(r[B["VMIN"]], r[B["VMAX"]])
        n["bus"].insert(int(rng.integers(0, len(n["bus"]) + 1)), r)
        return i

    d["bus:two-slacks"] = ("BusSpecError", second_slack)
    d["bus:no-slack"] = ("BusSpecError", no_slack)
    d["bus:duplicate-id"] = ("BusSpecError", dup_bus)
    bus("type", ["BUS_TYPE"], lambda rng, r: [gen.pick(rng, [2, 3, -1, 7])], pq)
    bus("kv-none", ["BASE_KV"], [None])
    bus("kv-zero", ["BASE_KV"], [0.0])
    bus("kv-negative", ["BASE_KV"], lambda rng, r: [-a(rng)])
    bus("vmax-none", ["VMAX"], [None])
    bus("vmax-negative", ["VMAX", "VMIN"], lambda rng, r: [-a(rng), None if is_slack(r) else -2e3])
    bus("vmax-negative-only", ["VMAX"], lambda rng, r: [-a(rng)])
    bus("vmin-none", ["VMIN"], [None], pq)
    bus("vmin-negative", ["VMIN"], lambda rng, r: [-a(rng)], pq)
    bus("vmax<vmin", ["VMAX", "VMIN"], lambda rng, r: [1.0, 1.0 + a(rng)], pq)

    # --- devices
    def no_slack_dev(rng, n):
        i = row_of(rng, n["device"], typ(0))
        if rng.random() < 0.5 and len(n["device"]) > 1:
            del n["device"][i]
        else:
            std_gen(n["device"][i])
            n["device"][i][D["DEV_TYPE"]] = 1

    def two_slack_dev(rng, n):
        i = row_of(rng, n["device"], typ(0))
        r = list(n["device"][i])
        r[0] = max(x[0] for x in n["device"]) + 1
        n["device"].insert(int(rng.integers(0, len(n["device"]) + 1)), r)

    def slack_elsewhere(rng, n):
        i = row_of(rng, n["device"], typ(0))
        n["device"][i][1] = n["bus"][row_of(rng, n["bus"], pq)][0]

    def dup_dev(rng, n):
        i = row_of(rng, n["device"], typ(-1, 1, 2, 3))
        j = row_of(rng, n["device"], lambda r: r is not n["device"][i])
        if rng.random() < 0.5:
            n["device"][i][0] = n["device"][j][0]
        else:
            n["device"].insert(int(rng.integers(0, len(n["device"]) + 1)), list(n["device"][i]))
        return i

    def dev_bus(rng, n):
        i = row_of(rng, n["device"], typ(-1, 1, 2, 3))
        n["device"][i][1] = gen.pick(rng, [max(r[0] for r in n["bus"]) + 1, -1, None, n["bus"][0][0] + 0.5])
        return i

    d["dev:no-slack"] = ("DeviceSpecError", no_slack_dev)
    d["dev:two-slacks"] = ("DeviceSpecError", two_slack_dev)
    d["dev:slack-elsewhere"] = ("DeviceSpecError", slack_elsewhere)
    d["dev:duplicate-id"] = ("DeviceSpecError", dup_dev)
    d["dev:bus"] = ("DeviceSpecError", dev_bus)
    d["dev:id-none"] = ("DeviceSpecError", setter("device", [0], typ(-1, 1, 2, 3), [None]))
    d["dev:type"] = ("DeviceSpecError|NotImplementedError", setter("device", [2], typ(-1, 1, 2, 3), lambda rng, r: [gen.pick(rng, [4, -2, 9, 5])]))
    dev("qp-none", [-1], ["Q/P"], [None])
    dev("pmax-positive", [-1], ["PMAX"], lambda rng, r: [a(rng)])
    dev("pmax<pmin", [-1], ["PMAX", "PMIN"], lambda rng, r: [gen.pick(rng, [-1e4, -20.0 - 1e-3]), -20.0])
    dev("pmin-positive", [-1], ["PMAX", "PMIN"], lambda rng, r: [gen.pick(rng, [None, 0.0]), a(rng)])
    G = [1, 2]
    dev("pmax-negative", G, ["PMAX", "PMIN", "P+"], lambda rng, r: [-a(rng), None, None])
    dev("pmin-negative", G, ["PMIN"], lambda rng, r: [-a(rng)])
    dev("pmax<pmin", G, ["PMAX", "PMIN", "P+"], lambda rng, r: [30.0, 30.0 + a(rng), None])
    dev("pmax<pmin", [0], ["PMAX", "PMIN"], lambda rng, r: [30.0, 30.0 + a(rng)])
    dev("qmax<qmin", [0], ["QMAX", "QMIN"], lambda rng, r: [-5.0, -5.0 + a(rng)])
    dev("qmax<qmin", G + [3], ["QMAX", "QMIN", "Q+", "Q-"], lambda rng, r: [-5.0, -5.0 + a(rng), None, None])
    dev("p+<pmin", G, ["P+"], lambda rng, r: [2.0 - a(rng)])
    dev("p+>pmax", G + [3], ["P+"], lambda rng, r: [30.0 + a(rng)])
    dev("q+>qmax", G + [3], ["Q+"], lambda rng, r: [15.0 + a(rng)])
    dev("q-<qmin", G + [3], ["Q-"], lambda rng, r: [-12.0 - a(rng)])
    dev("q+<q-", G + [3], ["Q+", "Q-"], lambda rng, r: [3.0, 3.0 + gen.pick(rng, [1e-6, 0.5, 10.0])])
    dev("pmax-negative", [3], ["PMAX", "PMIN", "P+", "P-"], lambda rng, r: (lambda v: [-v, -v - 10, None, None])(a(rng)))
    dev("pmin-positive", [3], ["PMAX", "PMIN", "P+", "P-"], lambda rng, r: (lambda v: [v + 10, v, None, None])(a(rng)))
    dev("p+<pmin", [3], ["P+", "P-"], lambda rng, r: [-25.0 - a(rng), None])
    dev("p-<pmin", [3], ["P-"], lambda rng, r: [-25.0 - a(rng)])
    dev("p->pmax", [3], ["P-", "P+"], lambda rng, r: [30.0 + a(rng), None])
    dev("p+<p-", [3], ["P+", "P-"], lambda rng, r: [3.0, 3.0 + gen.pick(rng, [1e-6, 0.5, 10.0])])
    dev("socmin-negative", [3], ["SOC_MIN"], lambda rng, r: [-a(rng)])
    dev("socmax-none", [3], ["SOC_MAX"], [None])
    dev("socmax-negative", [3], ["SOC_MAX", "SOC_MIN"], lambda rng, r: [-a(rng), None])
    dev("socmax<socmin", [3], ["SOC_MAX", "SOC_MIN"], lambda rng, r: [5.0, 5.0 + a(rng)])
    dev("eff-negative", [3], ["EFF"], lambda rng, r: [-a(rng)])
    dev("eff>1", [3], ["EFF"], lambda rng, r: [1 + a(rng)])

    # --- branches
    def parallel(rev):
        def f(rng, n):
            i = row_of(rng, n["branch"], lambda r: True)
            r = list(n["branch"][i])
            if rev:
                r[0], r[1] = r[1], r[0]
            r[3] = 0.05
            n["branch"].insert(int(rng.integers(0, len(n["branch"]) + 1)), r)
            return i

        return f

    d["branch:parallel"] = ("BranchSpecError", parallel(False))
    d["branch:parallel-reversed"] = ("BranchSpecError", parallel(True))

    def loop(rng, n):
        r = list(n["branch"][0])
        r[0] = r[1]
        n["branch"].insert(int(rng.integers(0, len(n["branch"]) + 1)), r)

    d["branch:self-loop"] = ("BranchSpecError", loop)

    def ends(k):
        def f(rng, n):
            r = list(n["branch"][int(rng.integers(len(n["branch"])))])
            r[k] = gen.pick(rng, [max(x[0] for x in n["bus"]) + 1, -1])
            if rng.random() < 0.5:
                n["branch"].append(r)
            else:
                n["branch"].insert(0, r)

        return f

    d["branch:f-bus"] = ("BranchSpecError", ends(0))
    d["branch:t-bus"] = ("BranchSpecError", ends(1))
    br("r-negative", ["BR_R"], lambda rng, r: [-a(rng)])
    br("x-negative", ["BR_X"], lambda rng, r: [-a(rng)])
    br("r=x=0", ["BR_R", "BR_X"], lambda rng, r: [gen.pick(rng, [0.0, None, 0]), gen.pick(rng, [0.0, None, 0])])
    br("b-negative", ["BR_B"], lambda rng, r: [-a(rng)])
    br("rate-negative", ["RATE"], lambda rng, r: [-a(rng)])
    br("tap-zero", ["TAP"], [0.0])
    br("tap-negative", ["TAP"], lambda rng, r: [-a(rng)])
    br("shift-negative", ["SHIFT"], lambda rng, r: [-a(rng)])
    br("shift>360", ["SHIFT"], lambda rng, r: [360 + a(rng)])
    return d


def boundaries():
    """Valid extreme values: (table, condition, {column: value})."""
    d = {}

    def add(name, table, cond, **kw):
        d[name] = (table, cond, kw)

    add("bus vmin=0", "bus", pq, VMIN=0.0)
    add("bus vmin=vmax", "bus", pq, VMIN=1.0, VMAX=1.0)
    add("bus vmin=0=vmax", "bus", pq, VMIN=0.0, VMAX=0.0)
    add("slack vmin none", "bus", is_slack, VMIN=None)
    add("tiny kv", "bus", pq, BASE_KV=1e-6)
    add("load pmax none", "device", typ(-1), PMAX=None)
    add("load pmin none", "device", typ(-1), PMIN=None)
    add("load pmax=pmin", "device", typ(-1), PMAX=-20.0, PMIN=-20.0)
    add("load 0", "device", typ(-1), PMAX=0.0, PMIN=0.0)
    add("load qp=0", "device", typ(-1), **{"Q/P": 0.0})
    add("load qp<0", "device", typ(-1), **{"Q/P": -0.7})
    for t in (1, 2):
        add("gen%d pmin=0" % t, "device", typ(t), PMIN=0.0)
        add("gen%d pmax=0" % t, "device", typ(t), **{"PMAX": 0.0, "PMIN": 0.0, "P+": None})
        add("gen%d pmax=pmin" % t, "device", typ(t), **{"PMAX": 5.0, "PMIN": 5.0, "P+": None})
        add("gen%d all none" % t, "device", typ(t), **{k: None for k in ("PMAX", "PMIN", "QMAX", "QMIN", "P+", "P-", "Q+", "Q-")})
        add("gen%d p+=pmin" % t, "device", typ(t), **{"P+": 2.0})
        add("gen%d p+=pmax" % t, "device", typ(t), **{"P+": 30.0})
    for t in (1, 2, 3):
        add("dev%d q+=q-" % t, "device", typ(t), **{"Q+": 1.0, "Q-": 1.0})
        add("dev%d q+=qmax" % t, "device", typ(t), **{"Q+": 15.0, "Q-": -12.0})
        add("dev%d qmin=qmax" % t, "device", typ(t), **{"QMIN": 2.0, "QMAX": 2.0, "Q+": None, "Q-": None})
        add("dev%d q-range positive" % t, "device", typ(t), **{"QMIN": 2.0, "QMAX": 5.0, "Q+": 4.0, "Q-": 3.0})
    add("des pmax=0", "device", typ(3), **{"PMAX": 0.0, "P+": None})
    add("des pmin=0", "device", typ(3), **{"PMIN": 0.0, "P-": None})
    add("des p+=p-", "device", typ(3), **{"P+": 4.0, "P-": 4.0})
    add("des p+=pmax p-=pmin", "device", typ(3), **{"P+": 30.0, "P-": -25.0})
    add("des pmax=pmin=0", "device", typ(3), **{"PMAX": 0.0, "PMIN": 0.0, "P+": None, "P-": None})
    add("des p+=p-=pmax", "device", typ(3), **{"P+": 30.0, "P-": 30.0})
    add("des p+=p-=pmin", "device", typ(3), **{"P+": -25.0, "P-": -25.0})
    for t in (1, 2, 3):
        add("dev%d q+=q-=qmax" % t, "device", typ(t), **{"Q+": 15.0, "Q-": 15.0})
        add("dev%d q+=q-=qmin" % t, "device", typ(t), **{"Q+": -12.0, "Q-": -12.0})
    for t in (1, 2):
        add("gen%d p+=pmin=pmax" % t, "device", typ(t), **{"PMAX": 7.0, "PMIN": 7.0, "P+": 7.0})
        add("gen%d 0" % t, "device", typ(t), **{"PMAX": 0.0, "PMIN": 0.0, "P+": 0.0})
    for t in (0, 1, 2, 3):
        add("dev%d qmin=qmax=0" % t, "device", typ(t), **{"QMAX": 0.0, "QMIN": 0.0, "Q+": None, "Q-": None})
    add("des all none", "device", typ(3), **{k: None for k in ("PMAX", "PMIN", "QMAX", "QMIN", "P+", "P-", "Q+", "Q-", "SOC_MIN", "EFF")})
    add("des soc 0", "device", typ(3), SOC_MIN=0.0, SOC_MAX=0.0)
    add("des socmin=socmax", "device", typ(3), SOC_MIN=7.0, SOC_MAX=7.0)
    add("des socmin=0", "device", typ(3), SOC_MIN=0.0)
    add("des eff 0", "device", typ(3), EFF=0.0)
    add("des eff 1", "device", typ(3), EFF=1.0)
    add("slack pmin=pmax", "device", typ(0), PMIN=10.0, PMAX=10.0)
    add("slack negative", "device", typ(0), PMIN=-10.0, PMAX=-5.0)
    add("slack none", "device", typ(0), PMIN=None, PMAX=None, QMIN=None, QMAX=None)
    br = lambda r: True
    add("r=0", "branch", br, BR_R=0.0, BR_X=0.01)
    add("x=0", "branch", br, BR_R=0.01, BR_X=0.0)
    add("r none", "branch", br, BR_R=None, BR_X=0.01)
    add("x none", "branch", br, BR_R=0.01, BR_X=None)
    add("b=0", "branch", br, BR_B=0.0)
    add("b none", "branch", br, BR_B=None)
    add("rate=0", "branch", br, RATE=0.0)
    add("rate none", "branch", br, RATE=None)
    add("tap small", "branch", br, TAP=1e-3)
    add("tap none", "branch", br, TAP=None)
    add("shift 0", "branch", br, SHIFT=0.0)
    add("shift 360", "branch", br, SHIFT=360.0)
    add("shift none", "branch", br, SHIFT=None)
    return d


RULES, BOUND = rules(), boundaries()
COL = {"bus": B, "device": D, "branch": R}
QUICK_X = 4


def plan(tier):
    q = tier == "quick"
    return [("invalid", 320 if q else 3000), ("boundary", 180 if q else 1500), ("valid", 60 if q else 2500)]


def lists(network):
    return {"baseMVA": network["baseMVA"], **{k: [[v for v in r] for r in network[k]] for k in ("bus", "device", "branch")}}


def arrays(rng, n):
    return {"baseMVA": n["baseMVA"], **{k: gen.as_array(rng, n[k]) for k in ("bus", "device", "branch")}}


def big_network(rng):
    net = gen.network(rng, n_bus=int(rng.integers(3, 8)), n_load=int(rng.integers(1, 4)), n_gen=int(rng.integers(1, 3)), n_rer=int(rng.integers(1, 3)), n_des=int(rng.integers(1, 4)), zero_eff=False)
    return lists(net)


def build(rng, network, as_env=None):
    if rng.random() < 0.3 if as_env is None else as_env:
        return work.make_env(network, "state", 0, 0.5, 0.9, 10)
    return work.Simulator(network, 0.5, 10)


def run(ctx, kind):
    rng = ctx.rng
    import gym_anm.simulator.components.errors as err

    if kind == "invalid":
        names = list(RULES)
        base = big_network(rng)
        # Every rule is visited in turn over the cases; several per case.
        per = 4
        for j in range(per):
            name = names[(ctx.idx * per + j) % len(names)]
            cls_names, f = RULES[name]
            n = copy.deepcopy(base)
            try:
                pos = f(rng, n)
            except NA:
                ctx.count("not-applicable")
                continue
            network = arrays(rng, n)
            classes = tuple(getattr(err, c, None) or NotImplementedError for c in cls_names.split("|"))
            info = {"rule": name, "network": gen.describe(network), "row": pos if isinstance(pos, int) else None}
            ctx.evaluated()
            ctx.count("invalid_networks")
            ctx.count("rules_exercised")
            for as_env in (False, True) if rng.random() < 0.5 else (False,):
                try:
                    build(rng, network, as_env)
                except classes:
                    ctx.check(True, "rejected")
                    ctx.nontrivial(name, pos if isinstance(pos, int) else None, len(base["bus"]), len(base["device"]))
                except Exception as e:
                    ctx.check(False, "wrong-error:" + name, "violating '%s' raised %s(%s) instead of %s" % (name, type(e).__name__, e, cls_names), **info)
                else:
                    ctx.check(False, "accepted-invalid:" + name, "a network violating '%s' was accepted" % name, **info)
            if ctx.idx == 0:
                ctx.sample(info)
        return
    if kind == "boundary":
        names = list(BOUND)
        for j in range(4):
            base = big_network(rng)
            name = names[(ctx.idx * 4 + j) % len(names)]
            table, cond, kw = BOUND[name]
            i = row_of(rng, base[table], cond)
            r = base[table][i]
            if table == "device":
                STD[int(r[2])](r)
            for c, v in kw.items():
                r[COL[table][c]] = v
            usable(ctx, base, "boundary:" + name, i)
            ctx.count("boundary_values")
        return
    # Any valid network, with IDs and dtypes of all kinds.
    n = lists(gen.network(rng))
    if rng.random() < 0.3:
        n["baseMVA"] = float(gen.pick(rng, [1e-3, 1e4]))
    elif rng.random() < 0.2:
        # Integer arrays.
        n = {"baseMVA": 10, "bus": [[1, 0, 50, 1, 1], [2, 1, 50, 2, 0]], "device": [[3, 1, 0] + [0] * 12, [1, 2, -1, 1, 0, -5] + [0] * 9], "branch": [[1, 2, 0, 1, 0, 10, 1, 0]]}
        n = {k: (np.array(v, dtype=int) if k != "baseMVA" else v) for k, v in n.items()}
        sim = work.Simulator(n, 1, 10)
        ctx.check(sim.reset(np.array([0, 0, 0, 0])), "integer-network", "an unloaded network given by integer arrays does not converge", network=gen.describe(n))
        ctx.count("valid_networks")
        ctx.count("integer_networks")
        return
    usable(ctx, n, "valid", None)


def usable(ctx, n, name, i):
    rng = ctx.rng
    network = arrays(rng, n)
    info = {"what": name, "network": gen.describe(network), "row": i}
    ctx.evaluated()
    ctx.count("valid_networks")
    try:
        net = ref.Net(network)
        sim = build(rng, network, False)
        env = build(rng, network, True)
    except Exception as e:
        ctx.check(False, "rejected-valid:" + name, "a valid network (%s) was rejected: %s(%s)" % (name, type(e).__name__, e), **info)
        return
    ctx.check(set(sim.buses) == set(net.bus_ids) and set(sim.devices) == set(net.ids) and set(sim.branches) == set(net.branches), "elements", "buses %s, devices %s, branches %s" % (list(sim.buses), list(sim.devices), list(sim.branches)), **info)
    types = {i: getattr(x, "type", None) for i, x in sim.devices.items()}
    ctx.check(types == {i: d.typ for i, d in net.devs.items()}, "device-types", "%s" % types, **info)
    init = np.zeros(2 * len(net.ids) + len(net.des) + len(net.gens))
    sim.reset(init)
    ctx.check(sim.state is not None, "unusable", "no state after reset", **info)
    ctx.nontrivial(name, work.net_key(net))
