"""Workloads: real Simulator / ANMEnv runs, recorded as event logs."""
import copy
import math
import warnings

import numpy as np

from . import gen, ref
from .core import Skip

warnings.simplefilter("ignore")


def Simulator(*a, **k):
    from gym_anm.simulator import Simulator as S

    return S(*a, **k)


class Event:
    """One simulator transition (or reset) and everything observed around it."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Episode:
    """Drives a real Simulator and records each transition.

    The SoC before each transition is what the previous state reported.
    """

    def __init__(self, ctx, network, dt=None, lamb=None, reset=True, init=None):
        rng = ctx.rng
        self.ctx = ctx
        self.network = network
        self.net = ref.Net(network)
        self.dt = dt if dt is not None else float(gen.pick(rng, [0.25, 0.5, 1.0, 1 / 12, 2.0, 1]))
        self.lamb = lamb if lamb is not None else gen.pick(rng, [100, 0, 1, 1000.5, 10])
        self.sim = Simulator(copy.deepcopy(network), self.dt, self.lamb)
        self.state = None
        self.events = []
        if reset:
            self.reset(init)

    def reset(self, init=None):
        if init is None:
            init = gen.init_state(self.ctx.rng, self.net)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            conv = self.sim.reset(np.array(init))
        self.state = self.sim.state
        ev = Event(kind="reset", init=init, conv=conv, state=self.sim.state, prev=None, before={})
        self.events.append(ev)
        self.ctx.count("resets")
        return ev

    def step(self, req=None, mode=None):
        if req is None:
            req = gen.request(self.ctx.rng, self.net, mode)
        prev = self.state
        before = dict(prev["des_soc"]["pu"]) if prev is not None else {}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            state, reward, e_loss, penalty, conv = self.sim.transition(*[dict(r) for r in req])
        ev = Event(kind="step", req=req, before=before, state=state, reward=reward, e_loss=e_loss, penalty=penalty, conv=conv, prev=prev)
        self.state = state
        self.events.append(ev)
        self.ctx.count("transitions")
        self.ctx.count("converged" if conv else "collapsed")
        return ev

    def info(self, ev=None):
        d = {"network": gen.describe(self.network), "delta_t": self.dt, "lamb": self.lamb}
        if ev is not None:
            d["soc_before"] = ev.before
            if ev.kind == "step":
                d["request"] = dict(zip(["P_load", "P_pot", "P_set", "Q_set"], ev.req))
            else:
                d["init_state"] = ev.init
        return d


def net_key(net):
    return (len(net.buses), len(net.branches), len(net.loads), len(net.gens), len(net.des), net.slack_bus, net.base, tuple(net.bus_ids))


def state_key(state):
    """Coarse fingerprint of a reached state (to count distinct states)."""
    v = [round(x, 4) for x in state["bus_v_magn"]["pu"].values()]
    p = [round(float(x), 5) for x in state["dev_p"]["pu"].values()]
    return (tuple(v), tuple(p))


# --- environments ---------------------------------------------------------------
def calmer(s, attempt):
    """A calmer version of an initial state for each further attempt at a reset.

    The environment gives up after 100 infeasible initial states; a network that
    has none at all cannot be used by the case.
    """
    if attempt > 90:
        raise Skip("no-feasible-initial-state")
    return s * 0.9 ** min(attempt, 60)


def make_env(network, observation="state", K=0, delta_t=0.25, gamma=0.95, lamb=100, aux_bounds=None, costs_clipping=None, seed=None, init_fn=None, vars_fn=None, cls_hook=None):
    """A user-style ANMEnv subclass whose init_state/next_vars are scripted."""
    from gym_anm.envs import ANMEnv

    class UserEnv(ANMEnv):
        def init_state(self):
            return init_fn(self)

        def next_vars(self, s_t):
            return vars_fn(self, s_t)

    if cls_hook is not None:
        UserEnv = cls_hook(UserEnv)
    return UserEnv(network, observation, K, delta_t, gamma, lamb, aux_bounds, costs_clipping, seed)


def random_vars(rng, net, aux, mode=None):
    P_load, P_pot, _, _ = gen.request(rng, net, load_mode=mode, pot_mode=mode)
    return np.array([P_load[i] for i in net.loads] + [P_pot[i] for i in net.gens] + list(aux), dtype=float)


def sample_action(rng, space, mode=None):
    """An action of a Box: uniform, corner, zero, near-bound or mixed."""
    lo = np.where(np.isfinite(space.low), space.low, -1e3)
    hi = np.where(np.isfinite(space.high), space.high, 1e3)
    lo, hi = np.minimum(lo, hi), np.maximum(lo, hi)
    lo, hi = np.maximum(lo, space.low), np.minimum(hi, space.high)
    mode = mode or gen.pick(rng, ["uniform", "uniform", "corner", "low", "high", "zero", "sparse"])
    u = rng.uniform(lo, hi) if lo.size else np.zeros(0)
    if mode == "corner":
        u = np.where(rng.random(lo.shape) < 0.5, lo, hi)
    elif mode == "low":
        u = lo.copy()
    elif mode == "high":
        u = hi.copy()
    elif mode == "zero":
        u = np.clip(np.zeros_like(lo), lo, hi)
    elif mode == "sparse":
        u = np.where(rng.random(lo.shape) < 0.5, np.clip(0, lo, hi), u)
    return u


def split_action(net, a):
    """Documented layout of the action vector -> (P_set, Q_set) in MW, MVAr."""
    ng, nd = len(net.gens), len(net.des)
    P, Q = {}, {}
    for k, i in enumerate(net.gens):
        P[i], Q[i] = a[k], a[ng + k]
    for k, i in enumerate(net.des):
        P[i], Q[i] = a[2 * ng + k], a[2 * ng + nd + k]
    return P, Q


def split_vars(net, v):
    nl, ng = len(net.loads), len(net.gens)
    return dict(zip(net.loads, v[:nl])), dict(zip(net.gens, v[nl : nl + ng])), v[nl + ng :]


def expected_state_vector(net, full, aux):
    """The documented state vector, read from a full-state dictionary."""
    out = [full["dev_p"]["MW"][i] for i in net.ids]
    out += [full["dev_q"]["MVAr"][i] for i in net.ids]
    out += [full["des_soc"]["MWh"][i] for i in net.des]
    out += [full["gen_p_max"]["MW"][i] for i in net.gens]
    return np.array(out + list(aux), dtype=float)
