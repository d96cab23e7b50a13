"""User-style environments on random networks, with an independent oracle."""
import copy
import math

import numpy as np

from . import gen, ref, work
from .core import Skip


def add_bomb(rng, network):
    """Add one load able to collapse any network; returns its device ID."""
    rows = [list(r) for r in network["device"]]
    sb = [r[1] for r in rows if r[2] == 0][0]
    buses = [r[0] for r in network["bus"] if r[0] != sb]
    did = int(max(r[0] for r in rows)) + 1
    row = [did, int(gen.pick(rng, buses)), -1, 0.3, 0.0, gen.r6(-1e5 * float(network["baseMVA"]))] + [None] * 9
    if network["device"].dtype != object:
        row = [0.0 if v is None else v for v in row]
    rows.insert(int(rng.integers(0, len(rows) + 1)), row)
    network["device"] = gen.as_array(rng, rows)
    return did


class Run:
    """One environment with scripted randomness; records every call."""

    def __init__(self, ctx, network, bomb=None, K=None, observation="state", clip="random", gamma=None, lamb=None, dt=None, aux_bounds="random", cls_hook=None, seed=None, calm=False):
        rng = ctx.rng
        self.ctx, self.network, self.bomb = ctx, network, bomb
        self.net = ref.Net(network)
        self.K = int(rng.integers(0, 4)) if K is None else K
        self.dt = float(gen.pick(rng, [0.25, 0.5, 1.0, 2.0])) if dt is None else dt
        self.gamma = float(gen.pick(rng, [0.0, 0.5, 0.9, 0.995])) if gamma is None else gamma
        self.lamb = gen.pick(rng, [0, 1, 100, 1000.0]) if lamb is None else lamb
        if isinstance(clip, str):
            c = [None, None]
            for j in range(2):
                if rng.random() < 0.75:
                    c[j] = float(10 ** rng.uniform(-4, 2))
            clip = None if rng.random() < 0.1 else tuple(c)
        self.clip = clip
        if isinstance(aux_bounds, str):
            aux_bounds = None if rng.random() < 0.4 else np.array([[-float(rng.uniform(0, 10)), float(rng.uniform(0, 10))] for _ in range(self.K)]).reshape(self.K, 2)
        self.aux_bounds = aux_bounds
        self.next_init = None
        self.next_vars = None
        self.calls = []
        self.calm = calm
        self.tries = 0

        def init_fn(env):
            self.calls.append(("init_state",))
            s = self.next_init if self.next_init is not None else self.random_init()
            self.tries += 1
            self.last_init = np.array(s, dtype=float)
            return s

        def vars_fn(env, s_t):
            self.tries = 0
            self.calls.append(("next_vars", np.array(s_t)))
            v = self.next_vars if self.next_vars is not None else self.random_vars()
            self.last_vars = np.array(v, dtype=float)
            return v

        self.env = work.make_env(network, observation, self.K, self.dt, self.gamma, self.lamb, aux_bounds, clip, seed, init_fn, vars_fn, cls_hook)

    def random_aux(self):
        return self.ctx.rng.uniform(-12, 12, size=self.K)

    def random_init(self):
        s = gen.init_state(self.ctx.rng, self.net, self.random_aux(), "inside" if self.calm else None)
        s = work.calmer(s, self.tries)
        self._defuse_init(s)
        return s

    def good_init(self):
        """A random initial state from which the power flow is solvable."""
        self.tries = 0
        for _ in range(20):
            s = self.random_init()
            if work.Simulator(self.network, self.dt, self.lamb).reset(np.array(s)):
                return s
        raise Skip("no-feasible-initial-state")

    def _defuse_init(self, s):
        if self.bomb is not None:
            k = self.net.ids.index(self.bomb)
            s[k] = 0.0
            s[len(self.net.ids) + k] = 0.0

    def random_vars(self, explode=False):
        v = work.random_vars(self.ctx.rng, self.net, self.random_aux(), "inside" if self.calm else None)
        if self.bomb is not None:
            k = self.net.loads.index(self.bomb)
            v[k] = -1e5 * self.net.base * float(self.ctx.rng.uniform(0.2, 1)) if explode else 0.0
        return v

    def reset(self, init=None, **kw):
        self.next_init = init
        self.tries = 0
        out = self.env.reset(**kw)
        self.ctx.count("env_resets")
        return out

    def step(self, action=None, vars=None, explode=False):
        self.next_vars = vars if vars is not None else self.random_vars(explode)
        if action is None:
            action = work.sample_action(self.ctx.rng, self.env.action_space)
        self.action = action
        out = self.env.step(action)
        self.ctx.count("env_steps")
        self.ctx.count("env_terminal_steps", bool(out[2]))
        return out

    def request(self):
        """The documented reading of the last action and internal variables."""
        P_load, P_pot, _ = work.split_vars(self.net, self.last_vars)
        P_set, Q_set = work.split_action(self.net, self.action)
        return P_load, P_pot, P_set, Q_set

    def costs(self):
        """Unclipped (energy loss, penalty, tolerances) of the reached state."""
        net, st = self.net, self.env.simulator.state
        V = ref.volts(st)
        P_pot = self.request()[1]
        pot = {i: min(max(P_pot[i] / net.base, net.devs[i].pmin), net.devs[i].pmax) for i in net.rers}
        smax = {}
        for k, br in net.branches.items():
            _, _, a, b = net.flows(br, V)
            smax[k] = max(abs(a), abs(b))
        loss, pen = net.reward(st["dev_p"]["pu"], pot, {b: abs(v) for b, v in V.items()}, smax, self.lamb, self.dt)
        ysum = sum(abs(br.ys) for br in net.branches.values())
        psum = sum(abs(x) for x in st["dev_p"]["pu"].values())
        return loss, pen, 1e-10 * (1 + psum) * max(1, self.dt), 1e-11 * (1 + ysum) * max(1.0, self.lamb * self.dt)

    def info(self):
        return {
            "network": gen.describe(self.network),
            "K": self.K,
            "delta_t": self.dt,
            "gamma": self.gamma,
            "lamb": self.lamb,
            "clip": self.clip,
            "aux_bounds": self.aux_bounds,
            "init": getattr(self, "last_init", None),
            "vars": getattr(self, "last_vars", None),
            "action": getattr(self, "action", None),
        }


def flat(state):
    """A full-state dictionary as one comparable vector (fixed order)."""
    out = []
    for q in sorted(state):
        for u in sorted(state[q]):
            for k in sorted(state[q][u]):
                out.append(float(state[q][u][k]))
    return np.array(out)


def same_state(a, b):
    x, y = flat(a), flat(b)
    return x.shape == y.shape and bool(np.all((x == y) | (np.isnan(x) & np.isnan(y))))
