"""Seed-driven user environments and trajectory digests (also run as a script)."""
import copy
import hashlib
import os
import sys

import numpy as np

from . import gen, ref


def make_class(network, K):
    from gym_anm.envs import ANMEnv

    net = ref.Net(network)

    class SeedEnv(ANMEnv):
        def init_state(self):
            return gen.init_state(self.np_random, net, self.np_random.uniform(-1, 1, size=K), "inside")

        def next_vars(self, s_t):
            from . import work

            return work.random_vars(self.np_random, net, s_t[len(s_t) - K :] + self.np_random.uniform(-1, 1, size=K) if K else [], "inside")

    return SeedEnv


def startable(cls, network, args):
    """Whether random initial states are usually feasible (reset() gives up after 100)."""
    tries = []

    class Probe(cls):
        def init_state(self):
            tries.append(1)
            return super().init_state()

    try:
        env = Probe(copy.deepcopy(network), *args)
        for s in range(3):
            env.reset(seed=s)
    except Exception as e:
        if "Initialization" in type(e).__name__:
            return False
        raise
    return len(tries) <= 18


def build(seed, idx):
    """A random network environment described by two integers."""
    for variant in range(30):
        rng = np.random.default_rng([seed, 77, idx] + [variant] * (variant > 0))
        network = gen.network(rng, stress=0.3)
        K = int(rng.integers(0, 3))
        cls = make_class(network, K)
        if startable(cls, network, ("state", K, 0.5, 0.9, 100)):
            break
    obs = ["state", [("bus_v_magn", "all"), ("branch_p", "all", "pu")], [("dev_p", "all"), ("bus_i_ang", "all", "rad")]][int(rng.integers(3))]
    return cls, (network, obs, K, 0.5, 0.9, 100), network


def actions(rng, env, n):
    from . import work

    return [work.sample_action(rng, env.action_space) for _ in range(n)]


def record(env, out):
    """What one call returned and exposed, as a flat tuple of bytes/values."""
    if len(out) == 2:
        obs, rest = out[0], ()
    else:
        obs, rest = out[0], (float(out[1]), bool(out[2]), bool(out[3]))
    date = getattr(env, "date", None)
    return (np.asarray(obs).tobytes(), np.asarray(env.state).tobytes(), float(env.e_loss), float(env.penalty), int(env.timestep), str(date), getattr(env, "year_count", None)) + rest


def trace(env, seed, acts, opts=None):
    t = [record(env, env.reset(seed=seed) if opts is None else env.reset(seed=seed, options=opts))]
    for a in acts:
        t.append(record(env, env.step(a)))
    return t


def digest(t):
    h = hashlib.sha256()
    for r in t:
        h.update(repr(r).encode())
    return h.hexdigest()


def case_trace(which, seed, idx, n):
    if which == "easy":
        from gym_anm.envs import ANM6Easy

        env = ANM6Easy()
    else:
        cls, args, _ = build(seed, idx)
        env = cls(*args)
    rng = np.random.default_rng([seed, 78, idx])
    return trace(env, 1000 + idx, actions(rng, env, n))


if __name__ == "__main__":
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    np.seterr(all="ignore")
    for spec in sys.argv[1:]:
        which, seed, idx, n = spec.split(":")
        print(spec, digest(case_trace(which, int(seed), int(idx), int(n))))
