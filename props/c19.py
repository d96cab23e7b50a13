"""C19: ANM6Easy repeats its documented 24-hour cycle indefinitely."""
import datetime as dt
import math

import numpy as np

from vmon import envs, gen, ref, work

RULE = (
    "ANM6Easy from many seeds (all starting slots) over several days under random, corner and zero actions and resets in "
    "mid-episode; slot, loads, potentials, date and year count of every step are compared with the documented daily "
    "profile and an independent calendar; ANM6 environments with long time steps cover many years; non-trivial = "
    "distinct (starting slot, step) observed"
)
ASSUMPTIONS = [
    "profile: constant scenarios 23:00-06:00, 08:00-11:00, 13:00-16:00, 18:00-21:00 and linear 2-hour transitions between "
    "them (two typos of the generation profile are known findings, matched by their exact values)",
]
MIN = {"slots_checked": 4000, "wraps": 30, "distinct_nontrivial": 3000, "year_counts": 100, "starting_slots": 30, "resets": 60}
CASE_CPU_S = {"thorough": 700}

# Scenario values (MW): night, morning/evening, noon; device limits clip them.
LOADS = {1: (-1.0, -5.0, -2.0), 3: (-4.0, -10.0, -20.0), 5: (0.0, -25.0, 0.0)}
GENS = {2: (0.0, 4.0, 30.0), 4: (40.0, 11.0, 40.0)}
LIMITS = {1: (-10, 0), 3: (-30, 0), 5: (-30, 0), 2: (0, 30), 4: (0, 50)}
QP = {1: 0.2, 3: 0.2, 5: 0.2}


def scenario(vals, slot):
    s1, s2, s3 = vals
    h = slot / 4.0

    def lin(a, b, h0):
        return a + (b - a) * (h - h0) / 2.0

    if h <= 6 or h >= 23:
        return s1
    if h < 8:
        return lin(s1, s2, 6)
    if h <= 11:
        return s2
    if h < 13:
        return lin(s2, s3, 11)
    if h <= 16:
        return s3
    if h < 18:
        return lin(s3, s2, 16)
    if h <= 21:
        return s2
    return lin(s2, s1, 21)


def typo(dev, slot):
    """Values of the two known typos in the second transition (else None)."""
    k = slot - 45 if 45 <= slot <= 51 else (71 - slot if 65 <= slot <= 71 else None)
    if k is None:
        return None
    a, b = {2: (7.25, 36.75), 4: (14.725, 36.375)}[dev]
    return a + (b - a) * k / 6.0


def plan(tier):
    q = tier == "quick"
    return [("days", 40 if q else 600), ("short", 60 if q else 1500), ("years", 30 if q else 800), ("fullyear", 0 if q else 2)]


def part_of_day(rng):
    """Dates may be given to the minute, second or microsecond."""
    return gen.pick(
        rng,
        [
            dt.timedelta(0),
            dt.timedelta(minutes=int(rng.integers(1440))),
            dt.timedelta(seconds=int(rng.integers(86400))),
            dt.timedelta(microseconds=int(rng.integers(86400 * 10**6))),
        ],
    )


def clip(d, v):
    lo, hi = LIMITS[d]
    return min(max(v, lo), hi)


def check_slot(ctx, env, slot, info):
    full = env.simulator.state
    ctx.evaluated()
    ctx.count("slots_checked")
    ctx.check(env.state[-1] == slot and env.state.shape == (18,), "aux-slot", "aux is %r, expected slot %d" % (env.state[-1], slot), **info)
    lo, hi = env.observation_space.low[-1], env.observation_space.high[-1]
    ctx.check((lo, hi) == (0, 95), "aux-bounds", "declared range of the aux variable: [%r, %r]" % (lo, hi), **info)
    for d, vals in LOADS.items():
        e = clip(d, scenario(vals, slot))
        p, q = full["dev_p"]["MW"][d], full["dev_q"]["MVAr"][d]
        ctx.check(abs(p - e) < 1e-9 and abs(q - e * QP[d]) < 1e-9, "load-profile", "slot %d: load %d injects (%r, %r), documented %r MW" % (slot, d, p, q, e), **info)
    for d, vals in GENS.items():
        e = clip(d, scenario(vals, slot))
        p = full["gen_p_max"]["MW"][d]
        if abs(p - e) < 1e-9:
            ctx.counts["oracle_checks"] += 1
            continue
        t = typo(d, slot)
        if t is not None and abs(p - clip(d, t)) < 1e-9:
            ctx.fail("typo-pv-transition" if d == 2 else "typo-wind-transition", "slot %d: potential of generator %d is %r, documented %r" % (slot, d, p, e))
        else:
            ctx.check(False, "generation-profile", "slot %d: potential of generator %d is %r MW, documented %r" % (slot, d, p, e), **info)


def check_clock(ctx, env, start, slot0, k, info):
    d = start + dt.timedelta(minutes=15 * (slot0 + k))
    ctx.check(env.date == d, "date", "after %d steps from slot %d the date is %s instead of %s" % (k, slot0, env.date, d), **info)
    y = (k * 15) // (60 * 24 * 365)
    ctx.check(env.year_count == y, "year-count", "after %d steps the year count is %r instead of %d" % (k, env.year_count, y), **info)


def run(ctx, kind):
    if kind == "years":
        return years_case(ctx)
    from gym_anm.envs import ANM6Easy

    rng = ctx.rng
    env = ANM6Easy()
    n = {"days": int(rng.integers(100, 300)), "short": int(rng.integers(3, 30)), "fullyear": 96 * 365 + 300}[kind]
    for ep in range(1 if kind == "fullyear" else int(rng.integers(1, 4))):
        seed = int(rng.integers(1 << 30))
        kw = {"seed": seed} if rng.random() < 0.8 else {}
        start = None
        if rng.random() < 0.4:
            start = dt.datetime(int(rng.integers(1990, 2030)), int(rng.integers(1, 13)), int(rng.integers(1, 29))) + part_of_day(rng)
            kw["options"] = {"date_init": start}
        obs, _ = env.reset(**kw)
        ctx.count("resets")
        slot0 = env.state[-1]
        info = {"reset": kw, "slot0": float(slot0)}
        if not ctx.check(slot0 == int(slot0) and 0 <= slot0 <= 95, "slot-range", "starting slot %r" % slot0, **info):
            return
        slot0 = int(slot0)
        ctx.count("starting_slots", ep == 0)
        if start is None:
            # A midnight of a day of 2020, then the starting slot.
            start = env.date - dt.timedelta(minutes=15 * slot0)
            ctx.check(start.year == 2020 and (start.hour, start.minute, start.second, start.microsecond) == (0, 0, 0, 0), "initial-date", "initial date %s with slot %d" % (env.date, slot0), **info)
        check_slot(ctx, env, slot0, info)
        check_clock(ctx, env, start, slot0, 0, info)
        mode = gen.pick(rng, [None, "corner", "zero", "high", "low", "uniform"])
        m = max(1, n // (1 + ep))
        for k in range(1, m + 1):
            a = work.sample_action(rng, env.action_space, mode)
            info["step"] = k
            obs, r, term, _, _ = env.step(a)
            if term:
                ctx.count("terminated")
                break
            slot = (slot0 + k) % 96
            ctx.count("wraps", slot == 0)
            check_slot(ctx, env, slot, info)
            check_clock(ctx, env, start, slot0, k, info)
            ctx.nontrivial(slot0, k)
            if kind != "fullyear" and rng.random() < 0.002:
                # Moving the displayed date does not touch the cycle.
                to = dt.datetime(2021, 5, 6) + part_of_day(rng)
                start = to - dt.timedelta(minutes=15 * (slot0 + k))
                env.reset_date(to)
                ctx.check(env.year_count == 0, "reset-date-year", "%r" % env.year_count, **info)
    if ctx.idx == 0:
        ctx.sample({"kind": kind, "slot0": slot0, "start": str(start), "steps": m, "date": str(env.date)})


def years_case(ctx):
    """Any ANM6 environment: the clock over many years."""
    from gym_anm.envs.anm6_env.anm6 import ANM6

    rng = ctx.rng
    delta_t = float(gen.pick(rng, [24.0, 240.0, 1000.0, 2000.5, 8760.0, 0.25, 1 / 3, 1 / 3600, 1.2345]))

    class Clock(ANM6):
        def init_state(self):
            return np.zeros(17)

        def next_vars(self, s_t):
            return np.zeros(5)

    env = Clock("state", 0, delta_t, 0.9, 10)
    for _ in range(2):
        start = dt.datetime(2020, 1, 1) + dt.timedelta(days=int(rng.integers(0, 400))) + part_of_day(rng)
        env.reset(options={"date_init": start})
        ctx.count("resets")
        a = np.zeros(env.action_space.shape)
        per = dt.timedelta(hours=delta_t)
        for k in range(int(rng.integers(5, 60))):
            e = start + k * per
            info = {"delta_t": delta_t, "start": str(start), "step": k}
            ctx.check(abs((env.date - e).total_seconds()) < 1e-3, "long-date", "%s instead of %s" % (env.date, e), **info)
            y = int((env.date - start).total_seconds() // (365 * 86400))
            ctx.check(env.year_count == y, "long-year-count", "year count %r instead of %d" % (env.year_count, y), **info)
            ctx.count("year_counts")
            ctx.evaluated()
            env.step(a)
            ctx.nontrivial("years", delta_t, k)
