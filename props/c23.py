"""C23: every rendered frame reports the true state in valid JSON."""
import calendar
import datetime as dt
import json
import math

import numpy as np

from vmon import envs, gen, ref, sess, work
from vmon.core import Skip

RULE = (
    "a separate process renders ANM6Easy and user-defined ANM6 environments (scripted loads and generation: calm, extreme, "
    "collapsing, recovering) while a real WebSocket viewer records every message; each message is parsed as strict JSON and "
    "compared with the environment's own state, an independent calendar and limits taken from the network dictionary; "
    "non-trivial = distinct update messages"
)
ASSUMPTIONS = [
    "values which are not finite in the environment (after a collapse) may be shown as any finite number",
    "without cost clipping the shown cost ranges may be any positive finite numbers",
]
LIMIT_MEMORY = False
MIN = {"updates": 350, "inits": 15, "collapsed_frames": 10, "frames_skipped": 100, "distinct_nontrivial": 300, "no_clipping": 3, "year_ends": 2, "frames_after_reset": 25}
CASE_CPU_S = {"quick": 300, "thorough": 400}
worker_setup = sess.isolate
DAEMON = True
GRACE = 120


def plan(tier):
    q = tier == "quick"
    return [("user", 22 if q else 260), ("easy", 6 if q else 60)]


def strict(text):
    def bad(x):
        raise ValueError("not valid JSON: " + x)

    return json.loads(text, parse_constant=bad)


def network():
    from gym_anm.envs.anm6_env.network import network as n

    return n


def numbers(ctx, got, want, mech, info):
    """Lists of numbers; non-finite expected values allow any finite number."""
    if not ctx.check(isinstance(got, list) and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in got), mech, "not a list of numbers: %r" % (got,), **info):
        return
    if not ctx.check(len(got) == len(want), mech, "%d values instead of %d" % (len(got), len(want)), **info):
        return
    want = np.array([float(x) for x in want], dtype=float)
    got = np.array(got, dtype=float)
    ctx.check(np.all(np.isfinite(got)), mech, "values not finite: %s" % got, **info)
    fin = np.isfinite(want)
    ctx.close(got[fin], want[fin], 1e-9 * (1 + np.abs(want[fin])), mech, "message content", **info)


def check_init(ctx, msg, net, title, clip, info):
    ctx.count("inits")
    ctx.evaluated()
    try:
        m = strict(msg)
    except ValueError as e:
        ctx.fail("init-json", "init message: %s" % e, received=msg, **info)
        return
    info = dict(info, received=m)
    if not ctx.check(m.get("messageLabel") == "init", "init-label", "first message is %r" % m.get("messageLabel"), **info):
        return
    b = net.base
    devs = [net.devs[i] for i in net.ids]
    numbers(ctx, m.get("deviceType"), [d.typ for d in devs], "init-deviceType", info)
    numbers(ctx, m.get("pMax"), [max(abs(d.pmin), abs(d.pmax)) * b for d in devs], "init-pMax", info)
    numbers(ctx, m.get("qMax"), [max(abs(d.qmin), abs(d.qmax)) * b for d in devs], "init-qMax", info)
    numbers(ctx, m.get("sRate"), [br.rate * b for br in net.branches.values()], "init-sRate", info)
    numbers(ctx, m.get("vMagnMin"), [net.buses[i].vmin for i in net.bus_ids], "init-vMagnMin", info)
    numbers(ctx, m.get("vMagnMax"), [net.buses[i].vmax for i in net.bus_ids], "init-vMagnMax", info)
    numbers(ctx, m.get("socMax"), [net.devs[i].smax * b for i in net.des], "init-socMax", info)
    for k, c in zip(("energyLossMax", "penaltyMax"), clip):
        if c is None:
            ctx.count("no_clipping")
            v = m.get(k)
            ctx.check(isinstance(v, (int, float)) and math.isfinite(v) and v > 0, "init-" + k, "cost range %r" % v, **info)
        else:
            numbers(ctx, [m.get(k)], [c], "init-" + k, info)
    ctx.check(m.get("title") == title, "init-title", "title %r instead of %r" % (m.get("title"), title), **info)


def check_update(ctx, msg, net, truth, when, years, collapsed, info):
    ctx.count("updates")
    ctx.evaluated()
    try:
        m = strict(msg)
    except ValueError as e:
        ctx.fail("update-json", "update message: %s" % e, received=msg, **info)
        return
    info = dict(info, received=m)
    if not ctx.check(m.get("messageLabel") == "update", "update-label", "message is %r" % m.get("messageLabel"), **info):
        return
    for field, q, ids in (
        ("pInjections", "dev_p", net.ids),
        ("qInjections", "dev_q", net.ids),
        ("sFlows", "branch_s", [list(k) for k in net.branches]),
        ("socStorage", "des_soc", net.des),
        ("pPotential", "gen_p_max", net.gens),
        ("vMagn", "bus_v_magn", net.bus_ids),
    ):
        vals = {json.dumps(k): v for k, v in truth[q]}
        if not ctx.check(set(vals) == {json.dumps(i) for i in ids}, "state-keys", "full state %s has keys %s" % (q, sorted(vals)), **info):
            return
        numbers(ctx, m.get(field), [vals[json.dumps(i)] for i in ids], "update-" + field, info)
    numbers(ctx, m.get("reward"), truth["costs"], "update-reward", info)
    t = [when.month, when.day, when.hour, when.minute]
    ctx.check(m.get("time") == t, "update-time", "time %s instead of %s" % (m.get("time"), t), **info)
    ctx.check(m.get("yearCount") == years, "update-yearCount", "year count %s instead of %s" % (m.get("yearCount"), years), **info)
    ctx.check(m.get("networkCollapsed") is collapsed, "update-networkCollapsed", "collapse flag %s instead of %s" % (m.get("networkCollapsed"), collapsed), **info)
    if collapsed:
        ctx.count("collapsed_frames")
    ctx.nontrivial(msg)


class Follow:
    """The frames expected of a session, and the monitor of those received."""

    def __init__(self, ctx, s, eid, net, title, clip, info):
        self.ctx, self.s, self.eid, self.net, self.title, self.clip, self.info = ctx, s, eid, net, title, clip, info
        self.viewer = None
        self.calls = []  # (skip, truth, when, years, collapsed) of each render call since the viewer is there
        self.got = 0
        self.since = None

    def render(self, skip, when, years, collapsed):
        def on_open(url):
            self.viewer = sess.Viewer(sess.page_ws(url))
            # The server registers a viewer shortly after the handshake.
            import time

            time.sleep(0.3)

        first = self.viewer is None
        try:
            truth = self.s("render", id=self.eid, skip=skip, on_open=on_open)
        except sess.SessionError as e:
            self.ctx.fail("exception:render", str(e), **self.info)
            raise Skip("render-raised")
        if not self.ctx.check(truth is not None, "render-hangs", "render() did not return", **self.info):
            raise Skip("render-hangs")
        if first:
            if not self.ctx.check(self.viewer is not None, "page-not-opened", "render() opened no page", **self.info):
                raise Skip("page-not-opened")
            if self.ctx.check(self.viewer.wait(1), "init-missing", "the viewer received nothing", **self.info):
                check_init(self.ctx, self.viewer.msgs[0], self.net, self.title, self.clip, self.info)
            self.got = 1
        self.calls.append((skip or 0, truth, when, years, collapsed))
        n = (skip or 0) + 1
        if n == 1:
            # A frame for each call: wait for this one.
            self.expect_one(self.calls[-1])
            self.since = None
        else:
            # Exactly one frame for any n consecutive calls.
            import time

            have = len(self.viewer.msgs)
            if have == self.got:
                time.sleep(0.02 if self.since is None or self.since + 1 < n else 0)
            self.since = (self.since or 0) + 1
            if self.since % n == 0:
                self.viewer.wait(self.got + 1)
            new = len(self.viewer.msgs) - self.got
            if new:
                # A frame sent for one call reports the state of that call.
                self.ctx.check(new == 1, "frames-per-call", "%d frames for one call" % new, **self.info)
                check_update(self.ctx, self.viewer.msgs[self.got], self.net, truth, when, years, collapsed, self.info)
                self.got += new
                self.frames.append(len(self.calls) - 1)
            else:
                self.ctx.count("frames_skipped")

    frames = None

    def expect_one(self, call):
        _, truth, when, years, collapsed = call
        if not self.ctx.check(self.viewer.wait(self.got + 1), "update-missing", "no update for a render() call", **self.info):
            raise Skip("update-missing")
        self.ctx.check(len(self.viewer.msgs) == self.got + 1, "frames-per-call", "several messages for one render() call", **self.info)
        check_update(self.ctx, self.viewer.msgs[self.got], self.net, truth, when, years, collapsed, self.info)
        self.got = len(self.viewer.msgs)


def run(ctx, kind):
    s = sess.Session(ctx)
    try:
        {"user": user_case, "easy": easy_case}[kind](ctx, s)
    finally:
        s.kill()


TITLES = ["MyEnv", "Étude", "A", "UserANM6Task", "Grid_2", "ANM6"]


def user_case(ctx, s):
    rng = ctx.rng
    net = ref.Net(network())
    clip = [None if rng.random() < 0.4 else float(gen.pick(rng, [1, 50.5, 1e-3, 1e6])) for _ in range(2)]
    delta = float(gen.pick(rng, [0.25, 0.5, 1.0, 1 / 60, 24.0, 1000.0, 3000.0]))
    K = int(rng.integers(0, 3))
    title = str(gen.pick(rng, TITLES))
    info = {"clip": clip, "delta_t": delta, "K": K, "title": title}
    spec = s("make", id=0, cls=title, K=K, dt=delta, gamma=0.9, lamb=100, clip=None if rng.random() < 0.1 and clip == [None, None] else clip)
    drive(ctx, s, net, title, clip, delta, spec, info, K)


def easy_case(ctx, s):
    net = ref.Net(network())
    spec = s("make", id=0, cls="ANM6Easy")
    drive(ctx, s, net, "ANM6Easy", [1.0, 100.0], 0.25, spec, {"title": "ANM6Easy"}, None)


def start_date(rng):
    y = int(gen.pick(rng, [2020, 2019, 2021, 1999, 2023]))
    if rng.random() < 0.4:
        return dt.datetime(y, 12, 31, 23, int(gen.pick(rng, [0, 30, 45, 59])))
    return dt.datetime(y, 1, 1) + dt.timedelta(seconds=int(rng.integers(0, 365 * 24 * 3600)))


def drive(ctx, s, net, title, clip, delta, spec, info, K):
    rng = ctx.rng
    lo, hi = np.array(spec["low"]), np.array(spec["high"])
    f = Follow(ctx, s, 0, net, title, clip, info)
    skip = gen.pick(rng, [None, 0, 0, 1, 2, 5])
    info["skip"] = skip
    easy = K is None
    n_steps = int(rng.integers(25, 45))
    explode_at = set(int(x) for x in rng.integers(3, n_steps, size=2)) if not easy else set()
    date0, moved = None, 0
    collapsed = False
    f.frames = []
    for t in range(n_steps):
        if t == 0 or collapsed and rng.random() < 0.6 or rng.random() < 0.03:
            # reset (rendering goes on)
            kw = {}
            if not easy:
                while True:
                    init = gen.init_state(rng, net, rng.uniform(-3, 3, size=K), "inside")
                    init = np.where(np.arange(len(init)) < 2 * len(net.ids), 0.3 * init, init)
                    if work.Simulator(network(), delta, 100).reset(np.array(init)):
                        break
                kw["vars"] = [float(x) for x in init]
            d = start_date(rng) if rng.random() < 0.7 else None
            if easy and d:
                d = d.replace(hour=0, minute=0)
            truth = s("reset", id=0, date=d.isoformat() if d else None, seed=int(rng.integers(0, 1000)), **kw)
            got = dt.datetime.fromisoformat(truth["date"])
            if d is not None:
                if easy:
                    d += dt.timedelta(minutes=15 * round(float(truth["state"][-1])))
                ctx.check(got == d, "date-after-reset", "date %s instead of %s" % (got, d), **info)
            date0, moved, collapsed = d or got, 0, False
            if t:
                ctx.count("frames_after_reset")
        else:
            if rng.random() < 0.08:
                date0 = start_date(rng)
                moved = 0
                s("reset_date", id=0, date=date0.isoformat())
            a = rng.uniform(lo, hi)
            if rng.random() < 0.3:
                a = np.where(rng.random(len(a)) < 0.5, lo, hi)
            kw = {}
            if not easy:
                v = work.random_vars(rng, net, rng.uniform(-3, 3, size=K), "inside")
                if t in explode_at:
                    v[: len(net.loads)] = -30.0
                    v[: len(net.loads)] *= float(rng.uniform(0.5, 1))
                    v[len(net.loads) :] = 0
                    a = np.zeros(len(a))
                    if rng.random() < 0.7:
                        # collapse: the storage unit draws all the reactive power it can
                        a = lo.copy()
                kw["vars"] = [float(x) for x in v]
            truth = s("step", id=0, action=[float(x) for x in a], **kw)
            collapsed = truth["terminated"]
            moved += 1
        when = date0 + moved * dt.timedelta(hours=delta)
        years = int((when - date0).days // 365)
        ctx.count("year_ends", years > 0)
        # Mostly once per step, at times again in the same state, or not at all.
        for _ in range(int(gen.pick(rng, [1] * 8 + [2, 3])) if t == 0 or rng.random() > 0.05 else 0):
            f.render(skip, when, years, bool(collapsed))
    n = (skip or 0) + 1
    if n > 1:
        ctx.check(all(b - a == n for a, b in zip(f.frames, f.frames[1:])) and (not f.frames or f.frames[0] < n) and len(f.calls) - 1 - (f.frames or [-1])[-1] <= n, "skip-frames", "skip_frames=%d: frames for the render() calls %s of %d" % (n - 1, f.frames, len(f.calls)), **info)
        f.viewer.settle(f.got, 0.2)
    ctx.check(len(f.viewer.msgs) == f.got, "superfluous-messages", "%d messages instead of %d" % (len(f.viewer.msgs), f.got), **info)
    ctx.sample({"title": title, "skip": skip, "last": f.viewer.msgs[-1] if f.viewer.msgs else None})
    f.viewer.leave()
    s("close", id=0)
