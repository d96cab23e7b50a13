"""C29: the visualization page displays each message faithfully."""
import datetime as dt
import math
import re
import time

import numpy as np

from props.c23 import network
from vmon import gen, page, ref, sess, work
from vmon.core import HarnessError, Skip

RULE = (
    "the page served by real rendering sessions (HTML, scripts and drawing fetched over HTTP) runs in a minimal browser (node VM "
    "with a DOM made from the drawing) and receives the messages recorded by a real WebSocket viewer: arbitrary values sent "
    "through rendering.start/update, and environments being rendered; after each update a monitor reads the drawing by "
    "position (texts, filled bars against their frames, crosses, arrow tips) and compares it with the values sent; "
    "non-trivial = distinct (limits, update) pairs"
)
ASSUMPTIONS = [
    "the elements of the drawing stay at their positions (their identifiers may change)",
    "storage levels lie in [0, maximum] and potential generation does not exceed the generator's limit, as the simulator guarantees",
    "the colour of a line's bar is judged above 1 % (below, the bar is invisible)",
]
LIMIT_MEMORY = False
MIN = {"updates": 600, "pages": 20, "collapsed": 60, "overloaded_lines": 500, "voltage_crosses": 500, "reversed_arrows": 1000, "curtailed": 150, "capped_bars": 300, "late_pages": 8, "env_updates": 60, "distinct_nontrivial": 500}
CASE_CPU_S = {"quick": 300, "thorough": 300}
worker_setup = sess.isolate
DAEMON = True
GRACE = 150

GEN, LOAD, POT, SOC, BAD, GOOD = "#31b620", "#4960fb", "#ff0000", "#f17741", "#ff0000", "#31b620"
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]

# Where things are in the drawing (mm).
DEV = [
    # P tick, Q tick, P bar, Q bar, P text, Q text, arrow, direction (away from the device, towards the grid)
    ((36.74, 52.62), (45.21, 52.62), (38.8, 61.0), (43.03, 61.0), (32.83, 77.44), (32.83, 82.73), (51.94, 62.97), (1, 0)),
    ((75.29, 157.9), (83.76, 157.9), (77.35, 166.27), (81.58, 166.27), (73.31, 183.47), (73.31, 188.76), (96.78, 125.02), (0, -1)),
    ((119.22, 157.9), (127.68, 157.9), (121.27, 166.27), (125.5, 166.27), (117.23, 183.47), (117.23, 188.76), (105.4, 125.06), (0, -1)),
    ((165.78, 157.9), (174.25, 157.9), (167.83, 166.27), (172.07, 166.27), (163.8, 183.47), (163.8, 188.76), (187.08, 125.02), (0, -1)),
    ((209.7, 157.9), (218.17, 157.9), (211.76, 166.27), (215.99, 166.27), (208.25, 183.47), (208.25, 188.76), (195.72, 125.06), (0, -1)),
    ((255.34, 157.9), (263.81, 157.9), (257.39, 166.27), (261.63, 166.27), (252.17, 183.47), (252.17, 188.76), (273.47, 125.02), (0, -1)),
    ((301.88, 157.9), (310.35, 157.9), (303.93, 166.27), (308.16, 166.27), (300.32, 183.47), (300.32, 188.47), (282.09, 125.06), (0, -1)),
]
LINE = [
    # bar, text, cross, arrows with their direction (from -> to)
    ((80.83, 51.76), (80.84, 47.42), (80.82, 62.97), [((97.03, 62.97), (1, 0)), ((66.11, 62.97), (1, 0))]),
    ((153.4, 51.76), (153.41, 47.42), (153.39, 62.97), [((179.44, 62.97), (1, 0)), ((125.7, 62.97), (1, 0))]),
    ((111.62, 90.26), (116.42, 92.47), (101.1, 90.57), [((101.07, 74.61), (0, 1)), ((101.07, 107.31), (0, 1))]),
    ((202.12, 90.26), (206.93, 92.47), (191.38, 90.57), [((191.41, 74.61), (0, 1)), ((191.41, 107.31), (0, 1))]),
    ((288.19, 90.26), (293.0, 92.47), (277.87, 90.57), [((236.78, 62.97), (1, 0)), ((277.88, 73.26), (0, 1)), ((277.88, 106.06), (0, 1))]),
]
BUS = [((49.01, 76.59), (58.66, 62.97)), ((110.77, 71.59), (108.67, 62.97)), ((201.76, 71.59), (199.8, 62.97)), ((110.15, 117.85), (101.1, 116.43)), ((200.64, 117.85), (191.38, 116.43)), ((287.12, 117.89), (277.87, 116.43))]
STORE = ((279.81, 158.43), (300.32, 193.52), (287.47, 166.88))
DATE, TIME, YEAR, TITLE, MARK, MARKTXT = (315.4, 8.06), (314.57, 16.91), (314.83, 24.85), (50.95, 13.39), (62.22, 199.98), (4.1, 199.3)
COST = [((203.96, 20.27), (252.57, 22.04), (251.79, 16.65)), ((203.96, 28.58), (252.57, 30.35), (251.79, 35.7))]


def plan(tier):
    q = tier == "quick"
    return [("raw", 16 if q else 300), ("env", 6 if q else 60)]


def run(ctx, kind):
    s = sess.Session(ctx)
    try:
        {"raw": raw_case, "env": env_case}[kind](ctx, s)
    except sess.SessionError as e:
        ctx.fail("exception:session", str(e))
    finally:
        s.kill()


class View:
    """What the drawing shows at one moment."""

    def __init__(self, pg, base, changed):
        self.d, self.base, self.ch = pg.drawing, base, changed
        self.cache = {}

    def st(self, n):
        return self.ch.get(str(n.idx)) or self.base[n.idx]

    def M(self, n):
        if n is None:
            return np.eye(3)
        if n.idx not in self.cache:
            a, b, c, d, e, f = self.st(n)["m"]
            self.cache[n.idx] = self.M(n.parent) @ np.array([[a, c, e], [b, d, f], [0, 0, 1]])
        return self.cache[n.idx]

    def hidden(self, n):
        while n is not None:
            s = self.st(n)
            if s["display"] == "none" or s["visibility"] == "hidden" or s["opacity"] in ("0", "0.0"):
                return True
            n = n.parent
        return False

    def text(self, at):
        """The text displayed at a position."""
        ns = [n for n in self.d.find(("text",), np.array(at), 0.6)]
        if not ns:
            raise HarnessError("no text at %s of the drawing" % (at,))
        return None if self.hidden(ns[0]) else self.st(ns[0])["text"]

    def fill_of(self, at):
        n = self.d.find(("text",), np.array(at), 0.6)[0]
        f = self.st(n)["fill"]
        return f.lower() if f else f

    def rects(self, at):
        """(frame, filled rectangles) at a position: absolute boxes, colours."""
        ns = cached_rects(self.d, at)
        frame, bars = max((frame_box(n) for n in ns), key=lambda b: float(np.prod(b[1] - b[0]))), []
        for n in ns:
            s = self.st(n)
            if s["width"] is None or s["height"] is None:
                continue
            try:
                x, y, w, h = (float(s[k] or 0) for k in ("x", "y", "width", "height"))
            except ValueError:
                bars.append(("invalid", str({k: s[k] for k in ("x", "y", "width", "height")})))
                continue
            if not all(math.isfinite(v) for v in (x, y, w, h)) or w < 0 or h < 0:
                bars.append(("invalid", str({k: s[k] for k in ("x", "y", "width", "height")})))
                continue
            M = self.M(n)
            p = np.array([(M @ [u, v, 1])[:2] for u, v in ((x, y), (x + w, y + h))])
            box = (p.min(axis=0), p.max(axis=0))
            if s["fill"] not in (None, "none") and not self.hidden(n):
                bars.append((s["fill"].lower(), box))
        return frame, bars

    def cross(self, at, size):
        """Strokes of the cross at a position."""
        ns = cached_cross(self.d, at, size)
        return [None if self.st(n)["stroke"] in (None, "none") or self.hidden(n) else self.st(n)["stroke"].lower() for n in ns]

    def tip(self, at):
        """Direction in which the arrow at a position points; None if it moved."""
        n, mid, tip = cached_arrow(self.d, at)
        M = self.M(n)
        c, t = (M @ [*mid, 1])[:2], (M @ [*tip, 1])[:2]
        return c, (t - c) / np.hypot(*(t - c))


def memo(f):
    def g(d, *a):
        m = d.__dict__.setdefault("memo", {})
        k = (f.__name__,) + a
        if k not in m:
            m[k] = f(d, *a)
        return m[k]

    return g


@memo
def cached_rects(d, at):
    out = d.find(("rect",), np.array(at), 0.6)
    if not out:
        # (bars with a width of their own: inside the frame's area)
        raise HarnessError("no bar at %s of the drawing" % (at,))
    frame = max(out, key=lambda n: n.bbox[2] * n.bbox[3])
    M = frame.M
    b = frame.bbox
    p = np.array([(M @ [b[0] + u * b[2], b[1] + v * b[3], 1])[:2] for u in (0, 1) for v in (0, 1)])
    lo, hi = p.min(axis=0) - 1, p.max(axis=0) + 1
    return [n for n in d.nodes if n.tag == "rect" and n.at is not None and np.all(n.at >= lo) and np.all(n.at <= hi) and frame_like(n, lo, hi)]


def frame_box(n):
    """The rectangle as drawn, before any message."""
    b = n.bbox
    p = np.array([(n.M @ [b[0] + u * b[2], b[1] + v * b[3], 1])[:2] for u in (0, 1) for v in (0, 1)])
    return p.min(axis=0), p.max(axis=0)


def frame_like(n, lo, hi):
    a, b = frame_box(n)
    return bool(np.all(a >= lo) and np.all(b <= hi))


@memo
def cached_cross(d, at, size):
    out = []
    for n in d.find(("path",), np.array(at), 0.6):
        b = n.bbox
        e = np.abs(n.M[:2, :2] @ [b[2], b[3]])
        if b[2] > 1 and b[3] > 1 and e.max() < 14 and e.min() > 3 and len(page.points(n.attrs["d"])) <= 4:
            out.append(n)
    if len(out) < 2:
        raise HarnessError("no cross at %s of the drawing" % (at,))
    return out


@memo
def cached_arrow(d, at):
    for n in d.find(("path",), np.array(at), 0.6):
        pts = np.array(page.points(n.attrs["d"]))
        if len(pts) > 8:
            # chevrons: the tip lies on the long side, midway
            b = n.bbox
            return n, (b[0] + b[2] / 2, b[1] + b[3] / 2), (b[0] + b[2], b[1] + b[3] / 2)
    raise HarnessError("no arrow at %s of the drawing" % (at,))


# --- the monitor ------------------------------------------------------------------
def number(ctx, text, want, unit, mech, info, exact=None):
    if not ctx.check(text is not None, mech, "nothing displayed", **info):
        return
    t = text.replace("\u2212", "-")
    if "|V|" in t:
        t = t.split("=", 1)[-1]
    m = re.search(page.NUM, t)
    if not ctx.check(m is not None, mech, "no number in %r (value %r)" % (text, want), **info):
        return
    if unit:
        ctx.check(re.search(r"(?<![A-Za-z])" + re.escape(unit) + r"(?![A-Za-z])", t[m.end() :]), mech + "-unit", "%r has no unit %s" % (text, unit), **info)
    if not math.isfinite(want):
        return
    got, a = float(m.group()), abs(want)
    if exact is not None:
        tol = exact + 1e-9 * a
    elif a == 0:
        tol = 0.0
    else:
        tol = a * (0.51 if a < 0.1 or a > 1e10 else 0.051 if a < 1 or a >= 1000 else 0.0051)
    ctx.check(abs(got - want) <= tol, mech, "%r displayed for %r" % (text, want), **info)
    if want and got:
        ctx.check((got > 0) == (want > 0), mech + "-sign", "%r displayed for %r" % (text, want), **info)


def bar(ctx, v, at, lo, hi, colors, anchor, mech, info, tol=0.004):
    """A filled bar spanning the fractions lo..hi of its frame, from the side `anchor`."""
    frame, bars = v.rects(at)
    bad = [b for c, b in bars if c == "invalid"]
    if bad:
        ctx.fail(mech, "invalid bar %s" % bad, **info)
        return
    ax, sgn = {"bottom": (1, -1), "top": (1, 1), "left": (0, 1), "right": (0, -1)}[anchor]
    full = frame[1][ax] - frame[0][ax]
    want = full * (hi - lo)
    mine = [b for c, b in bars if c in colors and (b[1][ax] - b[0][ax]) > 1e-6]
    size = sum(b[1][ax] - b[0][ax] for b in mine)
    eps = tol * full + 0.02
    ctx.check(abs(size - want) <= eps, mech, "the bar covers %.4f of its frame instead of %.4f (colours shown %s, expected %s)" % (size / full, hi - lo, [c for c, b in bars if b[1][ax] - b[0][ax] > 1e-6], colors), **info)
    if mine and want > eps:
        start = frame[0][ax] if sgn > 0 else frame[1][ax]
        near = min((abs((b[0][ax] if sgn > 0 else b[1][ax]) - (start + sgn * lo * full)) for b in mine))
        ctx.check(near <= eps + 0.35 * (anchor == "left"), mech + "-position", "the bar does not start at %.3f of its frame" % lo, **info)


def frac(x, lim):
    return min(1.0, abs(x) / lim)


def color_of(x):
    return (GEN, LOAD) if x == 0 else (GEN,) if x > 0 else (LOAD,)


def arrow(ctx, v, at, want, mech, info):
    c, d = v.tip(at)
    ctx.check(np.hypot(*(c - np.array(at))) < 1.2, mech + "-moved", "the arrow moved from %s to %s" % (at, c), **info)
    if want is not None:
        ctx.check(float(np.dot(d, want)) > 0.99, mech, "the arrow points to %s instead of %s" % (np.round(d, 3), want), **info)


def check_limits(ctx, v, lim, info):
    for k, e in enumerate(DEV):
        i = dict(info, device=k)
        number(ctx, v.text(e[0]), lim["p_max"][k], None, "tick-p", i, exact=0.5001)
        number(ctx, v.text(e[1]), lim["q_max"][k], None, "tick-q", i, exact=0.5001)
    number(ctx, v.text(STORE[0]), lim["soc_max"][0], None, "tick-soc", info, exact=0.5001 if lim["soc_max"][0] > 20 else 0.06)
    for k in (0, 1):
        w = lim["costs"][k]
        number(ctx, v.text(COST[k][2]), w, None, "tick-cost", dict(info, cost=k), exact=0.01 * w)
    t = v.text(TITLE)
    ctx.check(t is not None and t.strip() == lim["title"], "title", "title %r instead of %r" % (t, lim["title"]), **info)


def check_update(ctx, v, lim, u, info):
    ctx.count("updates")
    ctx.evaluated()
    gens = [k for k, t in enumerate(lim["dev_type"]) if t in (1, 2)]
    for k, e in enumerate(DEV):
        p, q = u["p"][k], u["q"][k]
        i = dict(info, device=k, p=p, q=q)
        number(ctx, v.text(e[4]), p, "MW", "device-p", i)
        number(ctx, v.text(e[5]), q, "MVAr", "device-q", i)
        if not (math.isfinite(p) and math.isfinite(q)):
            continue
        fp, fq = frac(p, lim["p_max"][k]), frac(q, lim["q_max"][k])
        ctx.count("capped_bars", (abs(p) > lim["p_max"][k]) + (abs(q) > lim["q_max"][k]))
        bar(ctx, v, e[2], 0, fp, color_of(p), "bottom", "bar-p", i)
        bar(ctx, v, e[3], 0, fq, color_of(q), "bottom", "bar-q", i)
        if k in gens:
            pot = u["p_pot"][gens.index(k)]
            hi = max(fp, frac(pot, lim["p_max"][k])) if pot > p else fp
            ctx.count("curtailed", hi > fp)
            bar(ctx, v, e[2], fp, hi, (POT,), "bottom", "bar-potential", dict(i, p_pot=pot))
        want = None if p == 0 else np.array(e[7]) * (1 if p > 0 else -1)
        ctx.count("reversed_arrows", p != 0 and (p > 0) == (lim["dev_type"][k] < 0))
        arrow(ctx, v, e[6], want, "device-arrow", i)
    for k, e in enumerate(LINE):
        s, r = u["s"][k], lim["s_rate"][k]
        i = dict(info, line=k, s=s, rate=r)
        number(ctx, v.text(e[1]), 100 * abs(s) / r, "%", "line-percentage", i)
        if not math.isfinite(s):
            continue
        f = frac(s, r)
        frame, bars = v.rects(e[0])
        cols = tuple(c for c, _ in bars)
        bar(ctx, v, e[0], 0, f, cols, "left" if k < 2 else "bottom", "line-bar", i)
        if f > 0.01:
            ctx.check(len(bars) == 1 and gradient(bars[0][0], f), "line-colour", "colour %s at %.1f %%" % (cols, 100 * f), **i)
        over = abs(s) > r
        ctx.count("overloaded_lines", over)
        ctx.count("capped_bars", over)
        c = v.cross(e[2], "line")
        ctx.check(all(x == BAD for x in c) if over else not any(c), "line-cross", "cross %s on a line at %.4f %%" % (c, 100 * abs(s) / r), **i)
        for at, d in e[3]:
            ctx.count("reversed_arrows", s < 0)
            arrow(ctx, v, at, None if s == 0 else np.array(d) * (1 if s > 0 else -1), "line-arrow", i)
    for k, e in enumerate(BUS):
        x, lo, hi = u["v"][k], lim["v_min"][k], lim["v_max"][k]
        i = dict(info, bus=k, v=x, limits=(lo, hi))
        number(ctx, v.text(e[0]), x, "pu", "bus-voltage", i)
        if not math.isfinite(x):
            continue
        out = x < lo or x > hi
        ctx.count("voltage_crosses", out)
        c = v.cross(e[1], "bus")
        ctx.check(all(y == BAD for y in c) if out else not any(c), "bus-cross", "cross %s on a bus at %r" % (c, x), **i)
    soc, smax = u["soc"][0], lim["soc_max"][0]
    i = dict(info, soc=soc, soc_max=smax)
    number(ctx, v.text(STORE[1]), soc, "MWh", "storage-level", i)
    if math.isfinite(soc):
        bar(ctx, v, STORE[2], 0, frac(soc, smax), (SOC,), "bottom", "storage-bar", i, tol=0.006)
    e, pen = u["costs"]
    for k, (x, e) in enumerate(zip(u["costs"], COST)):
        i = dict(info, cost=k, value=x)
        number(ctx, v.text(e[1]), x, None, "cost-text", i, exact=0.00501)
        if math.isfinite(x):
            bar(ctx, v, e[0], 0, frac(x, lim["costs"][k]), (BAD, GOOD) if x == 0 else (BAD,) if x > 0 else (GOOD,), "left", "cost-bar", i, tol=0.008)
    w = u["when"]
    t = v.text(DATE)
    ctx.check(t is not None and t.split() == [MONTHS[w.month - 1], str(w.day)], "date", "date %r on %s" % (t, w), **info)
    t = v.text(TIME)
    ctx.check(t is not None and t.strip() == "%02d:%02d" % (w.hour, w.minute), "time", "time %r at %s" % (t, w), **info)
    number(ctx, v.text(YEAR), float(u["year"]), None, "year-count", info, exact=0.0)
    t = v.text(MARK)
    ctx.check(bool(t and t.strip()) == u["collapsed"], "collapse-mark", "mark %r, collapsed: %s" % (t, u["collapsed"]), **info)
    f = v.fill_of(MARKTXT)
    ctx.check((f == "#ff0000") == u["collapsed"], "collapse-colour", "colour %r, collapsed: %s" % (f, u["collapsed"]), **info)
    ctx.count("collapsed", u["collapsed"])
    ctx.nontrivial(repr(lim), repr(u))


def gradient(c, f):
    """From blue (0 %) to red (100 %)."""
    m = re.match(r"#([0-9a-f]{2})([0-9a-f]{2})([0-9a-f]{2})$", c)
    if not m:
        return False
    r, g, b = (int(x, 16) for x in m.groups())
    return abs(r - 255 * f) <= 8 and g <= 8 and abs(b - 255 * (1 - f)) <= 8


def inspect(ctx, pg, msgs, lim, updates, info, check_last_only=False):
    """Show messages[0] (init) and the updates; monitor each frame."""
    out = pg.show(msgs)
    ctx.count("pages")
    ctx.check(not out["errors"], "script-error", "the page's scripts failed: %s" % out["errors"], **info)
    if not ctx.check(len(msgs) == len(updates) + 1, "messages-received", "%d messages for %d updates" % (len(msgs), len(updates)), **info):
        return None
    for k, snap in enumerate(out["snapshots"]):
        i = dict(info, received=msgs[k][:1500], index=k)
        ctx.check(not snap["errors"], "script-error", "the page failed on message %d: %s" % (k, snap["errors"]), **i)
        v = View(pg, out["initial"], snap["changed"])
        check_limits(ctx, v, lim, i)
        if k:
            check_update(ctx, v, lim, updates[k - 1], i)
    return out


# --- arbitrary messages ------------------------------------------------------------
def value(rng, lim, signed=True):
    """A value around a limit."""
    r = rng.random()
    if r < 0.06:
        x = 0.0
    elif r < 0.12:
        x = lim
    elif r < 0.5:
        x = lim * rng.uniform(0, 1)
    elif r < 0.75:
        x = lim * rng.uniform(1.0005, 3)
    elif r < 0.88:
        x = lim * 10.0 ** rng.uniform(-5, -1)
    else:
        x = lim * 10.0 ** rng.uniform(0.5, 6)
    return float(x * (rng.choice([-1, 1]) if signed else 1))


def limits(rng):
    def L(n, lo=0.5, hi=500):
        return [float(np.round(np.exp(rng.uniform(np.log(lo), np.log(hi))), int(rng.integers(0, 4))) + 0.5) for _ in range(n)]

    typ = [0, -1, int(gen.pick(rng, [1, 2, 2])), -1, int(gen.pick(rng, [1, 2, 2])), -1, 3]
    vmin = [float(rng.uniform(0.7, 1.0)) for _ in BUS]
    return {
        "title": str(gen.pick(rng, ["MyEnv", "ANM6Easy", "Étude", "UserTask_2", "A"])),
        "dev_type": typ, "p_max": L(7), "q_max": L(7), "s_rate": L(5), "v_min": vmin,
        "v_max": [x if rng.random() < 0.1 else float(x + rng.uniform(0.01, 0.4)) for x in vmin],
        "soc_max": L(1), "costs": [float(gen.pick(rng, [1, 100, 10000, 12.5, 0.25])), float(gen.pick(rng, [100, 1000, 10000, 50.5, 2]))],
    }


def random_update(rng, lim, prev):
    gens = [k for k, t in enumerate(lim["dev_type"]) if t in (1, 2)]
    p = [value(rng, lim["p_max"][k], signed=k not in gens) for k in range(7)]
    for k in gens:
        # generators stay below their potential, mostly
        p[k] = float(min(p[k], lim["p_max"][k]))
    pot = [float(gen.pick(rng, [p[k], rng.uniform(0, lim["p_max"][k]), lim["p_max"][k], 0.0, rng.uniform(p[k], lim["p_max"][k])])) for k in gens]
    v = []
    for lo, hi in zip(lim["v_min"], lim["v_max"]):
        v.append(float(gen.pick(rng, [lo, hi, rng.uniform(lo, hi), rng.uniform(lo, hi), lo - 10.0 ** rng.uniform(-6, -0.3), hi + 10.0 ** rng.uniform(-6, 0.3), 0.0])))
    collapsed = bool(rng.random() < 0.2)
    u = {
        "when": dt.datetime(int(rng.integers(1999, 2030)), 1, 1) + dt.timedelta(minutes=int(rng.integers(0, 365 * 24 * 60))),
        "year": int(gen.pick(rng, [0, 0, 1, 2, 11, 123])),
        "p": p, "q": [value(rng, x) for x in lim["q_max"]], "s": [value(rng, x) for x in lim["s_rate"]],
        "soc": [float(gen.pick(rng, [0.0, lim["soc_max"][0], rng.uniform(0, lim["soc_max"][0]), rng.uniform(0, lim["soc_max"][0]) * 1e-3]))],
        "p_pot": pot, "v": v, "costs": [value(rng, lim["costs"][0]), value(rng, lim["costs"][1], signed=False)], "collapsed": collapsed,
    }
    if prev is not None and rng.random() < 0.4:
        # only a few things change
        keep = dict(prev)
        for key in gen.pick(rng, [["p", "p_pot"], ["q"], ["s"], ["v"], ["soc"], ["costs"], ["collapsed"], ["when", "year"], ["s", "v"]]):
            keep[key] = u[key]
        u = keep
    elif rng.random() < 0.1:
        # everything off
        u.update(p=[0.0] * 7, q=[0.0] * 7, s=[0.0] * 5, soc=[0.0], p_pot=[0.0] * len(gens), v=[0.0] * 6, costs=[0.0, 0.0])
    elif rng.random() < 0.08:
        u["p"] = [float("nan")] * 7
        u["q"] = [float("nan")] * 7
        u["v"] = [float("nan")] * 6
        u["s"] = [float("nan")] * 5
        u["collapsed"] = True
    return u


def opened(ctx, s, info, op, **kw):
    """Run a command which opens the page; connect a viewer as the page would."""
    box = {}

    def on_open(url):
        box["url"] = url
        box["viewer"] = sess.Viewer(sess.page_ws(url))
        time.sleep(0.3)

    with sess.start_lock():
        res = s(op, on_open=on_open, **kw)
    if not ctx.check(res is not None and "viewer" in box, "page-not-opened", "no page was opened", **info):
        raise Skip("page-not-opened")
    return res, box["url"], box["viewer"]


def raw_case(ctx, s):
    rng = ctx.rng
    lim = limits(rng)
    info = {"limits": lim}
    args = [lim["title"], lim["dev_type"], lim["p_max"], lim["q_max"], lim["s_rate"], lim["v_min"], lim["v_max"], lim["soc_max"], lim["costs"]]
    _, url, viewer = opened(ctx, s, info, "raw_start", id=0, args=args)
    pg = page.Page(url)
    n = int(rng.integers(40, 70))
    join = int(rng.integers(1, n - 5))
    late, updates = None, []
    for k in range(n):
        if k == join:
            late = sess.Viewer(sess.page_ws(url))
            late.wait(1)
        u = random_update(rng, lim, updates[-1] if updates else None)
        updates.append(u)
        s("raw_update", id=0, args=[u["when"].isoformat(), u["year"]] + [[repr(x) for x in u[f]] for f in ("p", "q", "s", "soc", "p_pot", "v", "costs")] + [u["collapsed"]])
    if not ctx.check(viewer.wait(n + 1) and late.wait(n - join + 1), "messages-received", "%d and %d messages received" % (len(viewer.msgs), len(late.msgs)), **info):
        return
    out = inspect(ctx, pg, viewer.msgs, lim, updates, info)
    # A page opened later shows the same from then on.
    inspect(ctx, pg, late.msgs, lim, updates[-(len(late.msgs) - 1) :], dict(info, page="opened later"))
    ctx.count("late_pages")
    if out:
        ctx.sample({"limits": lim, "update": {k: str(v) for k, v in updates[-1].items()}, "texts": [x["text"] for x in list(out["snapshots"][-1]["changed"].values()) if x["text"].strip()][:40]})
    for x in (viewer, late):
        x.leave()
    s("raw_close", id=0)


# --- rendered environments -----------------------------------------------------------
def env_case(ctx, s):
    rng = ctx.rng
    net = ref.Net(network())
    easy = bool(rng.random() < 0.5)
    info = {"environment": "ANM6Easy" if easy else "user"}
    b = net.base
    devs = [net.devs[i] for i in net.ids]
    clip = [1.0, 100.0] if easy else [float(gen.pick(rng, [1, 50.5, 100])), float(gen.pick(rng, [100, 7.5]))]
    lim = {
        "title": "ANM6Easy" if easy else "Task", "dev_type": [d.typ for d in devs],
        "p_max": [max(abs(d.pmin), abs(d.pmax)) * b for d in devs], "q_max": [max(abs(d.qmin), abs(d.qmax)) * b for d in devs],
        "s_rate": [br.rate * b for br in net.branches.values()], "v_min": [net.buses[i].vmin for i in net.bus_ids], "v_max": [net.buses[i].vmax for i in net.bus_ids],
        "soc_max": [net.devs[i].smax * b for i in net.des], "costs": clip,
    }
    spec = s("make", id=0, cls="ANM6Easy") if easy else s("make", id=0, cls="Task", K=0, dt=0.5, gamma=0.9, lamb=100, clip=clip)
    lo, hi = np.array(spec["low"]), np.array(spec["high"])
    updates, viewer = [], None
    for t in range(int(rng.integers(20, 35))):
        kw = {}
        if t == 0 or rng.random() < 0.04 or updates[-1]["collapsed"] and rng.random() < 0.6:
            if not easy:
                while True:
                    init = gen.init_state(rng, net, [], "inside")
                    init = np.where(np.arange(len(init)) < 2 * len(net.ids), 0.3 * init, init)
                    if work.Simulator(network(), 0.5, 100).reset(np.array(init)):
                        break
                kw["vars"] = [float(x) for x in init]
            s("reset", id=0, seed=int(rng.integers(0, 1000)), **kw)
        else:
            a = rng.uniform(lo, hi)
            if rng.random() < 0.3:
                a = np.where(rng.random(len(a)) < 0.5, lo, hi)
            if not easy:
                v = work.random_vars(rng, net, [], "inside")
                if rng.random() < 0.1:
                    v[: len(net.loads)] = -30.0
                    a = lo.copy()
                kw["vars"] = [float(x) for x in v]
            s("step", id=0, action=[float(x) for x in a], **kw)
        if viewer is None:
            truth, url, viewer = opened(ctx, s, info, "render", id=0, skip=None)
            pg = page.Page(url)
        else:
            truth = s("render", id=0, skip=None)
        updates.append(from_truth(truth, net))
    if not ctx.check(viewer.wait(len(updates) + 1), "messages-received", "%d messages for %d updates" % (len(viewer.msgs), len(updates)), **info):
        return
    inspect(ctx, pg, viewer.msgs, lim, updates, info)
    ctx.count("env_updates", len(updates))
    viewer.leave()
    s("close", id=0)


def from_truth(truth, net):
    def vec(q, ids):
        d = {str(k): float(v) for k, v in truth[q]}
        return [d[str(i)] for i in ids]

    return {
        "when": dt.datetime.fromisoformat(truth["date"]), "year": truth["year"],
        "p": vec("dev_p", net.ids), "q": vec("dev_q", net.ids), "s": vec("branch_s", [list(k) for k in net.branches]),
        "soc": vec("des_soc", net.des), "p_pot": vec("gen_p_max", net.gens), "v": vec("bus_v_magn", net.bus_ids),
        "costs": [float(x) for x in truth["costs"]], "collapsed": truth["terminated"],
    }
