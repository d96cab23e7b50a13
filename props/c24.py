"""C24: viewers receive init first, then every update once and in order; close cleans up."""
import contextlib
import datetime as dt
import hashlib
import json
import os
import signal
import socket
import threading
import time
import urllib.parse

import numpy as np

from props.c23 import network, strict
from vmon import gen, ref, sess, work
from vmon.core import Skip

RULE = (
    "rendering sessions in separate processes with real WebSocket/HTTP viewers: schedules of viewers connecting before the "
    "init message, later or during updates, pausing, not reading anything any more, leaving, resetting their connection or sending garbage; several "
    "environments per process, several processes (also starting at the same moment), occupied default ports, close / close again / close after a server process died / re-open; an offline "
    "checker over the recorded message logs decides init-first, exactly-once, order and isolation, and server processes "
    "and ports are observed after close; non-trivial = distinct (schedule, message log) pairs"
)
ASSUMPTIONS = [
    "a viewer counts as connected once it received the init message (or 0.4 s after its handshake, before the init message was sent)",
]
LIMIT_MEMORY = False
MIN = {"viewers": 120, "viewers_before_init": 15, "viewers_during": 30, "left": 5, "crashed": 4, "paused": 5, "garbage": 5, "messages": 2000, "sessions_closed": 25, "reopened": 5, "second_sessions": 10, "files_served": 100, "churners": 60, "stalled_updates": 380, "simultaneous_starts": 20, "identical_updates": 15, "servers_killed": 4, "distinct_nontrivial": 100}
CASE_CPU_S = {"quick": 300, "thorough": 300}
worker_setup = sess.isolate
DAEMON = True
GRACE = 150


def plan(tier):
    q = tier == "quick"
    return [("schedule", 12 if q else 140), ("churn", 8 if q else 100), ("sessions", 8 if q else 100), ("life", 8 if q else 80), ("stalled", 2 if q else 16), ("simultaneous", 6 if q else 60)]


def run(ctx, kind):
    {"schedule": schedule_case, "churn": churn_case, "sessions": sessions_case, "life": life_case, "stalled": stalled_case, "simultaneous": simultaneous_case}[kind](ctx)


class Env:
    """One rendered environment of a session process, and what it sent."""

    def __init__(self, ctx, s, eid, title):
        self.ctx, self.s, self.eid, self.title = ctx, s, eid, title
        self.net = ref.Net(network())
        self.sp = s("make", id=eid, cls=title, K=0, dt=0.25, gamma=0.9, lamb=100, clip=[1, 100])
        # Distinct minutes for the environments of a case: frames identify themselves.
        self.date = dt.datetime(2020, 1 + int(ctx.rng.integers(0, 6)), 3, 0, eid % 15)
        self.sent = []  # ids of the updates, in order
        self.url = None
        self.addr = None
        self.reset()

    def vars(self, scale=0.3):
        rng = self.ctx.rng
        return [float(x) for x in scale * work.random_vars(rng, self.net, [], "inside")]

    def reset(self):
        n = len(self.net.ids)
        init = np.zeros(2 * n + len(self.net.des) + len(self.net.gens))
        # The clock goes on where it was: frames stay distinguishable.
        self.s("reset", id=self.eid, date=self.date.isoformat(), vars=[float(x) for x in init])

    def step(self):
        lo, hi = np.array(self.sp["low"]), np.array(self.sp["high"])
        a = self.ctx.rng.uniform(lo, hi) * 0.5
        r = self.s("step", id=self.eid, action=[float(x) for x in a], vars=self.vars())
        self.date += dt.timedelta(minutes=15)
        return r

    def frame(self):
        d = self.date
        return (d.month, d.day, d.hour, d.minute)

    def start(self, early=(), lock=True):
        """First render(): returns the viewers connected before the init message."""
        out = []

        def on_open(url):
            self.url = url
            self.addr = sess.page_ws(url)
            for k in range(len(early)):
                out.append(connect(self.ctx, self.addr))
            time.sleep(0.4)

        with sess.start_lock() if lock else contextlib.nullcontext():
            self._render(on_open)
        if not self.ctx.check(self.url is not None, "page-not-opened", "render() opened no page"):
            raise Skip("page-not-opened")
        return out

    def render(self):
        self._render(None)

    def _render(self, on_open):
        f = self.frame()
        try:
            r = self.s("render", id=self.eid, on_open=on_open)
        except sess.SessionError as e:
            self.ctx.fail("exception:render", str(e))
            raise Skip("render-raised")
        if not self.ctx.check(r is not None, "render-hangs", "render() did not return (waiting for viewers?)"):
            raise Skip("render-hangs")
        self.sent.append(f)
        self.ctx.count("updates")

    def step_render(self):
        self.step()
        self.render()


def connect(ctx, addr):
    ctx.count("viewers")
    try:
        return sess.Viewer(addr)
    except Exception as e:
        ctx.fail("viewer-refused", "connecting to %s: %r" % (addr, e))
        raise Skip("viewer-refused")


def late_viewer(ctx, env):
    """A viewer connecting to an initialised session; waits for its init message."""
    v = connect(ctx, env.addr)
    v.first = len(env.sent)
    ctx.check(v.wait(1), "init-missing", "a viewer connecting after %d updates did not get the init message" % len(env.sent))
    return v


def parse(ctx, v, who):
    """The message log of a viewer: [('init', title) | frame id]."""
    out = []
    for m in list(v.msgs):
        ctx.count("messages")
        try:
            d = strict(m)
            if d["messageLabel"] == "init":
                out.append(("init", d["title"]))
            else:
                out.append(tuple(d["time"]))
        except Exception as e:
            ctx.fail("unreadable-message", "%s: %r: %s" % (who, e, m[:300]))
            return None
    return out


def judge(ctx, v, env, expected, who, mech="", exact=True):
    """Offline check of one viewer's log: init, then the expected updates."""
    ctx.evaluated()
    log = parse(ctx, v, who)
    if log is None:
        return
    want = [("init", env.title)] + list(expected)
    ctx.nontrivial(tuple(log))
    if exact:
        ctx.check(log == want, "viewer-log" + mech, "%s received %s, expected %s" % (who, short(log), short(want)), received=log, expected=want)
    else:
        # left by itself: a prefix, except for what was under way
        ctx.check(log == want[: len(log)], "viewer-log" + mech, "%s received %s, not a prefix of %s" % (who, short(log), short(want)), received=log, expected=want)


def short(x):
    return "%d messages %s" % (len(x), str(x[:6])[:-1] + (" ... %s]" % (x[-1],) if len(x) > 6 else "]"))


# --- schedules ---------------------------------------------------------------------
def schedule_case(ctx):
    rng = ctx.rng
    s = sess.Session(ctx)
    live = []
    try:
        env = Env(ctx, s, int(rng.integers(1, 15)), "Sched%d" % ctx.idx)
        twin = Env(ctx, s, 0, "Twin")
        n_early = int(rng.integers(0, 5))
        early = env.start(range(n_early))
        ctx.count("viewers_before_init", n_early)
        for k, v in enumerate(early):
            live.append((v, 0, "early viewer %d" % k))
        gone = []  # (viewer, first, last, who)
        order = []
        for t in range(int(rng.integers(15, 30))):
            for _ in range(int(rng.integers(0, 3))):
                what = gen.pick(rng, ["join", "join", "leave", "crash", "pause", "resume", "garbage", "reset", "idle-http"])
                order.append(what)
                if what == "join" and len(live) < 9:
                    v = late_viewer(ctx, env)
                    ctx.count("viewers_during")
                    live.append((v, len(env.sent), "viewer joining after %d updates" % len(env.sent)))
                elif what in ("leave", "crash") and len(live) > 1:
                    k = int(rng.integers(len(live)))
                    v, first, who = live.pop(k)
                    if v.resume.is_set():
                        v.wait(1 + len(env.sent) - first)
                        exact = True
                    else:
                        exact = False
                    (v.leave if what == "leave" else v.crash)()
                    gone.append((v, first, len(env.sent), who, exact))
                    ctx.count("left" if what == "leave" else "crashed")
                    if rng.random() < 0.5:
                        time.sleep(0.2)
                elif what == "pause" and live:
                    v = live[int(rng.integers(len(live)))][0]
                    v.resume.clear()
                    ctx.count("paused")
                elif what == "resume":
                    for v, _, _ in live:
                        v.resume.set()
                elif what == "garbage" and live:
                    # A viewer talking nonsense may be dropped, nobody else.
                    v = late_viewer(ctx, env)
                    v.send_garbage(str(gen.pick(rng, ["hello", "{", "{}", '{"messageLabel": "x"}', "[1]", "", "null"])))
                    gone.append((v, len(env.sent), None, "garbage viewer", False))
                    ctx.count("garbage")
                    time.sleep(0.2)
                elif what == "reset":
                    env.reset()
                elif what == "idle-http" and rng.random() < 0.3:
                    host = urllib.parse.urlparse(env.url)
                    idle = socket.create_connection((host.hostname, host.port), timeout=10)
                    try:
                        check_page(ctx, env, "http-blocked")
                    finally:
                        idle.close()
            if rng.random() < 0.8 or not env.sent:
                env.step()
            else:
                ctx.count("identical_updates")  # (the same message twice: two updates)
            env.render()
            # The rendered environment evolves like one which is not rendered.
            if t % 7 == 0:
                check_twin(ctx, s, env)
        for v, _, _ in live:
            v.resume.set()
        for v, first, who in live:
            v.wait(1 + len(env.sent) - first)
        time.sleep(0.2)
        for v, first, who in live:
            judge(ctx, v, env, env.sent[first:], who)
        for v, first, last, who, exact in gone:
            judge(ctx, v, env, env.sent[first:last], who, exact=exact)
        ctx.sample({"schedule": order[:40], "updates": len(env.sent), "viewers": len(live) + len(gone)})
        s("close", id=env.eid)
        ctx.count("sessions_closed")
    finally:
        for v, _, _ in live:
            v.leave()
        s.kill()


def check_twin(ctx, s, env):
    """Stepping with rendering gives what stepping without rendering gives."""
    rng = ctx.rng
    lo, hi = np.array(env.sp["low"]), np.array(env.sp["high"])
    n = len(env.net.ids)
    init = [0.0] * (2 * n + len(env.net.des) + len(env.net.gens))
    a = [float(x) for x in rng.uniform(lo, hi) * 0.3]
    v = env.vars()
    out = []
    for e in (env.eid, 0):
        s("reset", id=e, date=env.date.isoformat(), vars=init)
        r = s("step", id=e, action=a, vars=v)
        out.append((r["state"], r["reward"], r["date"]))
    env.date += dt.timedelta(minutes=15)
    ctx.check(out[0] == out[1], "rendering-affects-environment", "%s / %s" % (out[0], out[1]))
    ctx.count("twins")


def check_page(ctx, env, mech="page"):
    try:
        st, body, typ = sess.get(env.url, timeout=30)
    except Exception as e:
        ctx.fail(mech, "GET %s: %r" % (env.url, e))
        return
    ctx.check(st == 200 and b"<html" in body.lower(), mech, "GET %s: %s" % (env.url, st))


# --- churn ---------------------------------------------------------------------------
def churn_case(ctx):
    rng = ctx.rng
    s = sess.Session(ctx)
    stable, stop = [], threading.Event()
    threads = []
    try:
        env = Env(ctx, s, 3, "Churn%d" % ctx.idx)
        stable = env.start(range(3))
        # Stable viewers before and after the churners in the server's list.
        stable = [(v, 0) for v in stable]
        logs, lock = [], threading.Lock()
        crash_share = float(rng.uniform(0, 1))

        def churn(seed):
            r = np.random.default_rng(seed)
            while not stop.is_set():
                try:
                    v = sess.Viewer(env.addr)
                except Exception as e:
                    with lock:
                        logs.append(("refused", repr(e)))
                    return
                if not v.wait(1, 30):
                    with lock:
                        logs.append(("noinit", v.msgs[:], v.closed))
                    return
                after = len(env.started)
                time.sleep(float(r.uniform(0, 0.05)))
                crash = r.random() < crash_share
                if crash:
                    v.crash()
                else:
                    v.leave()
                with lock:
                    logs.append(("ok", v, after))
                if r.random() < 0.3:
                    time.sleep(float(r.uniform(0, 0.03)))

        env.started = []
        seeds = rng.integers(0, 2**31, size=int(gen.pick(rng, [2, 4, 6])))
        threads = [threading.Thread(target=churn, args=(int(x),), daemon=True) for x in seeds]
        for t in threads:
            t.start()
        n = int(rng.integers(40, 70))
        base = len(env.sent)
        for k in range(n):
            env.step()
            env.started.append(env.frame())
            env.render()
            if k in (10, 25):
                v = late_viewer(ctx, env)
                stable.append((v, len(env.sent)))
        stop.set()
        for t in threads:
            t.join(60)
        for v, first in stable:
            v.wait(1 + len(env.sent) - first)
        time.sleep(0.2)
        for k, (v, first) in enumerate(stable):
            judge(ctx, v, env, env.sent[first:], "viewer %d (others come and go)" % k, "-churn")
        where = {f: i for i, f in enumerate(env.sent)}
        with lock:
            mine = list(logs)
        for entry in mine:
            ctx.count("churners")
            ctx.count("viewers")
            if entry[0] == "refused":
                ctx.fail("viewer-refused", entry[1])
                continue
            if entry[0] == "noinit":
                ctx.fail("init-missing", "a viewer connecting during updates got no init message", received=entry[1], closed=entry[2])
                continue
            _, v, after = entry
            ctx.evaluated()
            log = parse(ctx, v, "churning viewer")
            if log is None:
                continue
            if not ctx.check(log[0] == ("init", env.title), "init-not-first", "a viewer connecting during updates received %s first" % (log[0],), received=log):
                continue
            ups = log[1:]
            ix = [where.get(f) for f in ups]
            ok = None not in ix and all(b == a + 1 for a, b in zip(ix, ix[1:]))
            ctx.check(ok, "churner-log", "a churning viewer received the updates %s" % (ix,), received=log)
            if ok and ix:
                ctx.count("churner_updates", len(ix))
                # once initialised, the first update started afterwards arrives
                ctx.check(ix[0] <= base + after, "churner-missed", "initialised before update %d was sent, but the first one received is %d" % (base + after, ix[0]), received=log)
                ctx.nontrivial("churn", tuple(ix), ctx.idx)
        s("close", id=env.eid)
        ctx.count("sessions_closed")
    finally:
        stop.set()
        for v, _ in stable:
            v.leave()
        s.kill()


# --- several sessions ------------------------------------------------------------------
def sessions_case(ctx):
    rng = ctx.rng
    ss = [sess.Session(ctx)]
    blockers, viewers = [], []
    try:
        two_procs = rng.random() < 0.4
        if two_procs:
            ss.append(sess.Session(ctx))
            ctx.count("second_processes")
        if sess.ISOLATED and rng.random() < 0.6:
            # Somebody else listens on the default ports.
            for port in (9001, 8000):
                if rng.random() < 0.7:
                    b = socket.socket()
                    b.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    b.bind(("127.0.0.1", port))
                    b.listen(64)
                    blockers.append((port, b))
                    ctx.count("default_ports_taken")
        n = int(rng.integers(2, 4))
        es = []
        for k in range(n):
            e = Env(ctx, ss[k % len(ss)], 2 * k + 1, "Session%d" % k)
            e.open = e.start([0])
            e.firsts = [0]
            ctx.count("viewers_before_init")
            ctx.count("second_sessions", k > 0)
            es.append(e)
            ports = [sess.port_of(e.addr), urllib.parse.urlparse(e.url).port]
            for p, _ in blockers:
                ctx.check(p not in ports, "port-collision", "session uses %s although port %d is taken" % (ports, p))
        used = [sess.port_of(e.addr) for e in es] + [urllib.parse.urlparse(e.url).port for e in es]
        ctx.check(len(set(used)) == len(used), "port-collision", "ports of %d sessions: %s" % (n, used))
        closed = []
        for t in range(int(rng.integers(10, 25))):
            e = es[int(rng.integers(n))]
            if e in closed:
                if rng.random() < 0.5:
                    e.step()
                continue
            what = gen.pick(rng, ["render"] * 6 + ["join", "close"])
            if what == "join":
                e.open.append(late_viewer(ctx, e))
                e.firsts.append(len(e.sent))
                ctx.count("viewers_during")
            elif what == "close" and t > 5 and len(closed) < n - 1:
                settle(e)
                close_and_check(ctx, e)
                closed.append(e)
            else:
                e.step_render()
        for e in es:
            if e not in closed:
                settle(e)
        time.sleep(0.2)
        for e in es:
            for v, first in zip(e.open, e.firsts):
                judge(ctx, v, e, e.sent[first:], "viewer of %s (one of %d sessions)" % (e.title, n), "-sessions")
        # Loading a session's page again leads to the same session.
        for e in es:
            if e in closed:
                continue
            again = sess.page_ws(e.url)
            later = [x for x in es if x.s is e.s and es.index(x) > es.index(e)]
            if again != e.addr and later and again == later[-1].addr:
                ctx.fail("index-html-shared", "the page %s of session %s leads to %s, the server of session %s" % (e.url, e.title, again, later[-1].title))
            else:
                ctx.check(again == e.addr, "page-leads-elsewhere", "the page %s leads to %s instead of %s" % (e.url, again, e.addr))
            ctx.count("pages_reloaded")
        for e in es:
            if e not in closed:
                close_and_check(ctx, e)
        ctx.sample({"sessions": n, "processes": len(ss), "ports": used, "blocked": [p for p, _ in blockers], "updates": [len(e.sent) for e in es]})
    finally:
        for _, b in blockers:
            b.close()
        for s in ss:
            s.kill()


def settle(e):
    for v, first in zip(e.open, e.firsts):
        v.wait(1 + len(e.sent) - first)


def close_and_check(ctx, e, kill=False):
    """close(): the servers' processes end and their ports are free.

    With kill, one of the server processes (of the only rendered environment) has
    died before."""
    kids = set(sess.descendants(e.s.proc.pid))
    if kill and kids:
        dead = int(gen.pick(ctx.rng, sorted(kids)))
        os.kill(dead, signal.SIGKILL)
        end = time.monotonic() + 25
        while sess.alive(dead) and time.monotonic() < end:
            time.sleep(0.02)
        ctx.count("servers_killed")
    try:
        r = e.s("close", id=e.eid)
    except sess.SessionError as err:
        ctx.fail("exception:close", str(err))
        return
    ctx.check(r is not None, "close-hangs", "close() did not return")
    ctx.count("sessions_closed")
    ports = [sess.port_of(e.addr), urllib.parse.urlparse(e.url).port]
    end = time.monotonic() + 25
    while time.monotonic() < end:
        up = [p for p in ports if sess.ISOLATED and sess.listening(p)]
        left = [p for p in kids if sess.alive(p)]
        if not up and len(left) <= len(kids) - 2:
            break
        time.sleep(0.05)
    # Each session has (at least) two server processes of its own.
    ctx.check(not up, "port-not-freed", "ports %s still accept connections after close()" % up)
    ctx.check(len(left) <= len(kids) - 2, "process-left", "%d server processes before close(), %d after" % (len(kids), len(left)))
    e.closed_kids = kids - set(left)


# --- sessions starting at the same moment --------------------------------------------------
def simultaneous_case(ctx):
    rng = ctx.rng
    ss = []
    try:
        n = int(rng.integers(2, 5))
        for _ in range(n):
            ss.append(sess.Session(ctx))
        for life in range(2):
            es = [Env(ctx, ss[k], 2 * k + 1, "Together%d" % k) for k in range(n)]
            gaps = [float(x) for x in rng.uniform(0, 0.02, size=n) * (rng.random() < 0.5)]
            barrier, errors = threading.Barrier(n), []

            def go(e, gap):
                try:
                    barrier.wait(30)
                    time.sleep(gap)
                    e.open = e.start([0], lock=False)
                    e.firsts = [0]
                except BaseException as x:
                    errors.append(x)

            ts = [threading.Thread(target=go, args=x, daemon=True) for x in zip(es, gaps)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errors:
                raise errors[0]
            ctx.count("simultaneous_starts", n)
            used = [sess.port_of(e.addr) for e in es] + [urllib.parse.urlparse(e.url).port for e in es]
            ctx.check(len(set(used)) == len(used), "port-collision", "ports of %d sessions started together: %s" % (n, used))
            for _ in range(4):
                for e in es:
                    e.step_render()
            for e in es:
                settle(e)
            time.sleep(0.2)
            for e in es:
                for v, first in zip(e.open, e.firsts):
                    judge(ctx, v, e, e.sent[first:], "viewer of %s (one of %d sessions started together)" % (e.title, n), "-simultaneous")
            for e in es:
                close_and_check(ctx, e)
    finally:
        for s in ss:
            s.kill()


# --- a viewer which stops reading ----------------------------------------------------------
def stalled_case(ctx):
    """More updates than the socket buffers of a viewer hold, while it reads nothing.

    The messages are those of a large network (thousands of devices), sent with the
    functions the environments use.
    """
    rng = ctx.rng
    s = sess.Session(ctx)
    vs, st = [], None
    try:
        n, title = 2500, "Stalled%d" % ctx.idx
        with sess.start_lock():
            addr = s("raw_start", id=1, args=[title, [1], [1.0], [1.0], [1.0], [0.9], [1.1], [], [1, 1]])["address"]
        sent = []

        def viewer(**kw):
            ctx.count("viewers")
            v = sess.Viewer(addr, **kw)
            ctx.check(v.wait(1), "init-missing", "no init message for a viewer connecting after %d updates" % len(sent))
            return v, len(sent)

        def update():
            k = len(sent)
            when = dt.datetime(2020, 1, 1) + dt.timedelta(minutes=k)
            p = [float(x) for x in rng.uniform(-1, 1, size=n)]
            t0 = time.monotonic()
            r = s("raw_update", id=1, args=[when.isoformat(), k, p, [0.0], [0.0], [], [], [1.0], [0.0, 0.0], False])
            ctx.track("slowest update with a stalled viewer (s)", time.monotonic() - t0)
            if not ctx.check(r is not None, "render-hangs", "update %d did not return (a viewer does not read)" % k):
                raise Skip("render-hangs")
            sent.append((k, hashlib.sha256(json.dumps(p).encode()).hexdigest()))
            ctx.count("updates")
            ctx.count("stalled_updates")

        def log_of(v):
            out = []
            for m in list(v.msgs):
                d = strict(m)
                out.append(("init", d["title"]) if d["messageLabel"] == "init" else (d["yearCount"], hashlib.sha256(json.dumps(d["pInjections"]).encode()).hexdigest()))
                ctx.count("messages")
            return out

        vs.append(viewer())
        st, first = viewer(rcvbuf=4096)
        st.resume.clear()
        vs.append(viewer())
        for t in range(200):
            update()
            if t % 40 == 39:
                for v, f in vs:
                    ok = v.wait(1 + len(sent) - f)
                    if not ctx.check(ok, "stalled-viewer-blocks", "another viewer lacks updates after %d updates of 50 kB (one viewer does not read)" % len(sent)):
                        return
        vs.append(viewer())
        update()
        ctx.track("messages the stalled viewer had read", len(st.msgs))
        if ctx.idx % 2 == 0:
            st.resume.set()
            vs.append((st, first))
        else:
            st.crash()
            update()
        for v, f in vs:
            ctx.evaluated()
            ctx.check(v.wait(1 + len(sent) - f), "viewer-log-stalled", "a viewer received %d messages of %d" % (len(v.msgs), 1 + len(sent) - f))
        time.sleep(0.1)
        for v, f in vs:
            got, want = log_of(v), [("init", title)] + sent[f:]
            ctx.check(got == want, "viewer-log-stalled", "%s received %s, expected %s" % ("the paused viewer" if v is st else "a viewer (another one reads nothing)", short(got), short(want)))
            ctx.nontrivial("stalled", tuple(got))
        s("raw_close", id=1)
    finally:
        for v, _ in vs:
            v.leave()
        if st is not None:
            st.crash()
            st.resume.set()
        s.kill()


# --- life cycle --------------------------------------------------------------------------
def life_case(ctx):
    rng = ctx.rng
    s = sess.Session(ctx)
    vs = []
    try:
        env = Env(ctx, s, 5, "Life%d" % ctx.idx)
        if rng.random() < 0.5:
            # close() without rendering does nothing, nor does an invalid mode.
            s("close", id=env.eid)
            ctx.check(s("render_bad", id=env.eid, mode=str(gen.pick(rng, ["ansi", "rgb_array", "", "HUMAN"])))["raised"] == "NotImplementedError", "invalid-mode", "render(mode=invalid) did not raise NotImplementedError")
            ctx.check(not sess.descendants(s.proc.pid), "process-left", "server processes although nothing is rendered")
            env.step()
        for life in range(int(rng.integers(2, 4))):
            ctx.count("reopened", life > 0)
            env.sent = []
            env.url = None
            vs = [(v, 0) for v in env.start(range(int(rng.integers(1, 3))))]
            ctx.count("viewers_before_init", len(vs))
            check_files(ctx, env)
            for t in range(int(rng.integers(2, 8))):
                if rng.random() < 0.3:
                    env.reset()
                if rng.random() < 0.3:
                    vs.append((late_viewer(ctx, env), len(env.sent)))
                    ctx.count("viewers_during")
                env.step_render()
            for v, first in vs:
                v.wait(1 + len(env.sent) - first)
            time.sleep(0.15)
            for v, first in vs:
                judge(ctx, v, env, env.sent[first:], "viewer of life %d" % life, "-life")
            if rng.random() < 0.5:
                for v, _ in vs:
                    v.leave()
            close_and_check(ctx, env, kill=rng.random() < 0.4)
            for v, _ in vs:
                v.leave()
            if rng.random() < 0.5:
                try:
                    s("close", id=env.eid)
                    ctx.count("closed_twice")
                except sess.SessionError as e:
                    ctx.fail("exception:close", "second close(): %s" % e)
            env.step()  # the environment goes on without rendering
            if rng.random() < 0.3:
                env.reset()
        ctx.check(not [p for p in sess.descendants(s.proc.pid)], "process-left", "server processes left at the end")
    finally:
        for v, _ in vs:
            v.leave()
        s.kill()


def check_files(ctx, env):
    """The page and every file it needs are served as they are in the package."""
    root = os.path.join(env.s.dir, "gym_anm", "envs", "anm6_env", "rendering")
    base = env.url.rstrip("/") + "/"
    todo = ["css/styles.css", "envs/anm6/network.svg", "envs/anm6/svgLabels.js"] + ["js/" + f for f in sorted(os.listdir(os.path.join(root, "js"))) if f.endswith(".js")]
    check_page(ctx, env)
    for f in todo:
        with open(os.path.join(root, f), "rb") as fh:
            want = fh.read()
        try:
            st, body, typ = sess.get(base + f)
        except Exception as e:
            ctx.fail("file-not-served", "%s: %r" % (f, e))
            continue
        ctx.count("files_served")
        ctx.check(st == 200 and body == want, "file-served", "%s: status %s, %d bytes instead of %d" % (f, st, len(body), len(want)))
    # The page refers to files which exist.
    import re

    _, body, _ = sess.get(env.url)
    for ref_ in re.findall(r"""(?:src|href|data)\s*=\s*["']([^"']+)["']""", body.decode()):
        if "://" in ref_:
            continue
        try:
            st, _, _ = sess.get(base + ref_)
        except Exception as e:
            st = repr(e)
        ctx.check(st == 200, "file-not-served", "the page needs %s: %s" % (ref_, st))
