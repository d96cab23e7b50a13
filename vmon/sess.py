"""Driving a rendering session (vmon/session_child.py) and its viewers."""
import fcntl
import json
import os
import re
import select
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time
import urllib.request

from . import core

HERE = os.path.dirname(os.path.abspath(__file__))
STEP_S = 60  # wall-clock watchdog of one command (generous; an answer, not a verdict)

ISOLATED = False


def _enter():
    uid, gid = os.getuid(), os.getgid()
    os.unshare(os.CLONE_NEWUSER | os.CLONE_NEWNET)
    for name, txt in (("setgroups", "deny"), ("uid_map", "0 %d 1" % uid), ("gid_map", "0 %d 1" % gid)):
        with open("/proc/self/" + name, "w") as f:
            f.write(txt)
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    req = struct.pack("16sH14s", b"lo", 0x1 | 0x40, b"")  # IFF_UP | IFF_RUNNING
    fcntl.ioctl(s, 0x8914, req)
    s.close()
    # The loopback network has to work.
    a = socket.socket()
    a.bind(("127.0.0.1", 0))
    a.listen(1)
    c = socket.create_connection(a.getsockname(), timeout=5)
    c.close()
    a.close()


def isolate():
    """Give this worker process its own network (loopback only), if possible."""
    global ISOLATED
    pid = os.fork()
    if pid == 0:
        try:
            _enter()
            os._exit(0)
        except BaseException:
            os._exit(1)
    if os.waitpid(pid, 0)[1] == 0:
        _enter()
        ISOLATED = True
    return ISOLATED


class start_lock:
    """Serialises the start of servers between processes sharing a network."""

    def __enter__(self):
        self.f = None
        if not ISOLATED:
            self.f = open(os.path.join(tempfile.gettempdir(), "vmon-render.lock"), "w")
            fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        if self.f:
            self.f.close()


class SessionError(Exception):
    """The code under test raised in a command."""


class Session:
    def __init__(self, ctx):
        self.ctx = ctx
        self.dir = tempfile.mkdtemp(prefix="vmon-render-")
        shutil.copytree(os.path.join(core.REPO, "gym_anm"), os.path.join(self.dir, "gym_anm"), ignore=shutil.ignore_patterns("__pycache__", "logs"))
        c_r, p_w = os.pipe()
        p_r, c_w = os.pipe()

        # The child finds them as 3 and 4, whatever numbers they (or anything else) have here.
        h_r, h_w = (fcntl.fcntl(f, fcntl.F_DUPFD, 100) for f in (c_r, c_w))

        def pre():
            os.dup2(h_r, 3)
            os.dup2(h_w, 4)

        env = dict(os.environ)
        self.log = open(os.path.join(self.dir, "child.log"), "w")
        self.proc = subprocess.Popen(
            [sys.executable, "-W", "ignore", os.path.join(HERE, "session_child.py"), self.dir],
            stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, cwd=self.dir, env=env, start_new_session=True, preexec_fn=pre, pass_fds=(3, 4),
        )
        for f in (c_r, c_w, h_r, h_w):
            os.close(f)
        self.w = os.fdopen(p_w, "w")
        self.fd = p_r
        self.buf = b""
        if self._read(120) != {"ready": True}:
            raise core.HarnessError("the session process did not start: " + self.tail())

    def tail(self):
        try:
            with open(os.path.join(self.dir, "child.log")) as f:
                return f.read()[-1500:]
        except OSError:
            return ""

    def _read(self, timeout):
        end = time.monotonic() + timeout
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return None
            r, _, _ = select.select([self.fd], [], [], left)
            if r:
                d = os.read(self.fd, 1 << 16)
                if not d:
                    return {"eof": True}
                self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def _send(self, obj):
        self.w.write(json.dumps(obj) + "\n")
        self.w.flush()

    def __call__(self, op, id=0, on_open=None, timeout=STEP_S, **kw):
        """Run one command in the session; returns what it reported."""
        self._send(dict(kw, op=op, id=id))
        while True:
            m = self._read(timeout)
            if m is None:
                return None  # still running after the watchdog
            if "event" in m:
                if on_open:
                    on_open(m["url"])
                self._send({"op": "go"})
                continue
            if "eof" in m:
                raise core.HarnessError("the session process died: " + self.tail())
            if "error" in m:
                if not m["in_code"]:
                    raise core.HarnessError(m["trace"])
                raise SessionError(m["error"] + "\n" + m["trace"])
            return m["ok"]

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()
        self.w.close()
        os.close(self.fd)
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def get(url, timeout=20):
    op = urllib.request.build_opener(urllib.request.ProxyHandler({}))
    with op.open(url, timeout=timeout) as r:
        return r.status, r.read(), r.headers.get("Content-Type", "")


def page_ws(url):
    """What a browser does with the page: find the WebSocket server's address."""
    status, body, _ = get(url)
    m = re.search(r"""wsServerAddress\s*=\s*["']([^"']+)""", body.decode("utf-8", "replace"))
    return m.group(1) if m else None


class Viewer:
    """A WebSocket client recording every message it receives, in order."""

    def __init__(self, address, rcvbuf=None):
        import websocket

        self.msgs = []
        self.closed = False
        self.resume = threading.Event()
        self.resume.set()
        self.cond = threading.Condition()
        opts = [] if rcvbuf is None else [(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)]
        self.ws = websocket.create_connection(address, timeout=60, sockopt=opts)
        self.th = threading.Thread(target=self._loop, daemon=True)
        self.th.start()

    def _loop(self):
        import websocket

        try:
            while True:
                self.resume.wait()
                try:
                    m = self.ws.recv()
                except websocket.WebSocketTimeoutException:
                    if self.closed:
                        break
                    continue
                if m is None or m == "":
                    break
                with self.cond:
                    self.msgs.append(m)
                    self.cond.notify_all()
        except Exception:
            pass
        finally:
            with self.cond:
                self.closed = True
                self.cond.notify_all()

    def wait(self, n, timeout=40):
        """Wait until n messages were received (True) or the watchdog fires."""
        with self.cond:
            return self.cond.wait_for(lambda: len(self.msgs) >= n or self.closed, timeout) and len(self.msgs) >= n

    def settle(self, n, quiet=0.15):
        """Wait for n messages and then a moment for superfluous ones."""
        ok = self.wait(n)
        time.sleep(quiet)
        return ok

    def leave(self):
        try:
            self.ws.close(timeout=1)
        except Exception:
            pass
        self.closed = True

    def crash(self):
        """Reset the connection without any goodbye."""
        s = self.ws.sock
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.shutdown(socket.SHUT_RD)
        except Exception:
            pass
        try:
            s.close()
        except Exception:
            pass
        self.closed = True

    def send_garbage(self, text):
        try:
            self.ws.send(text)
        except Exception:
            pass


def port_of(address):
    return int(re.search(r":(\d+)", address.split("//", 1)[-1]).group(1))


def listening(port):
    s = socket.socket()
    s.settimeout(5)
    try:
        return s.connect_ex(("127.0.0.1", port)) == 0
    except OSError:
        return False
    finally:
        s.close()


def alive(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in ("Z", "X")
    except OSError:
        return False


def descendants(pid):
    out, todo = [], [pid]
    kids = {}
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open("/proc/%s/stat" % p) as f:
                    t = f.read().rsplit(")", 1)[1].split()
                if t[0] not in ("Z", "X"):
                    kids.setdefault(int(t[1]), []).append(int(p))
            except OSError:
                pass
    while todo:
        for k in kids.get(todo.pop(), []):
            out.append(k)
            todo.append(k)
    return out
