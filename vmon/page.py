"""Loading the visualization page the way a browser does (see page.mjs) and
reading what its drawing shows, by position in the drawing."""
import html.parser
import json
import os
import re
import subprocess
import urllib.parse
import xml.etree.ElementTree as ET

import numpy as np

from . import sess
from .core import HarnessError

HERE = os.path.dirname(os.path.abspath(__file__))
NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


class Html(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.scripts, self.objects, self.onload, self.inline = [], [], None, None

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "script":
            if a.get("src"):
                self.scripts.append(("src", a["src"]))
            else:
                self.inline = ""
        elif tag in ("object", "embed", "iframe"):
            self.objects.append((a.get("id"), a.get("data") or a.get("src")))
        elif tag == "body":
            self.onload = a.get("onload")

    def handle_data(self, d):
        if self.inline is not None:
            self.inline += d

    def handle_endtag(self, tag):
        if tag == "script" and self.inline is not None:
            self.scripts.append(("inline", self.inline))
            self.inline = None


def matrix(text):
    M = np.eye(3)
    for name, args in re.findall(r"(\w+)\s*\(([^)]*)\)", text or ""):
        a = [float(x) for x in re.split(r"[\s,]+", args.strip())]
        if name == "matrix":
            N = np.array([[a[0], a[2], a[4]], [a[1], a[3], a[5]], [0, 0, 1]])
        elif name == "translate":
            N = np.array([[1, 0, a[0]], [0, 1, a[1] if len(a) > 1 else 0], [0, 0, 1]])
        elif name == "scale":
            N = np.diag([a[0], a[1] if len(a) > 1 else a[0], 1.0])
        elif name == "rotate":
            c, s = np.cos(np.radians(a[0])), np.sin(np.radians(a[0]))
            x, y = (a[1], a[2]) if len(a) == 3 else (0, 0)
            N = np.array([[c, -s, x - c * x + s * y], [s, c, y - s * x - c * y], [0, 0, 1]])
        else:
            raise HarnessError("SVG transform " + name)
        M = M @ N
    return M


def points(d):
    """End points and control points of a path (absolute)."""
    tok = re.findall(r"[a-zA-Z]|" + NUM, d or "")
    pts, cur, start, i, cmd = [], np.zeros(2), np.zeros(2), 0, "M"
    size = {"m": 2, "l": 2, "h": 1, "v": 1, "c": 6, "s": 4, "q": 4, "t": 2, "a": 7, "z": 0}
    while i < len(tok):
        if re.match(r"[a-zA-Z]$", tok[i]):
            cmd = tok[i]
            i += 1
        lo, rel = cmd.lower(), cmd.islower()
        a = [float(x) for x in tok[i : i + size[lo]]]
        i += size[lo]
        base = cur if rel else np.zeros(2)
        if lo == "z":
            cur = start
            continue
        if lo == "h":
            cur = np.array([base[0] + a[0], cur[1]])
        elif lo == "v":
            cur = np.array([cur[0], base[1] + a[0]])
        elif lo == "a":
            cur = base + a[5:7]
        else:
            ps = np.array(a).reshape(-1, 2) + base
            pts.extend(ps[:-1])
            cur = ps[-1]
        pts.append(cur)
        if lo == "m":
            start = cur
            cmd = "l" if rel else "L"
    return pts


class Node:
    pass


class Drawing:
    """The parsed SVG: a tree for the stub DOM and absolute geometry."""

    def __init__(self, text):
        self.nodes = []
        root = ET.fromstring(text)
        self.tree = self._walk(root, np.eye(3), None)

    def _walk(self, e, M, parent):
        tag = e.tag.split("}")[-1] if isinstance(e.tag, str) else "comment"
        n = Node()
        n.idx, n.tag, n.parent, n.parent_M = len(self.nodes), tag, parent, M
        n.id = e.get("id")
        n.attrs = {k.split("}")[-1]: v for k, v in e.attrib.items()}
        n.M = M @ matrix(e.get("transform"))
        n.text = "".join(e.itertext())
        self.nodes.append(n)
        kids = [self._walk(c, n.M, n) for c in e if isinstance(c.tag, str)]
        pts = []
        if tag == "path":
            pts = points(e.get("d"))
        elif tag in ("rect", "text", "tspan") and e.get("x") is not None:
            x, y = (float(e.get(k).split()[0]) for k in ("x", "y"))
            w, h = (float(e.get(k, 0)) if tag == "rect" else 0.0 for k in ("width", "height"))
            pts = [np.array([x, y]), np.array([x + w, y + h])]
        for k in kids:
            if k["bbox"]:
                b = k["bbox"]
                T = matrix(self.nodes[k["idx"]].attrs.get("transform"))
                for p in ((b[0], b[1]), (b[0] + b[2], b[1]), (b[0], b[1] + b[3]), (b[0] + b[2], b[1] + b[3])):
                    pts.append((T @ [p[0], p[1], 1])[:2])
        bbox = None
        if pts:
            lo, hi = np.min(pts, axis=0), np.max(pts, axis=0)
            bbox = [float(lo[0]), float(lo[1]), float(hi[0] - lo[0]), float(hi[1] - lo[1])]
        n.bbox = bbox
        n.at = None
        if bbox:
            # where the element is: the anchor of a text, the centre of anything else
            p = (pts[0] if tag in ("text", "tspan") and e.get("x") is not None else np.array([bbox[0] + bbox[2] / 2, bbox[1] + bbox[3] / 2]))
            n.at = (n.M @ [p[0], p[1], 1])[:2]
        own = (e.text or "") if not kids or (e.text or "").strip() else ""
        return {"tag": tag, "attrs": n.attrs, "text": own, "children": kids, "bbox": bbox, "idx": n.idx}

    def find(self, tags, at, tol=1.0, n=1):
        """The elements with one of these tags at a position."""
        c = [(float(np.hypot(*(m.at - at))), m) for m in self.nodes if m.tag in tags and m.at is not None]
        c = sorted((x for x in c if x[0] <= tol), key=lambda x: (x[0], x[1].idx))
        return [m for _, m in c]


class Page:
    """What the page served at a URL shows after each message."""

    def __init__(self, url):
        status, body, _ = sess.get(url)
        self.status = status
        p = Html()
        p.feed(body.decode("utf-8"))
        self.scripts = []
        for kind, x in p.scripts:
            if kind == "src":
                full = urllib.parse.urljoin(url.rstrip("/") + "/", x)
                self.scripts.append({"name": x, "code": sess.get(full)[1].decode("utf-8")})
            else:
                self.scripts.append({"name": "inline", "code": x})
        self.onload = p.onload
        self.objects = [i for i, _ in p.objects if i]
        svg = [d for _, d in p.objects if d and d.endswith(".svg")]
        if not svg:
            raise HarnessError("no drawing in the page")
        self.svg = sess.get(urllib.parse.urljoin(url.rstrip("/") + "/", svg[0]))[1].decode("utf-8")
        self.drawing = Drawing(self.svg)

    def show(self, messages):
        data = {"svg": self.drawing.tree, "scripts": self.scripts, "onload": self.onload, "objects": self.objects, "messages": messages}
        r = subprocess.run(["node", os.path.join(HERE, "page.mjs")], input=json.dumps(data).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if r.returncode:
            raise HarnessError("node: " + r.stderr.decode()[-1500:])
        return json.loads(r.stdout)
