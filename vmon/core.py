"""Runner: generates cases, runs them against the real code, collects verdicts.

A property module (props/cXX.py) provides

    RULE         how cases are made and what makes one non-trivial
    ASSUMPTIONS  list of str
    plan(tier)   -> list of (kind, number of cases)
    QUICK_X      -> factor on the numbers of quick cases (optional)
    run(ctx, kind)   runs one case, reports to ctx
    MIN          {counter: minimum}  below which the run is inconclusive (exit 2)

Every case is a pure function of (seed, property, kind, idx), so a replay file is
just these four values (plus what was observed, for the reader).
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import re
import resource
import signal
import sys
import time
import traceback
import zlib

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
# CPU time allowed to one case before it counts as a hang (normal cases use a
# few seconds, some tens at most: see case_cpu_s in the evidence), and the memory allowed to
# a worker (modules which start other programs switch this off).
CASE_CPU_S = {"quick": 240, "thorough": 400}
MEMORY = 4 << 30

QUICK_CAP = 200
THOROUGH_CAP = 760


class HarnessError(Exception):
    """The harness itself cannot do its work (never a verdict on the code)."""


class Hang(BaseException):
    pass


class Skip(Exception):
    """The generated case is not usable (counted, never silently)."""


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:80]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:120]]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, complex):
        return [x.real, x.imag]
    if x is None or isinstance(x, (str, int, bool)):
        return x
    return repr(x)[:300]


class Ctx:
    def __init__(self, prop, kind, idx, seed, tier):
        self.prop, self.kind, self.idx, self.seed, self.tier = prop, kind, idx, seed, tier
        key = zlib.crc32(("%s/%s" % (prop, kind)).encode())
        self.rng = np.random.default_rng([seed, key, idx])
        self.counts = collections.Counter()
        self.keys = set()
        self.fails = []
        self.samples = []
        self.maxima = {}
        self.cpu0 = time.process_time()

    # --- coverage -----------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] += int(n)

    def tired(self, seconds=12.0):
        """Whether the case has used that much CPU time and should come to its end."""
        if time.process_time() - self.cpu0 > seconds:
            self.counts["cut_short"] += 1
            return True
        return False

    def evaluated(self, n=1):
        self.counts["evaluations"] += int(n)

    def nontrivial(self, *key):
        """Register a distinct non-trivial case by what characterises it."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.keys.add(h)

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def track(self, name, value):
        """Keep the largest value seen of a measured error (evidence)."""
        value = float(value)
        if not np.isfinite(value):
            return
        if value > self.maxima.get(name, -1.0):
            self.maxima[name] = value

    # --- verdicts -----------------------------------------------------------
    def fail(self, mechanism, message, **data):
        if len(self.fails) < 12 and sum(f["mechanism"] == mechanism for f in self.fails) < 2:
            self.fails.append({"mechanism": mechanism, "message": str(message)[:2000], "data": jsonable(data)})

    def check(self, cond, mechanism, message="", **data):
        """One oracle decision."""
        self.counts["oracle_checks"] += 1
        if not bool(cond):
            self.fail(mechanism, message, **data)
            return False
        return True

    def close(self, a, b, tol, mechanism, message="", **data):
        """|a-b| <= tol elementwise (shape mismatch and NaN are failures)."""
        self.counts["oracle_checks"] += 1
        try:
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except Exception:
            self.fail(mechanism, "%s: not numeric: %r vs %r" % (message, a, b), **data)
            return False
        if a.shape != b.shape:
            self.fail(mechanism, "%s: shape %s instead of %s" % (message, a.shape, b.shape), **data)
            return False
        if a.size == 0:
            return True
        with np.errstate(invalid="ignore"):
            d = np.abs(a - b)
            same = (a == b) | ((d <= tol) & np.isfinite(d))
        if not np.all(same):
            with np.errstate(invalid="ignore"):
                d = np.abs(a - b)
            self.fail(mechanism, "%s: observed %s, expected %s (max difference %s, tolerance %s)" % (
                message, np.array2string(a, threshold=20), np.array2string(b, threshold=20), np.nanmax(np.where(same, 0, d)) if np.any(~np.isnan(d)) else "nan", np.max(tol)), **data)
            return False
        with np.errstate(invalid="ignore"):
            d = np.where(a == b, 0.0, np.abs(a - b))
        self.track("max_err:" + mechanism, np.max(d))
        return True


def in_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    out = []
    for fr in traceback.extract_tb(tb):
        fn = os.path.realpath(fr.filename)
        if "gym_anm" in fn.split(os.sep) and not fn.startswith(HERE + os.sep):
            out.append("%s:%s" % (os.path.basename(fn), fr.name))
    return out


def run_case(mod, prop, kind, idx, seed, tier):
    ctx = Ctx(prop, kind, idx, seed, tier)
    err = None

    def on_alarm(signum, frame):
        raise Hang()

    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, dict(CASE_CPU_S, **getattr(mod, "CASE_CPU_S", {}))[tier])
    cpu0 = time.process_time()
    np.random.seed(zlib.crc32(("%d/%s/%s/%d" % (seed, prop, kind, idx)).encode()))
    try:
        with np.errstate(all="ignore"):
            mod.run(ctx, kind)
    except Skip as e:
        ctx.count("skipped:" + str(e))
    except HarnessError as e:
        err = "HarnessError: %s" % e
    except Hang:
        ctx.fail("hang", "the case used more than the allowed CPU time")
    except (MemoryError, OSError) as e:
        frames = in_repo(e.__traceback__)
        if frames:
            ctx.fail("exception:" + type(e).__name__, "%s\n%s" % (e, traceback.format_exc()[-1500:]), frames=frames)
        else:
            err = traceback.format_exc()
    except Exception as e:
        frames = in_repo(e.__traceback__)
        where = "exception" if frames else "malformed-result"
        ctx.fail("%s:%s" % (where, type(e).__name__), "%s\n%s" % (e, traceback.format_exc()[-1800:]), frames=frames)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    ctx.track("case_cpu_s", time.process_time() - cpu0)
    return {
        "kind": kind,
        "idx": idx,
        "counts": dict(ctx.counts),
        "keys": ctx.keys,
        "fails": ctx.fails,
        "samples": ctx.samples,
        "maxima": ctx.maxima,
        "error": err,
    }


def _worker(prop, seed, tier, inq, outq):
    mod = load(prop)
    if getattr(mod, "LIMIT_MEMORY", True):
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    setup = getattr(mod, "worker_setup", None)
    try:
        if setup:
            setup()
        while True:
            item = inq.get()
            if item is None:
                break
            res = []
            for kind, idx in item:
                res.append(run_case(mod, prop, kind, idx, seed, tier))
            outq.put(res)
    except KeyboardInterrupt:
        pass
    except BaseException:
        outq.put([{"kind": "?", "idx": -1, "counts": {}, "keys": set(), "fails": [], "samples": [], "maxima": {}, "error": traceback.format_exc()}])
    finally:
        td = getattr(mod, "worker_teardown", None)
        if td:
            td()


def load(prop):
    return importlib.import_module("props." + prop.lower())


def import_code():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import gym_anm

    f = os.path.realpath(gym_anm.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("gym_anm imported from %s, not from %s" % (f, REPO))
    import logging

    logging.disable(logging.CRITICAL)


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d["findings"] if k["property"] == prop]


def execute(prop, mod, items, seed, tier, jobs, cap, t0, stop=12):
    """Run items on a pool; returns list of result dicts and whether all were run."""
    results = []
    jobs = min(jobs, getattr(mod, "JOBS", jobs), max(1, len(items)))
    chunk = getattr(mod, "CHUNK", 1)
    chunks = [items[i : i + chunk] for i in range(0, len(items), chunk)]
    known = {k["mechanism"] for k in known_findings(prop)}
    mpc = mp.get_context("fork")
    # A bounded queue, so that the wall-clock cap stops the run quickly.
    inq, outq = mpc.Queue(jobs * 2), mpc.Queue()
    procs = [mpc.Process(target=_worker, args=(prop, seed, tier, inq, outq), daemon=getattr(mod, "DAEMON", True)) for _ in range(jobs)]
    for p in procs:
        p.start()
    sent = done = 0
    complete = True
    nfail = 0
    last = time.time()
    hard = cap + getattr(mod, "GRACE", 60)
    while done < sent or sent < len(chunks):
        now = time.time()
        if sent < len(chunks) and (now - t0 > cap or nfail >= stop):
            complete = nfail >= stop
            chunks = chunks[:sent]
            continue
        while sent < len(chunks) and sent - done < jobs * 2:
            try:
                inq.put_nowait(chunks[sent])
                sent += 1
            except queue.Full:
                break
        try:
            res = outq.get(timeout=0.5)
        except queue.Empty:
            dead = [p for p in procs if not p.is_alive()]
            if dead:
                # A worker died (killed or crashed by native code).
                codes = [p.exitcode for p in dead]
                results.append({"kind": "?", "idx": -1, "counts": {}, "keys": set(), "fails": [], "samples": [], "maxima": {}, "error": "worker process died: exit codes %s" % codes})
                break
            if now - t0 > hard:
                results.append({"kind": "?", "idx": -1, "counts": {}, "keys": set(), "fails": [], "samples": [], "maxima": {}, "error": "case still running %ds after the time cap" % (hard - cap)})
                break
            continue
        done += 1
        for r in res:
            results.append(r)
            nfail += any(f["mechanism"] not in known for f in r["fails"])
    for _ in procs:
        try:
            inq.put_nowait(None)
        except queue.Full:
            pass
    end = time.time() + 10
    for p in procs:
        p.join(max(0.1, end - time.time()))
        if p.is_alive():
            p.terminate()
    return results, complete


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--cap", type=float, default=None)
    ap.add_argument("--only", help="run only this kind of cases (development)")
    ap.add_argument("--stop", type=int, default=12, help="end the run after so many failing cases")
    args = ap.parse_args(argv)
    t0 = time.time()
    prop = args.prop.upper()
    try:
        import_code()
        mod = load(prop)
    except HarnessError as e:
        print("HARNESS-ERROR: %s" % e)
        return 2
    except Exception:
        # The code under test cannot even be imported: nothing can be decided.
        traceback.print_exc()
        print("HARNESS-ERROR: import failed")
        return 2

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        items = [(rep["kind"], rep["idx"])]
        args.seed, args.tier = rep["seed"], rep["tier"]
        complete = True
        results = [run_case(mod, prop, rep["kind"], rep["idx"], rep["seed"], rep["tier"])]
    else:
        x = getattr(mod, "QUICK_X", 1) if args.tier == "quick" else 1
        plan = [(k, n * x) for k, n in mod.plan(args.tier) if not args.only or args.only == k]
        # Interleave the kinds, so that a time cap thins all of them out evenly.
        items = []
        for k, n in plan:
            items += [((i + 0.5) / n, j, k, i) for j, i in enumerate(range(n))]
        items = [(k, i) for _, _, k, i in sorted(items, key=lambda t: (t[0], t[2]))]
        cap = args.cap or getattr(mod, "CAP", {}).get(args.tier) or (QUICK_CAP if args.tier == "quick" else THOROUGH_CAP)
        results, complete = execute(prop, mod, items, args.seed, args.tier, args.jobs, cap, t0, args.stop)

    counts = collections.Counter()
    keys, samples, maxima, fails, errors = set(), [], {}, [], []
    for r in results:
        counts.update(r["counts"])
        counts["cases:" + r["kind"]] += 1
        keys |= r["keys"]
        samples += r["samples"]
        for k, v in r["maxima"].items():
            maxima[k] = max(maxima.get(k, -1.0), v)
        for f in r["fails"]:
            fails.append((r["kind"], r["idx"], f))
        if r["error"]:
            errors.append((r["kind"], r["idx"], r["error"]))

    # Known findings: matched by the exact mechanism (a call site / input label).
    known = {k["mechanism"]: k for k in known_findings(prop)}
    seen_known = set()
    new = []
    for kind, idx, f in fails:
        if f["mechanism"] in known:
            seen_known.add(f["mechanism"])
        else:
            new.append((kind, idx, f))
    for m in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[m]["what"]))

    rc = 0
    printed = set()
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    for kind, idx, f in new:
        rc = 1
        tag = f["mechanism"]
        if tag in printed or len(printed) >= 5:
            continue
        printed.add(tag)
        safe = re.sub(r"[^A-Za-z0-9_.-]+", "_", "%s-%s-%s-%d" % (prop, tag, kind, idx))[:120]
        path = os.path.join(HERE, "out", safe + ".json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "kind": kind, "idx": idx, "seed": args.seed, "tier": args.tier, **f}, fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  [%s] case %s/%d: %s" % (tag, kind, idx, f["message"][:1200]))

    for kind, idx, e in errors[:5]:
        print("HARNESS-ERROR in case %s/%s:\n%s" % (kind, idx, e))
    missing = []
    if not args.replay and not args.only:
        mins = dict(getattr(mod, "MIN", {}))
        for k, v in mins.items():
            have = len(keys) if k == "distinct_nontrivial" else counts.get(k, 0)
            if have < v:
                missing.append("%s=%d<%d" % (k, have, v))
    wall = time.time() - t0
    if rc == 0 and (errors or missing):
        rc = 2
        if missing:
            print("INCONCLUSIVE: too little was observed: %s" % ", ".join(missing))

    if not args.replay:
        cov = {
            "evaluations": int(counts.get("evaluations", 0)) or len(results),
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples[:4],
            "cases": len(results),
            "cases_planned": len(items),
            "plan_completed": bool(complete),
            "observed": {k: int(v) for k, v in sorted(counts.items())},
            "largest_measured": {k: float("%.3g" % v) for k, v in sorted(maxima.items())},
            "known_findings_seen": sorted(seen_known),
        }
        ev = {
            "property": prop,
            "tier": args.tier,
            "seed": args.seed,
            "level": getattr(mod, "LEVEL", "exploration"),
            "coverage": cov,
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
            "wall_s": round(wall, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))

    print(
        "%s %s seed=%d: %s; %d cases%s, %d evaluations, %d distinct non-trivial, %d oracle checks, %.1f s"
        % (
            prop,
            args.tier,
            args.seed,
            {0: "held on everything explored", 1: "VIOLATED", 2: "NO ANSWER"}[rc],
            len(results),
            "" if complete else " (of %d planned: time cap)" % len(items),
            counts.get("evaluations", 0),
            len(keys),
            counts.get("oracle_checks", 0),
            wall,
        )
    )
    return rc
