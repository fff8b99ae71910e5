"""Trace recording for the conformance drivers.

A driver calls the public API of /repo and logs what went in and what came
out.  It holds no oracle: every judgement is made by the TLA+ specification
that validates the trace.  Reals are logged as the two signed 32-bit halves
of the IEEE-754 double.
"""
import json
import os
import sys
import warnings

import numpy as N

warnings.simplefilter("ignore")
N.seterr(all="ignore")


class Err(object):
    """An exception raised by the code under test."""

    def __init__(self, e):
        self.name = type(e).__name__
        self.msg = str(e)[:200]


def call(f, *args, **kw):
    try:
        return f(*args, **kw)
    except Exception as e:  # recorded and judged by the specification
        return Err(e)


def attr(o, name):
    return call(lambda: getattr(o, name))


def bits(a):
    a = N.ascontiguousarray(a, dtype=">f8")
    return N.frombuffer(a.tobytes(), dtype=">i4").astype(int).tolist()


def enc(x):
    """Encode any result as {s: shape, v: bits}."""
    if isinstance(x, Err):
        return {"s": [-1], "v": [], "e": x.name}
    if x is None:
        return {"s": [-2], "v": []}
    try:
        if isinstance(x, N.ma.MaskedArray):
            x = x.astype(float).filled(N.nan)
        a = N.asarray(x)
        if a.dtype.kind not in "fiub":
            a = N.array(x, dtype=float)
        a = N.asarray(a, dtype=float)
    except Exception:
        return {"s": [-3], "v": []}
    return {"s": list(a.shape), "v": bits(a)}


def text(x):
    """A string as a sequence of code points (-1 alone: not a string)."""
    if not isinstance(x, str):
        return [-1]
    return [ord(c) for c in x]


class Tracer(object):
    def __init__(self, path):
        self.path = path
        self.f = open(path, "w")
        self.sc = "none"
        self.lines = 0
        self.kinds = {}
        self.only = os.environ.get("VERIF_ONLY")

    def scenario(self, name):
        """Start a scenario; False if the replay filter excludes it."""
        self.sc = name
        return self.only is None or self.only == name

    def ev(self, event, /, **fields):
        if self.only is not None and self.only != self.sc:
            return
        rec = {"ev": event, "sc": self.sc}
        rec.update(fields)
        self.f.write(json.dumps(rec, allow_nan=False) + "\n")
        self.lines += 1
        self.kinds[event] = self.kinds.get(event, 0) + 1

    def guard(self, name, f, *a, **kw):
        """Run one scenario; an exception that escapes from the code under
        test becomes a "crash" event, which no specification accepts."""
        if not self.scenario(name):
            return None
        try:
            return f(*a, **kw)
        except Exception as e:
            import traceback
            tb = traceback.format_exc()[-1500:]
            self.ev("crash", error=type(e).__name__, detail=tb)
            return None

    def parallel(self, items, one, workers=None):
        """Run one(item) for all items in forked workers; events keep the
        order of the items within a worker."""
        k = workers or min(8, os.cpu_count() or 1)
        items = list(items)
        if k < 2 or len(items) < 50 or self.only is not None:
            for x in items:
                one(x)
            return
        self.f.flush()
        pids = []
        for w in range(k):
            path = "%s.%d" % (self.path, w)
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    self.f = open(path, "w")
                    self.lines, self.kinds = 0, {}
                    for x in items[w::k]:
                        one(x)
                    self.f.close()
                    with open(path + ".kinds", "w") as f:
                        json.dump([self.lines, self.kinds], f)
                    rc = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    sys.stderr.flush()
                finally:
                    os._exit(rc)
            pids.append((pid, path))
        bad = 0
        for pid, path in pids:
            _, st = os.waitpid(pid, 0)
            bad = bad or st
        if bad:
            raise SystemExit("a worker died")
        for pid, path in pids:
            with open(path) as f:
                for line in f:
                    self.f.write(line)
            with open(path + ".kinds") as f:
                n, kinds = json.load(f)
            self.lines += n
            for c, v in kinds.items():
                self.kinds[c] = self.kinds.get(c, 0) + v
            os.remove(path)
            os.remove(path + ".kinds")

    def close(self):
        self.f.close()


def main(run):
    """Entry point of a driver: argv = cases-file trace-file meta-file."""
    cases_path, trace_path, meta_path = sys.argv[1:4]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    import attitude
    if not attitude.__file__.startswith("/repo/"):
        raise SystemExit("attitude imported from " + attitude.__file__)
    cases = []
    if os.path.exists(cases_path):
        with open(cases_path) as f:
            cases = [json.loads(x) for x in f if x.strip()]
    T = Tracer(trace_path)
    meta = run(T, cases, N.random.RandomState(seed % (2**32)), tier) or {}
    T.close()
    meta["events"] = T.lines
    meta["kinds"] = T.kinds
    with open(meta_path, "w") as f:
        json.dump(meta, f)
