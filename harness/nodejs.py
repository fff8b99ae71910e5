"""Asking the viewer's JavaScript: node processes answer a list of requests."""
import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))


def ask(script, requests, timeout=500, workers=6):
    """requests: list of (function, args); replies in the same order.  A reply
    is a dict; {"error": ...} if the function threw."""
    k = min(workers, len(requests) // 40)
    if k > 1:
        n = -(-len(requests) // k)
        with ThreadPoolExecutor(k) as ex:
            parts = ex.map(lambda i: ask(script, requests[i:i + n], timeout, 1), range(0, len(requests), n))
        return [r for p in parts for r in p]
    text = "\n".join(json.dumps({"f": f, "args": list(a)}) for f, a in requests) + "\n"
    r = subprocess.run(["node", os.path.join(HERE, "js", script)], input=text, text=True, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise RuntimeError("viewer: " + r.stderr[-1500:])
    out = [json.loads(l) for l in r.stdout.splitlines()]
    if len(out) != len(requests):
        raise RuntimeError("viewer: %d replies to %d requests" % (len(out), len(requests)))
    return out


class Batch(object):
    """Requests with what to do with each reply, by scenario."""

    def __init__(self, T, script):
        self.T, self.script, self.jobs = T, script, []

    def add(self, sc, then, f, *args):
        if self.T.only is None or self.T.only == sc:
            self.jobs.append((sc, then, f, args))

    def run(self):
        if not self.jobs:
            return
        try:
            replies = ask(self.script, [(f, a) for _, _, f, a in self.jobs])
        except RuntimeError as e:
            self.T.scenario(self.jobs[0][0])
            self.T.ev("crash", error="viewer", detail=str(e))
            return
        for (sc, then, f, args), r in zip(self.jobs, replies):
            self.T.scenario(sc)
            if "error" in r:
                self.T.ev("crash", error="throws", detail="%s: %s" % (f, r["error"]))
            else:
                then(r)
