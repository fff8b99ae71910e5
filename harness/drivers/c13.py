import json
import re
import subprocess

import IPython.display
import IPython.core.display_functions as _df

SHOWN = []


def _capture(*objs, **kw):
    SHOWN.extend(objs)


IPython.display.display = _capture
_df.display = _capture

from vlib import *  # noqa: E402
from clouds import catalogue, planar  # noqa: E402
from attitude.orientation import Orientation, ReconstructedPlane  # noqa: E402
from attitude.orientation.grouped import GroupedOrientation  # noqa: E402
from attitude.display import plot_interactive  # noqa: E402

PAGE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "page.js")


def tag(x):
    if x is None:
        return {"t": "z"}
    if isinstance(x, bool):
        return {"t": "b", "n": int(x)}
    if isinstance(x, (int, float)):
        return {"t": "n", "b": bits(float(x))}
    if isinstance(x, str):
        return {"t": "s", "c": text(x)}
    if isinstance(x, (list, tuple)):
        return {"t": "a", "v": [tag(y) for y in x]}
    ks = sorted(x, key=text)
    return {"t": "o", "k": [text(k) for k in ks], "v": [tag(x[k]) for k in ks]}


def html_of(x):
    if isinstance(x, str):
        return x
    h = getattr(x, "_repr_html_", None)
    h = h() if h else None
    return h if isinstance(h, str) else str(getattr(x, "data", ""))


def run(T, cases, rng, tier):
    pages = []

    def show(arg, mappings):
        del SHOWN[:]
        r = call(plot_interactive, arg)
        pages.append(dict(sc=T.sc, raised=1 if isinstance(r, Err) else 0, shown=[html_of(x) for x in SHOWN],
                          want=tag(json.loads(json.dumps(mappings)))))

    fit = Orientation(planar(rng, 5))
    other = ReconstructedPlane(20, 30, 10, 4, 1)
    for i, c in enumerate(cases):
        s = "".join(map(chr, c["text"]))

        def one():
            k = i % 5
            d = {"name": s, "dip": 3.5}
            if k == 0:
                show([d], [d])
            elif k == 1:
                show(d, [d])
            elif k == 2:
                show(({s: [1, None, True, s]}, d), [{s: [1, None, True, s]}, d])
            elif k == 3:
                m = other.to_mapping(name=s)
                show([m, {"nested": {"x": {s: -0.0}}}], [m, {"nested": {"x": {s: -0.0}}}])
            else:
                show([d, dict(d, uid=s + s)], [d, dict(d, uid=s + s)])
        T.guard("mc%d" % i, one)
    for name, a in catalogue(rng, tier):
        if len(a) > 60 or name == "collinear":
            continue
        a = N.array(a, dtype=float)

        def cat():
            o = Orientation(a)
            show(o, [o.to_mapping()])
            g = GroupedOrientation(o, fit, same_plane=False)
            show([o, g], [o.to_mapping(), g.to_mapping()])
            show((g, other, {"a": 1}), [g.to_mapping(), other.to_mapping(), {"a": 1}])
        T.guard("cat-" + name, cat)
    def many(n):
        ds = [{"uid": "u%d" % j, "dip": j / 7.} for j in range(n)]
        show(ds if n % 2 else tuple(ds), ds)
        os_ = [ReconstructedPlane(j, 20 + j, j, 5, 1) for j in range(n)]
        show(os_, [o.to_mapping() for o in os_])
        mixed = [x for p in zip(ds, os_) for x in p]
        show(mixed, [x if isinstance(x, dict) else x.to_mapping() for x in mixed])
    for n in (list(range(1, 13)) + [25] if tier == "quick" else range(1, 60)):
        T.guard("many%d" % n, many, n)
    T.guard("none", lambda: show([], []))

    def again():
        ds = [{"name": "again", "dip": 1.5}]
        for _ in range(3):
            show(ds, ds)
            show(fit, [fit.to_mapping()])
            show([fit, other], [fit.to_mapping(), other.to_mapping()])
            show([], [])
    T.guard("again", again)
    # long texts and numbers at the edge of what JSON can say
    for i, x in enumerate(("x" * 20000, "<" * 3000, "\\" * 999, "&lt;&amp;" * 50, "${a}`" * 20, [1e308, 5e-324, -0.0, 2**53, 1 / 3.],
                           [[[[]]], {}, {"": ""}], {"__proto__": 1, "constructor": None, "length": 3})):
        T.guard("edge%d" % i, lambda: show([{"name": x}, {"z": [x]}], [{"name": x}, {"z": [x]}]))

    def library():
        import hashlib
        from attitude.display import init_notebook_mode
        with open("/repo/frontend/packages/attitude/lib/attitude-ui.js", encoding="utf-8") as f:
            want = hashlib.sha256(f.read().encode("utf-8")).hexdigest()
        for k in range(3):
            del SHOWN[:]
            r = call(init_notebook_mode)
            js = [str(getattr(x, "data", "")) for x in SHOWN]
            T.ev("library", k=k, raised=int(isinstance(r, Err)), want=text(want),
                 got=[text(hashlib.sha256(x.encode("utf-8")).hexdigest()) for x in js],
                 kinds=[text(type(x).__name__) for x in SHOWN])
    T.guard("library", library)

    sent = []
    for p in pages:
        h = p["shown"][0] if len(p["shown"]) == 1 else ""
        m = re.search(r"<script[^>]*>(.*?)</script", h, re.S | re.I)
        p["html"], p["script"] = text(h), text(m.group(1) if m else "")
        sent.append(json.dumps({"script": p["script"]}))
    r = subprocess.run(["node", PAGE], input="\n".join(sent) + "\n", stdout=subprocess.PIPE, text=True, timeout=500)
    outs = r.stdout.rstrip("\n").split("\n")
    if len(outs) != len(pages):
        raise SystemExit("node: %d pages, %d answers" % (len(pages), len(outs)))
    seen = set()
    for p, o in zip(pages, outs):
        o = json.loads(o)
        if not T.scenario(p["sc"]):
            continue
        sel = tuple(o["sel"])
        T.ev("page", raised=p["raised"], shown=len(p["shown"]), html=p["html"], script=p["script"], ok=o["ok"],
             calls=o["calls"], sel=o["sel"], data=o["data"], want=p["want"], fresh=0 if sel in seen else 1)
        seen.add(sel)


if __name__ == "__main__":
    main(run)
