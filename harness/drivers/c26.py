"""The quadrics, error ellipse and figures of a planar fit."""
import re
from vlib import *
from clouds import exact_axes, rotation, planar
from attitude.orientation import Orientation
from attitude.orientation.grouped import GroupedOrientation
from attitude.display import plot_aligned, error_comparison
from attitude.display import error_ellipse
import matplotlib.pyplot as plt

TILT = N.array([[1, 0, 0], [0, .8, -.6], [0, .6, .8]])
NUMBER = r"(-?[0-9.]+(?:e[-+]?[0-9]+)?|-?nan|-?inf)"


def geo(o, s, n):
    return dict(A=enc(o.axes), s=enc(s), n=int(n))


def quadrics(T, o, s, n, level):
    kw = {} if level == 1 else dict(level=level)
    T.ev("quadric", level=enc(level), cov=enc(attr(o, "covariance_matrix")), own=enc(call(o.as_hyperbola)),
         own2=enc(call(o.as_hyperbola, rotated=False)), data=enc(call(o.as_hyperbola, rotated=True)),
         con=enc(call(o.as_conic, **kw)), **geo(o, s, n))


def seen(T, o, s, n, level, step):
    r = call(o.error_ellipse, **({} if level == 1 else dict(level=level)))
    if not isinstance(r, Err):
        r = N.array(r)[:, ::step]
    T.ev("ellipse", level=enc(level), figure=0, step=step, tp=enc(r), **geo(o, s, n))


def figure(T, o, s, n, step):
    f = call(error_ellipse, o)
    polys = [] if isinstance(f, Err) else [p.get_xy()[:1000] for p in f.axes[0].patches]
    for k in (1, 2, 3):
        xy = N.array(polys[k - 1]).T[:, ::step] if len(polys) == 3 else None
        T.ev("ellipse", level=enc(k), figure=1, step=step, tp=enc(xy), **geo(o, s, n))


def same(x):
    return [list(i.get_xydata()) for i in x]


def aligned(T, o, P, s, **kw):
    f = call(plot_aligned, o, **kw)
    P = N.array(P, dtype=float)
    ax = [] if isinstance(f, Err) else f.axes
    T.ev("panels", count=len(ax))
    for i, x in enumerate(ax[:3]):
        a, b = ((0, 1), (0, 2), (1, 2))[i]
        dots = [j for j in x.lines if j.get_linestyle() in ("None", "none", "", " ")]
        bars = [j for j in x.lines if j not in dots]
        color = None
        if kw.get("colormap") is None:
            pts = dots[0].get_xydata() if len(dots) == 1 else None
        else:
            sc = [j for j in x.collections if len(j.get_offsets()) and j.get_array() is not None]
            pts = sc[0].get_offsets() if len(sc) == 1 and not dots else None
            color = sc[0].get_array() if len(sc) == 1 else None
        m = [re.search(NUMBER + r" m, .*: *" + NUMBER, j.get_text()) for j in x.texts]
        m = [j for j in m if j]
        got = [float(m[0].group(1)), float(m[0].group(2))] if len(m) == 1 else None
        T.ev("panel", a=a + 1, b=b + 1, P=enc(P), A=enc(o.axes), s=enc(s), n=len(P), pts=enc(pts), color=enc(color),
             colored=int(kw.get("colormap") is not None), sparse=int(kw.get("sparse", True)),
             bars=[enc(j.get_xydata()) for j in bars], title=enc(got))
    if ax:
        m = [re.search(r"residual: *" + NUMBER, j.get_text()) for j in f.texts]
        m = [j for j in m if j]
        T.ev("largest", P=enc(P), A=enc(o.axes), n=len(P), got=enc(float(m[0].group(1)) if len(m) == 1 else None))
    plt.close("all")


def comparison(T, o, P, **kw):
    f = call(error_comparison, o, **kw)
    if isinstance(f, Err):
        T.ev("crash", error=f.name, detail=f.msg)
        return
    ax = f.axes[0]
    nom = [j.get_xydata() for j in ax.lines if j.get_label() == "Nominal fit"]
    dots = [j.get_xydata() for j in ax.lines if j.get_linestyle() in ("None", "none", "", " ")]
    T.ev("comparison", P=enc(N.array(P, dtype=float)), A=enc(o.axes), n=len(P), width=enc(kw["width"]), height=enc(kw.get("height")),
         nominal=enc(nom[0] if len(nom) == 1 else None), pts=enc(dots[0] if len(dots) == 1 else None),
         xlim=enc(ax.get_xlim()), ylim=enc(ax.get_ylim()), bands=sorted(p.get_label() for p in ax.patches))
    plt.close("all")


def run(T, cases, rng, tier):
    def one(ic):
        i, c = ic
        r = N.random.RandomState(1000003 + i)

        def go():
            F = N.zeros((3, 3))
            for k in range(3):
                F[k, c["perm"][k] - 1] = c["sign"][k]
            if c["turn"]:
                F = F.dot(TILT)
            s = N.array(c["s"], dtype=float)
            n = c["n"]
            o = Orientation(exact_axes(r, n, s, F) + (r.randn(3) * 5 if r.randint(2) else 0))
            for level in (1, 2, 3):
                quadrics(T, o, s, n, level)
                seen(T, o, s, n, level, 27)
        T.guard("mc%d" % i, go)
    T.parallel(list(enumerate(cases)), one)
    for i in range(120 if tier == "quick" else 600):
        def rand():
            s = N.sort(10 ** rng.uniform(-1, 2.5, 3))[::-1]
            s[2] = max(s[2], s[0] / 90)
            s[1] = max(s[1], s[2])
            n = int(rng.choice([4, 5, 12, 60, 400]))
            P = exact_axes(rng, n, s, rotation(rng)) + rng.randn(3) * 10 ** rng.uniform(-1, 3)
            if rng.randint(4) == 0 and n >= 12:
                k = int(rng.randint(5, n - 4))
                o = GroupedOrientation(Orientation(P[:k]), Orientation(P[k:]), same_plane=True)
            else:
                o = Orientation(P)
            for level in [1] + list(10 ** rng.uniform(-1, 1, 2)):
                quadrics(T, o, s, n, float(level) if level != 1 else 1)
                seen(T, o, s, n, float(level) if level != 1 else 1, 1 if i % 8 == 0 else 27)
            if i % 6 == 0:
                figure(T, o, s, n, 9)
        T.guard("rand%d" % i, rand)
    for i in range(24 if tier == "quick" else 120):
        def fig():
            n = [4, 7, 40, 150, 601][int(rng.randint(5))]
            s = N.sort(10 ** rng.uniform(0, 2.5, 3))[::-1]
            P = exact_axes(rng, n, s, rotation(rng)) + rng.randn(3) * 10 ** rng.uniform(-1, 3)
            o = Orientation(P)
            kw = [{}, {}, dict(sparse=False), dict(colormap="viridis")][int(rng.randint(4))]
            aligned(T, o, P, s, **kw)
            kw = dict(width=float(10 ** rng.uniform(-1, 3)))
            if rng.randint(2):
                kw["height"] = float(10 ** rng.uniform(-1, 3))
            if rng.randint(2):
                kw["aspect_ratio"] = 2.
            comparison(T, o, P, **kw)
        T.guard("figure%d" % i, fig)
    for n, sparse in ((10000, True), (10001, True), (20001, True), (10007, False)):
        def big():
            s = N.array([300., 120., 9.])
            P = exact_axes(rng, n, s, rotation(rng)) + 7
            aligned(T, Orientation(P), P, s, **({} if sparse else dict(sparse=False)))
        T.guard("big%d" % n, big)


if __name__ == "__main__":
    main(run)
