"""Hyperbolic error bands and their drawings."""
from vlib import *
from clouds import planar, rotation
from attitude.display import hyperbola as H
from attitude.display import parametric as P
from attitude.display.pca_aligned import plot_aligned
from attitude.display.error_comparison import error_comparison
from attitude.error.axes import sampling_axes, noise_axes
from attitude.error.ellipse import ellipse
from attitude.orientation import Orientation
from matplotlib.figure import Figure
import matplotlib.pyplot as plt

DIM3 = N.array([[0., 1, 0], [0, 0, 1]])


def geo(h, x, axes=None, transformation=None, means=None, reverse=False, **kw):
    d = len(h)
    if axes is None:
        axes = DIM3 if d == 3 else N.identity(2)
    return dict(h=enc(h), x=enc(x), axes=enc(axes), T=enc(N.identity(d) if transformation is None else transformation),
                means=enc([0, 0] if means is None else means), rev=int(bool(reverse)))


def band(T, h, x, **kw):
    keep = [N.array(i, copy=True) for i in (h, x)]
    r = call(H.hyperbolic_errors, h, x, **kw)
    if isinstance(r, Err):
        r = [r] * 3
    T.ev("band", nom=enc(r[0]), bot=enc(r[1]), top=enc(r[2]), **geo(keep[0], keep[1], **kw))


def history(T, hist, datasets):
    """datasets[d] = (h, x, kw)"""
    ax = Figure().add_subplot(111)
    err, cur = None, None
    for op, d in hist:
        if op == "new":
            cur = datasets[d] if d else None
            err = H.HyperbolicErrors(*cur[:2], **cur[2]) if d else H.HyperbolicErrors()
        elif op == "plot":
            err.plot(ax, fc="#cccccc", alpha=.3)
        elif op == "update":
            cur = datasets[d]
            err.update_data(*cur[:2], **cur[2])
        elif op == "nominal":
            err.plot_nominal(ax, "-")
            T.ev("line", xy=enc(ax.lines[-1].get_xydata().T), **geo(cur[0], cur[1], **cur[2]))
        if ax.patches and cur is not None:
            T.ev("drawn", xy=enc(ax.patches[-1].get_xy()), areas=len(ax.patches), **geo(cur[0], cur[1], **cur[2]))


def figures(T, o):
    A = o.rotated()
    f = plot_aligned(o)
    h = sampling_axes(o)
    for a, ax in ((0, f.axes[1]), (1, f.axes[2])):
        v = N.zeros((2, 3))
        v[0, a], v[1, 2] = 1, 1
        xy = ax.patches[0].get_xy() if len(ax.patches) == 1 else None
        T.ev("figure", xy=enc(xy), range=enc([A[:, 0].min(), A[:, 0].max()]), **geo(h, [0.], axes=v))
    plt.close("all")
    w = 40.
    f = error_comparison(o, width=w)
    by = {p.get_label(): p.get_xy() for p in f.axes[0].patches}
    for label, h in (("Sampling-based", sampling_axes(o)), ("Noise-based", noise_axes(o))):
        T.ev("figure", xy=enc(by.get(label)), range=enc([-w / 2, w / 2]), **geo(h, [0.]))
    plt.close("all")


def run(T, cases, rng, tier):
    xs = [N.linspace(-20, 20, 9), N.array([0.]), N.array([-3, 0, 1, 7]), N.linspace(5, -5, 4)]
    means = [None, N.array([3., -2.]), N.array([0, 0]), N.array([1e3, .25])]
    sets = [None, (N.array([4., 2., .1]), xs[0], {}),
            (N.array([9., 1., .5]), xs[2], dict(means=means[1], axes=N.array([[.8, 0, .6], [-.6, 0, .8]]))),
            (N.array([2., 2., 1.]), xs[3], dict(reverse=True, transformation=N.array([[0., 1, 0], [0, 0, 1], [1, 0, 0]]),
                                                axes=N.array([[0, .8, -.6], [0, .6, .8]])))]
    for i, c in enumerate(cases):
        if len(c["hist"]) == 1:
            def one():
                kw = dict(axes=N.array(c["view"]) / 5.)
                if c["frame"] != [[1, 0, 0], [0, 1, 0], [0, 0, 1]] or i % 2:
                    kw["transformation"] = N.array(c["frame"], dtype=float)
                if c["rev"]:
                    kw["reverse"] = True
                m = means[i % 4]
                if m is not None:
                    kw["means"] = m
                h = N.array(c["h"], dtype=float if i % 3 else int)
                band(T, h, xs[(i // 4) % 4], **kw)
        else:
            def one():
                history(T, c["hist"], sets)
        T.guard("mc%d" % i, one)
    for i in range(300 if tier == "quick" else 2000):
        def one():
            R = rotation(rng)
            kw = {}
            a = rotation(rng)[:2]
            mode = i % 5
            if mode == 1:
                a[0, 2] = 0
            if mode == 2:
                a = N.array([[N.cos(i), N.sin(i), 0], [0, 0, 1]])
            if mode == 3:
                t = 10 ** rng.uniform(-9, -1)
                a = N.array([[N.cos(t), 0, N.sin(t)], [-N.sin(t), 0, N.cos(t)]])
            if mode == 4:     # looking nearly straight up or down
                t, b = N.pi / 2 - 10 ** rng.uniform(-7, -1), rng.rand() * 7
                d = N.array([N.cos(b), N.sin(b), 0])
                sg = rng.choice([-1, 1])
                a = N.array([N.cos(t) * d + [0, 0, sg * N.sin(t)], -sg * N.sin(t) * d + [0, 0, N.cos(t)]])
            if mode == 1:
                a[0] /= N.linalg.norm(a[0])
                a[1] -= N.dot(a[0], a[1]) * a[0]
                a[1] /= N.linalg.norm(a[1])
            if rng.rand() < .85:
                kw["axes"] = a
            if rng.rand() < .6:
                kw["transformation"] = R * rng.choice([-1, 1], 3)[:, None]
            if rng.rand() < .5:
                kw["means"] = rng.randn(2) * 10 ** rng.uniform(-2, 4)
            if rng.rand() < .4:
                kw["reverse"] = bool(rng.randint(2))
            h = N.sort(10 ** rng.uniform(-6, 6, 3))[::-1]
            if rng.rand() < .2:
                h = rng.permutation(h)
            x = rng.randn(rng.randint(1, 12)) * 10 ** rng.uniform(-3, 5)
            band(T, h, x, **kw)
        T.guard("rand%d" % i, one)
    for i, n in enumerate((257, 1025, 4097) if tier == "quick" else (101, 257, 513, 1025, 2049, 4097, 10001, 70001)):
        def long():
            t = rng.uniform(-1.4, 1.4)
            a = N.array([[N.cos(t), 0, N.sin(t)], [-N.sin(t), 0, N.cos(t)]])
            h = N.sort(10 ** rng.uniform(-2, 2, 3))[::-1]
            band(T, h, N.linspace(-30, 50, n), axes=a, means=rng.randn(2), reverse=bool(i % 2))
            history(T, [["new", 1], ["plot", 0], ["update", 0], ["update", 1]],
                    [(h, N.linspace(-3, 7, n), dict(axes=a)), sets[2]])
        T.guard("long%d" % n, long)
    for i in range(40):
        def two():
            h = 10 ** rng.uniform(-4, 4, 2)
            x = rng.randn(6) * 10 ** rng.uniform(-2, 3)
            t = rng.uniform(-1.5, 1.5)
            kw = {} if i % 2 else dict(axes=N.array([[N.cos(t), N.sin(t)], [-N.sin(t), N.cos(t)]]))
            if i % 3 == 0:
                kw["means"] = rng.randn(2)
            band(T, h, x, **kw)
            T.ev("values", h=enc(h), x=enc(x), out=enc(call(H.hyperbola_values, h, x)))
            for n in (7, 20):
                a, c = 10 ** rng.uniform(-2, 2, 2), rng.randn(2)
                T.ev("curve", kind="ellipse", up=1, n=n, a=enc(a), c=enc(c), xy=enc(call(P.ellipse, a, center=c, n=n)))
                for up in (0, 1):
                    T.ev("curve", kind="hyperbola", up=up, n=n, a=enc(a), c=enc([0, 0]), xy=enc(call(P.hyperbola, a, n=n, opens_up=bool(up))))
                    T.ev("curve", kind="hyperbola", up=up, n=n, a=enc(a), c=enc(c), xy=enc(call(P.hyperbola, a, n=n, center=c, **({} if up else dict(opens_up=False)))))
            T.ev("curve", kind="ellipse", up=1, n=500, a=enc(a), c=enc([0, 0]), xy=enc(call(P.ellipse, a)))
            T.ev("curve", kind="hyperbola", up=1, n=500, a=enc(a), c=enc([0, 0]), xy=enc(call(P.hyperbola, a)))
        T.guard("plane%d" % i, two)
    for i in range(3 if tier == "quick" else 12):
        T.guard("figures%d" % i, lambda: figures(T, Orientation(planar(rng, 12 + 9 * i, (10, 6, .4)))))


if __name__ == "__main__":
    main(run)
