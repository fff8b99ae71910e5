from vlib import *
from clouds import catalogue, dipping, exact_axes
from attitude.orientation import Orientation, LinearOrientation
from attitude.orientation.grouped import GroupedOrientation

NONE = {"s": [-9], "v": []}


def log(T, o, want=NONE, a1=NONE):
    if isinstance(o, Err):
        return T.ev("sd", built=o.name)
    T.ev("sd", built="ok", axes=enc(attr(o, "axes")), normal=enc(attr(o, "normal")),
         sd=enc(call(o.strike_dip)), sdr=enc(call(o.strike_dip_rake)), dd=enc(call(o.dip_direction)),
         rake=enc(call(o.rake)), dipdr=enc(attr(o, "dip_dr")), grad=enc(call(o.gradient)), want=want, a1=a1)


def run(T, cases, rng, tier):
    q = None
    for i, c in enumerate(cases):
        V = N.array([c["a1"], c["a2"], c["n"]], dtype=float) * N.array(c["sg"])[:, None]
        V /= N.linalg.norm(V, axis=1)[:, None]
        # 1: a saved fit with these axes
        arr = N.vstack([3 * V[0], -3 * V[0], 2 * V[1], -2 * V[1], V[2] / 4, -V[2] / 4]) + [1, 2, 3]
        T.guard("saved%d" % i, lambda: log(T, call(Orientation, arr, axes=V * [9., 5., 1.]),
                                           enc(c["n"]), enc(c["a1"])))
        # 2: an exact integer cloud with these axes
        if c["sg"] == [1, 1, 1]:
            a1, a2, n = (N.array(c[k]) for k in ("a1", "a2", "n"))
            l1, l2, l3 = (N.linalg.norm(x) for x in (a1, a2, n))
            k2 = max(1, int(round(l3 / l2)))
            k1 = int(N.ceil(3 * k2 * l2 / l1)) + 1
            k2 = max(k2, int(N.ceil(1.5 * l3 / l2)))
            k1 = max(k1, int(N.ceil(1.5 * k2 * l2 / l1)))
            pts = N.vstack([k1 * a1, -k1 * a1, k2 * a2, -k2 * a2, n, -n])
            T.guard("cloud%d" % i, lambda: log(T, call(Orientation, pts + [10, -20, 5]),
                                               enc(c["n"]), enc(c["a1"])))
            flat = pts[:4]
            T.guard("flat%d" % i, lambda: log(T, call(Orientation, flat * 1.), enc(c["n"]), enc(c["a1"])))
            if c["n"][2] != 0:
                def lin(layout):
                    a = (flat + [4, 7, -3]).astype(float)
                    o = call(LinearOrientation, a if layout == 0 else a.T)
                    if isinstance(o, Err):
                        return T.ev("linear", coef=enc(o), sd=enc(o), dd=enc(o), want=enc(c["n"]))
                    n = N.array(c["n"]) * (1 if c["n"][2] > 0 else -1)
                    T.ev("linear", coef=enc(call(lambda: o.fit.coefficients)), sd=enc(call(o.strike_dip)),
                         dd=enc(call(o.dip_direction)), want=enc(n))
                T.guard("linear%d" % i, lin, 0)
                T.guard("linearT%d" % i, lin, 1)
    for name, a in catalogue(rng, tier):
        T.guard("cat-" + name, lambda: log(T, call(Orientation, a)))
    step = 15 if tier == "quick" else 5
    for s in list(range(0, 360, step)) + [0.001, 89.999, 90.001, 179.999, 180.001, 269.999, 270.001, 359.999]:
        for d in (0.01, 1, 30, 45, 60, 88, 89.99):
            t = N.radians([s, d])
            n = [N.cos(t[0]) * N.sin(t[1]), -N.sin(t[0]) * N.sin(t[1]), N.cos(t[1])]
            def one():
                a = dipping(rng, 12, s, d, (9., 4., 0.))
                log(T, call(Orientation, a), enc(n) if d >= 1 else NONE)
            T.guard("grid-%s-%s" % (s, d), one)
    # nearly vertical and nearly horizontal planes, their axes either way up
    for i, s in enumerate(list(range(0, 360, 45 if tier == "quick" else 15)) + [13.7, 222.2]):
        for k in range(1, 13):
            for flat in (0, 1):
                def steep():
                    d = 10. ** -k if flat else 90 - 10. ** -k
                    t = N.radians([s, d])
                    n = N.array([N.cos(t[0]) * N.sin(t[1]), -N.sin(t[0]) * N.sin(t[1]), N.cos(t[1])])
                    u = N.array([N.sin(t[0]), N.cos(t[0]), 0])
                    w = N.cross(u, n)
                    b = rng.uniform(0, 2 * N.pi)
                    for sg in (1, -1):
                        V = N.array([N.cos(b) * u + N.sin(b) * w, N.cos(b) * w - N.sin(b) * u, sg * n])
                        arr = N.vstack([3 * V[0], -3 * V[0], 2 * V[1], -2 * V[1], V[2] / 4, -V[2] / 4])
                        known = enc(n) if k < 8 or not flat else NONE
                        log(T, call(Orientation, arr, axes=V * [9., 5., 1.]), known)
                        log(T, call(Orientation, arr[[0, 1, 2, 3]] * sg), known)
                T.guard("steep-%s-%d-%d" % (s, k, flat), steep)
    # linear fits of nearly level and of very steep planes
    for i in range(80 if tier == "quick" else 400):
        def slope():
            s, g = rng.uniform(0, 2 * N.pi) if i % 4 else (i // 4) * N.pi / 4, 10. ** (i % 10 - 5)
            n = N.array([g * N.cos(s), g * N.sin(s), 1])
            xy = rng.randint(-9, 10, (12, 2)) * 1.
            a = N.column_stack([xy, -xy.dot(n[:2])])
            o = LinearOrientation(a if i % 2 else a.T)
            T.ev("linear", coef=enc(call(lambda: o.fit.coefficients)), sd=enc(call(o.strike_dip)),
                 dd=enc(call(o.dip_direction)), want=enc(n))
        T.guard("slope%d" % i, slope)
    for i in range(20):
        def grouped():
            s, d = rng.uniform(0, 360), rng.uniform(1, 89)
            o = [Orientation(dipping(rng, rng.randint(5, 20), s, d, (9., 4., .01), center=rng.randn(3) * 50))
                 for _ in range(3)]
            log(T, call(GroupedOrientation, *o, same_plane=bool(i % 2)))
        T.guard("group%d" % i, grouped)


if __name__ == "__main__":
    main(run)
