from vlib import *
from clouds import planar, rotation, catalogue
from attitude.orientation import Orientation

BASE = N.array([[0, 0, 0], [7, 1, 2], [-3, 4, 1], [5, -6, 0], [2, 3, -2], [-8, 2, 1]], dtype=float)
MATS = {
    "rx": N.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]]),
    "ry": N.array([[0, 0, 1], [0, 1, 0], [-1, 0, 0]]),
    "rz": N.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]),
    "mx": N.array([[-1, 0, 0], [0, 1, 0], [0, 0, 1]]),
}
SHIFT = {"tx": N.array([5., 0, 0]), "tyz": N.array([0, -3., 11])}


def observe(a, weights=None):
    o = call(Orientation, a) if weights is None else call(Orientation, a, weights=weights)
    if isinstance(o, Err):
        return {"built": o.name, "sdr": enc(o), "sv": enc(o), "axes": enc(o), "res": enc(o)}
    return dict(built="ok", center=enc(attr(o, "center")), axes=enc(attr(o, "axes")),
                sv=enc(attr(o, "singular_values")), normal=enc(attr(o, "normal")),
                hyp=enc(attr(o, "hyperbolic_axes")), ang=enc(call(o.angular_errors)),
                sdr=enc(call(o.strike_dip_rake)), eig=enc(attr(o, "eigenvalues")),
                explained=enc(attr(o, "explained_variance")),
                res=enc(call(o.residuals)) if len(a) <= 60 else enc(None))


def play(T, a, ops):
    fit = observe(a)
    T.ev("begin", fit=fit, mag=enc(N.abs(a).max())["v"])
    prev = fit
    for op, arg in ops:
        w = None
        if op == "translate":
            a = a + arg
            rec = dict(op=op, d=enc(arg))
        elif op == "scale":
            a = a * arg
            rec = dict(op=op, k=enc(arg))
        elif op == "turn":
            a = N.dot(a, N.array(arg, dtype=float).T)
            rec = dict(op=op, G=enc(arg))
        elif op == "permute":
            a = a[arg]
            rec = dict(op=op)
        elif op == "weights":
            w = N.ones(3) * arg
            rec = dict(op=op)
        fit = observe(a, w)
        T.ev("move", fit=fit, prev=prev, **rec)
        prev = fit


def model_ops(word, n):
    for o in word:
        if o in SHIFT:
            yield "translate", SHIFT[o]
        elif o.startswith("scale"):
            yield "scale", float(o[5:])
        elif o in MATS:
            yield "turn", MATS[o]
        elif o == "reverse":
            yield "permute", N.arange(n)[::-1]
        elif o == "rotate":
            yield "permute", (N.arange(n) + 1) % n
        elif o == "weights":
            yield "weights", 2.5


def random_ops(rng, n, length, ext):
    for _ in range(length):
        r = rng.randint(5)
        if r == 0:
            yield "translate", rng.randn(3) * ext * 10 ** rng.uniform(-1, 4)
        elif r == 1:
            yield "scale", float(10 ** rng.uniform(-3, 3))
        elif r == 2:
            G = rotation(rng)
            if rng.rand() < .3:
                G = G * [1, 1, -1]
            yield "turn", G
        elif r == 3:
            yield "permute", rng.permutation(n)
        else:
            yield "weights", float(10 ** rng.uniform(-2, 2))


def run(T, cases, rng, tier):
    for i, c in enumerate(cases):
        T.guard("word%d" % i, play, T, BASE, model_ops(c["word"], len(BASE)))
    for name, a in catalogue(rng, tier):
        a = N.array(a, dtype=float)
        if name in ("collinear", "isotropic") or len(a) > 6000:
            continue
        ext = N.abs(a - a.mean(axis=0)).max()
        T.guard("cat-" + name, play, T, a, random_ops(rng, len(a), 5, ext))
    for i in range(60 if tier == "quick" else 600):
        L = 10 ** N.array([rng.uniform(1, 2), rng.uniform(.3, .9), rng.uniform(-2, .1)])
        a = planar(rng, rng.choice([4, 6, 10, 30, 60, 100]), L)
        T.guard("rand%d" % i, play, T, a, random_ops(rng, len(a), 6, L[0]))


if __name__ == "__main__":
    main(run)
