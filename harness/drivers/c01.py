from vlib import *
from clouds import catalogue, planar
from attitude.orientation import Orientation, PCAOrientation


def log_fit(T, a, rel="1e-9", full=True, w="none"):
    o = call(Orientation, a)
    if isinstance(o, Err):
        T.ev("fit", built=o.name, rel=rel, cloud=enc(N.array(a, dtype=float)), w=w, full=0)
        return
    get = dict(center=lambda: attr(o, "center"), axes=lambda: attr(o, "axes"), sv=lambda: attr(o, "singular_values"),
               normal=lambda: attr(o, "normal"), arr=lambda: attr(o, "centered_array"), eig=lambda: attr(o, "eigenvalues"),
               sigma=lambda: attr(o, "sigma"), rot=lambda: call(o.rotated), res=lambda: call(o.residuals),
               explained=lambda: attr(o, "explained_variance"), U=lambda: attr(o, "U") if full else None)
    T.ev("fit", built="ok", rel=rel, cloud=enc(N.array(a, dtype=float)), w=w, full=1 if full else 0, **answers(get))


ORDER = N.random.RandomState(5)


def answers(get):
    """The answers to all queries, asked in a random order, sometimes after a first round of them."""
    ks = sorted(get)
    for k in ORDER.permutation(ks) if ORDER.randint(2) else ():
        get[k]()
    out = dict((k, enc(get[k]())) for k in ORDER.permutation(ks))
    return dict((str(k), v) for k, v in out.items())


def run(T, cases, rng, tier):
    for i, c in enumerate(cases):
        # model-generated integer clouds, as floats and as integers
        T.guard("mc%d" % i, log_fit, T, N.array(c["pts"], dtype=float if i % 2 else int))
    for name, a in catalogue(rng, tier):
        T.guard(name, log_fit, T, a)
    for i in range(3):
        T.guard("float32-%d" % i, log_fit, T, planar(rng, 30).astype("float32"), rel="1e-4")
    for i in range(60 if tier == "quick" else 300):
        L = N.sort(10 ** rng.uniform(-1, 2, 3))[::-1]
        a = planar(rng, rng.randint(5, 60), L, center=rng.randn(3) * 20)
        w = 10 ** rng.uniform(-1.5, 1.5, 3) if i % 3 else N.ones(3) * rng.uniform(.2, 5)

        def weighted():
            o = call(Orientation, a, weights=w)
            if isinstance(o, Err):
                return T.ev("weighted", built=o.name, rel="1e-9", cloud=enc(a), weights=enc(w))
            get = dict(center=lambda: attr(o, "center"), axes=lambda: attr(o, "axes"), sv=lambda: attr(o, "singular_values"),
                       normal=lambda: attr(o, "normal"), arr=lambda: attr(o, "centered_array"),
                       eig=lambda: attr(o, "eigenvalues"), rot=lambda: call(o.rotated), res=lambda: call(o.residuals))
            T.ev("weighted", built="ok", rel="1e-9", cloud=enc(a), weights=enc(w), **answers(get))
        T.guard("weights%d" % i, weighted)
    for n in (1, 2):
        for k in range(3):
            def few():
                o = call(Orientation, rng.randn(n, 3) * 10 + k * 100)
                T.ev("few", built=o.name if isinstance(o, Err) else "ok")
            T.guard("few%d-%d" % (n, k), few)


if __name__ == "__main__":
    main(run)
