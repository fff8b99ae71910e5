from vlib import *
from clouds import catalogue, exact_axes, planar
from attitude.orientation import Orientation
from attitude.orientation.grouped import GroupedOrientation


def fit(o):
    if isinstance(o, Err):
        return {"built": o.name}
    return dict(built="ok", center=enc(attr(o, "center")), axes=enc(attr(o, "axes")), sv=enc(attr(o, "singular_values")),
                normal=enc(attr(o, "normal")), eig=enc(attr(o, "eigenvalues")), sigma=enc(attr(o, "sigma")),
                hyp=enc(attr(o, "hyperbolic_axes")), ang=enc(call(o.angular_errors)),
                sdr=enc(call(o.strike_dip_rake)), explained=enc(attr(o, "explained_variance")),
                rot=enc(call(o.rotated)), res=enc(call(o.residuals)), U=enc(attr(o, "U")))


QUERY = {
    "U": lambda o: o.U, "errors": lambda o: o.angular_errors(), "residuals": lambda o: o.residuals(),
    "hash": lambda o: o.hash, "mapping": lambda o: o.to_mapping(), "rotated": lambda o: o.rotated(),
}


def chain(T, a, hist):
    o = Orientation(a)
    T.ev("begin", cloud=enc(a), fit=fit(Orientation(a)))
    saved = None
    for step in hist:
        if step == "save":
            saved = o.principal_axes
            T.ev("save", axes=enc(saved))
            saved = N.array(saved.tolist())        # as it comes back from storage
        elif step == "load":
            o = call(Orientation, a, axes=saved)
            # the observations are made on a twin, so that the object under
            # test sees only the model's queries
            T.ev("load", fit=fit(call(Orientation, a, axes=saved)))
            if isinstance(o, Err):
                return
        else:
            QUERY[step](o)
    T.ev("load", fit=fit(o))


def run(T, cases, rng, tier):
    for i, c in enumerate(cases):
        n = [3, 4, 7, 20, 61][i % 5]
        ax = N.array(c["axes"], dtype=float) / c["den"]
        sv = [float(x) for x in c["sv"]]
        if n == 3:
            n = 5
        a = exact_axes(rng, n, sv, ax) + (rng.randn(3) * 100 if i % 2 else 0)
        T.guard("mc%d" % i, chain, T, a, c["hist"])
    for name, a in catalogue(rng, tier):
        if len(a) > 3000:
            continue
        T.guard("cat-" + name, chain, T, N.array(a, dtype=float), ["save", "load", "U", "save", "load"])
        T.guard("catq-" + name, chain, T, N.array(a, dtype=float), ["mapping", "U", "save", "load", "hash", "save", "load", "errors"])
    for i in range(6):
        def grp():
            parts = [planar(rng, rng.randint(5, 20), center=rng.randn(3) * 9) for _ in range(3)]
            g = GroupedOrientation(*[Orientation(x) for x in parts], same_plane=bool(i % 2))
            arr = N.array(g.array)
            f = fit(g)
            f["center"] = enc(arr.mean(axis=0))     # a group reports its own center: see C10
            T.ev("begin", cloud=enc(arr), fit=f)
            saved = g.principal_axes
            T.ev("save", axes=enc(saved))
            T.ev("load", fit=fit(call(Orientation, arr, axes=saved)))
        T.guard("group%d" % i, grp)


if __name__ == "__main__":
    main(run)
