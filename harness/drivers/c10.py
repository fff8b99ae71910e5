from hashlib import sha1

from vlib import *
from clouds import catalogue, planar, dipping
from attitude.orientation import Orientation, create_groups
from attitude.orientation.grouped import GroupedOrientation
from attitude.error.axes import sampling_axes


def fp(o):
    h = sha1()
    for name in ("array", "centered_array", "axes", "singular_values", "center", "normal"):
        h.update(N.ascontiguousarray(N.asarray(getattr(o, name), dtype=float)).tobytes())
    h.update(o.hash.encode())
    h.update(str(bool(o.disabled)).encode())
    return h.hexdigest()[:12]


def member(a, how):
    """A fit of these points with some past behind it."""
    o = Orientation(a)
    if how % 2:
        o.disabled = True
    if how // 2 % 3 == 1:
        o.strike_dip_rake(), o.residuals(), o.to_mapping(), o.angular_errors(), o.U
    elif how // 2 % 3 == 2:
        d = o.disabled
        o = Orientation(a, axes=o.principal_axes)
        o.disabled = d
    if how // 6 % 3 == 1:
        o.method = sampling_axes
    elif how // 6 % 3 == 2:
        GroupedOrientation(o, Orientation(a + 1.))
    return o


def log_group(T, parts, same, route, rng=None):
    fits = [Orientation(a) if rng is None else member(a, rng.randint(18)) for a in parts]
    before = [fp(o) for o in fits]
    kw = dict(same_plane=True) if same else ({} if route % 2 else dict(same_plane=False))
    if route % 3 == 0:
        g = call(GroupedOrientation, *fits, **kw)
    else:
        out = call(create_groups, fits, [o.hash for o in fits], copy=(route % 3 == 1), **kw)
        g = out if isinstance(out, Err) else out[-1]
    rev = call(GroupedOrientation, *[Orientation(a) for a in parts[::-1]], **kw)
    base = dict(same=1 if same else 0, clouds=[enc(N.array(a, dtype=float)) for a in parts])
    if isinstance(g, Err):
        return T.ev("group", built=g.name, **base)
    T.ev("group", built="ok", center=enc(attr(g, "center")), axes=enc(attr(g, "axes")), sv=enc(attr(g, "singular_values")),
         normal=enc(attr(g, "normal")), arr=enc(attr(g, "centered_array")), sd=enc(call(g.strike_dip)), n=enc(attr(g, "n")),
         hyp=enc(attr(g, "hyperbolic_axes")), res=enc(call(g.residuals)),
         before=before, after=[fp(o) for o in fits[:len(parts)]], revsv=enc(attr(rev, "singular_values")),
         revcenter=enc(attr(rev, "center")), revaxes=enc(attr(rev, "axes")), **base)


def run(T, cases, rng, tier):
    for i, c in enumerate(cases):
        parts = [N.array(m, dtype=float) for m in c["members"]]
        # exact duplicates share an identifier; tell members apart
        parts = [p + rng.randn(*p.shape) * 1e-3 for p in parts]
        T.guard("mc%d" % i, log_group, T, parts, c["same"], i, rng if i % 2 else None)
    cat = [a for n, a in catalogue(rng, tier) if len(a) < 400]
    for i in range(60 if tier == "quick" else 600):
        k = rng.randint(1, 5)
        if i % 3 == 0:
            parts = [N.array(cat[rng.randint(len(cat))], dtype=float) for _ in range(k)]
        else:
            s, d = rng.uniform(0, 360), rng.uniform(0, 90)
            parts = [dipping(rng, rng.randint(3, 40), s, d, (10 ** rng.uniform(0, 2), 3, .1),
                             center=rng.randn(3) * 10 ** rng.uniform(0, 3)) for _ in range(k)]
        parts = [p + rng.randn(*p.shape) * 1e-6 for p in parts]
        T.guard("rand%d" % i, log_group, T, parts, int(rng.randint(2)), i if k > 1 else 0, rng if i % 2 else None)
    for i in range(20 if tier == "quick" else 200):
        parts = [planar(rng, rng.randint(3, 30), (10, 5, .5), center=rng.randn(3) * 30) for _ in range(rng.randint(2, 5))]
        w = 10 ** rng.uniform(-1, 1, 3)
        same = int(rng.randint(2))

        def weighted():
            fits = [Orientation(a) for a in parts]
            kw = dict(weights=w, same_plane=bool(same))
            g = call(GroupedOrientation, *fits, **kw) if i % 2 else call(create_groups, fits, [o.hash for o in fits], **kw)
            g = g[-1] if isinstance(g, list) else g
            base = dict(same=same, clouds=[enc(a) for a in parts], weights=enc(w))
            if isinstance(g, Err):
                return T.ev("weighted", built=g.name, **base)
            T.ev("weighted", built="ok", axes=enc(attr(g, "axes")), sv=enc(attr(g, "singular_values")), center=enc(attr(g, "center")), **base)
        T.guard("weighted%d" % i, weighted)


if __name__ == "__main__":
    main(run)
