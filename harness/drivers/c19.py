"""Coordinates, rotations and vector helpers."""
from vlib import *
from clouds import planar, dipping, rotation
from attitude import coordinates as C
from attitude.coordinates import rotations as ROT
from attitude import stereonet as S
from attitude.geom import util as U, fit_angle, axis_aligned_transforms
from attitude.geom.transform import rotate_2D
from attitude.orientation import Orientation
from attitude.orientation import pca, base


def directions(T, lon, lat):
    lon, lat = N.array(lon, dtype=float), N.array(lat, dtype=float)
    e = dict(lon=enc(lon), lat=enc(lat))
    T.ev("direction", f="cartesian", out=enc(call(ROT.cartesian, lon, lat)), **e)
    T.ev("direction", f="sph2cart", out=enc(call(S.sph2cart, lon, lat)), **e)
    for f in ("from_stereonet", "to_stereonet"):
        T.ev("direction", f=f, out=enc(call(lambda: N.array(getattr(ROT, f)(lon, lat)))), **e)
    T.ev("direction", f="roundtrip", out=enc(call(lambda: N.array(ROT.to_stereonet(*ROT.from_stereonet(lon, lat))))), **e)
    T.ev("direction", f="roundtrip", out=enc(call(lambda: N.array(ROT.from_stereonet(*ROT.to_stereonet(lon, lat))))), **e)


def vectors(T, v, w):
    v, w = N.array(v), N.array(w)
    e = dict(v=enc(v), w=enc(w))
    if len(v) == 3:
        T.ev("rotation", out=enc(call(ROT.transform, v, w)), **e)
    T.ev("angle", out=enc(call(U.angle, v, w)), cos=enc(call(U.angle, v, w, cos=True)), **e)
    for x in (v, w):
        T.ev("perp", v=enc(x), out=enc(call(U.perpendicular_vector, x)))
        T.ev("unit", v=enc(x), out=enc(call(U.unit_vector, x)))
        T.ev("unit", v=enc(x), out=enc(call(pca.normalize, x)))
        T.ev("augment", v=enc(x), out=enc(call(U.augment, x)))
        T.ev("augment", v=enc(x), out=enc(call(pca.augment_vector, x)))


def planes(T, n, d):
    p = call(U.plane, N.array(n), d) if d or len(n) == 2 else call(U.plane, N.array(n))
    T.ev("plane", n=enc(n), d=enc(d), hess=enc(call(lambda: p.hessian_normal())), normal=enc(call(lambda: p.normal())), off=enc(call(lambda: p.offset())))


def points(T, x):
    x = N.array(x, dtype=float)            # 3 x n
    s = call(C.spherical, x)
    T.ev("spherical", x=enc(x), out=enc(s))
    if not isinstance(s, Err):
        T.ev("cartesian", x=enc(s), out=enc(call(lambda: N.array(C.cartesian(s)))))


def matrices(T, rng):
    a, b, c = rng.randn(3, 3), rng.randn(3, 3), rng.randn(3, 3)
    T.ev("algebra", f="rotate_tensor", a=enc(a), b=enc(b), want=enc(a), out=enc(call(pca.rotate_tensor, a, b)))
    T.ev("algebra", f="compose_affine", a=enc(a), b=enc(b), want=enc(a), out=enc(call(pca.compose_affine, a, b)))
    T.ev("algebra", f="compose_affine", a=enc(b.dot(a)), b=enc(c), want=enc(a), out=enc(call(pca.compose_affine, a, b, c)))
    T.ev("algebra", f="axis_transform", a=enc(a), b=enc(b), want=enc(a), out=enc(call(pca.axis_transform, a)))
    for m in (a, a[:2, :2], a[:2]):
        T.ev("tensor", m=enc(m), n=m.shape[0] + 1, out=enc(call(U.augment_tensor, m)))
        T.ev("tensor", m=enc(m), n=4, out=enc(call(U.augment_tensor, m, 4)))
        T.ev("tensor", m=enc(m), n=m.shape[0] + 1, out=enc(call(pca.augment, m)))


def run(T, cases, rng, tier):
    q = N.pi / 2
    for i, c in enumerate(cases):
        def one():
            k = [1, 1., 1e-6, 1e5, 1e-12, 1e12, 1e-25][i % 7]
            v, w = N.array(c["v"]) * k, N.array(c["w"]) * (k if i % 3 else 2.5)
            vectors(T, v, w)
            points(T, N.array([v, w, v * -1, w - 2 * v if (w != 2 * v).any() else v]).T)
            planes(T, v, float(w[0]))
        T.guard("mc%d" % i, one)
    for i in range(450 if tier == "quick" else 1500):
        def rand():
            dim = 2 + (i % 3 > 0)
            far = 6 if i % 5 else 25
            v = rng.randn(dim) * 10 ** rng.uniform(-far, far)
            mode = i // 3 % 6
            w = rng.randn(dim) * 10 ** rng.uniform(-far, far)
            if mode == 1:
                w = v * rng.uniform(.1, 9)
            elif mode == 2:
                w = -v * rng.uniform(.1, 9)
            elif mode == 3:
                w = v + rng.randn(dim) * N.linalg.norm(v) * 10 ** rng.uniform(-7, -1)
            elif mode == 4:
                w = (rng.randn(dim) * N.linalg.norm(v) * 10 ** rng.uniform(-6, -1) - v) * 10 ** rng.uniform(-3, 3)
            if mode in (1, 2) and dim == 3:
                # exactly (anti)parallel, up to rounding: only the angle
                T.ev("angle", v=enc(v), w=enc(w), out=enc(call(U.angle, v, w)), cos=enc(call(U.angle, v, w, cos=True)))
            else:
                vectors(T, v, w)
            planes(T, v, rng.randn() * 10)
            points(T, rng.randn(3, rng.randint(1, 9)) * 10 ** rng.uniform(1 - far, far - 1))
            n = rng.randint(1, 9)
            directions(T, rng.uniform(-N.pi, N.pi, n), rng.uniform(-q, q, n))
            a = rng.uniform(-7, 7) if i % 4 else (i // 4 % 9 - 4) * q
            T.ev("turn", a=enc(a), dim=2, out=enc(call(rotate_2D, a)))
            T.ev("turn", a=enc(a), dim=3, out=enc(call(base.rotation, a)))
            x = rng.randn(rng.randint(2, 30), 3) * 10 ** rng.uniform(-3, 4) + rng.randn(3) * 100
            if i % 3 == 0:
                x = N.round(x).astype(int)
            if i in (10, 21, 55, 100):
                x = (rng.randn((1500, 4097, 10001, 70000)[(10, 21, 55, 100).index(i)], 3).cumsum(axis=0) + 1e3).astype("f8")
            elif i % 7 == 5:
                x = rng.randint(0, 250, (40, 3)).astype(["u1", "i2", "i8", "u4"][i // 7 % 4])
            keep = x.copy()
            out = call(C.centered, x if i % 2 else x.tolist())
            T.ev("centred", x=enc(x), out=enc(out), same=int(N.array_equal(x, keep)))
        T.guard("rand%d" % i, rand)
    for i in range(20):
        T.guard("matrices%d" % i, matrices, T, rng)

        def fits():
            if i % 2:
                t = rng.uniform(0, 360)
                a, b = (Orientation(dipping(rng, 20, t + 180 * k, rng.uniform(50, 90), (9., 4., .1))) for k in (0, 1))
            else:
                a, b = Orientation(planar(rng, 20)), Orientation(planar(rng, 30))
            for x, y in ((a, b), (b, a), (a, a)):
                T.ev("fitangle", v=enc(x.normal), w=enc(y.normal), out=enc(call(fit_angle, x, y)))
        T.guard("fits%d" % i, fits)

    def fixed():
        directions(T, [0, q, N.pi, -q, 0, 1, .5, 0], [0, 0, 0, 0, 1.2, 0, .5, -1.5])
        for lon in (0., 1., -2.):
            directions(T, [lon], [.3])
        points(T, N.concatenate([N.identity(3), -N.identity(3)], axis=1))
        I = N.identity(3)
        for got, want in zip(axis_aligned_transforms(), ([0, 1], [0, 2], [1, 2])):
            T.ev("algebra", f="views", a=enc(I), b=enc(I), want=enc(I[want]), out=enc(got))
        T.ev("algebra", f="views", a=enc(I), b=enc(I), want=enc(I[::-1]), out=enc(ROT.stereonet_transformation()))
    T.guard("fixed", fixed)


if __name__ == "__main__":
    main(run)
