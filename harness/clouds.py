"""Point clouds: the inputs of planar fits."""
import numpy as N


def rotation(rng):
    q = rng.randn(4)
    q /= N.linalg.norm(q)
    w, x, y, z = q
    return N.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def planar(rng, n=50, lengths=(10., 5., 0.3), R=None, center=(0., 0., 0.), rotate=True):
    """A noisy plane with given extents in a random (or given) orientation."""
    a = rng.randn(n, 3) * N.array(lengths)
    if rotate:
        a = N.dot(a, rotation(rng) if R is None else R)
    return a + N.array(center)


def dipping(rng, n, strike, dip, lengths=(10., 5., 0.1), center=(0, 0, 0), spin=None):
    """A cloud whose nominal strike and dip (degrees, right-hand rule) are given."""
    s, d = N.radians([strike, dip])
    dipdir = N.array([N.cos(s) * N.cos(d), -N.sin(s) * N.cos(d), -N.sin(d)])
    st = N.array([N.sin(s), N.cos(s), 0])
    nrm = N.cross(st, dipdir)
    t = rng.uniform(0, 2 * N.pi) if spin is None else spin
    a1 = N.cos(t) * st + N.sin(t) * dipdir
    a2 = -N.sin(t) * st + N.cos(t) * dipdir
    a = rng.randn(n, 3) * N.array(lengths)
    return N.dot(a, N.array([a1, a2, nrm])) + N.array(center)


def exact_axes(rng, n, sv, axes):
    """A cloud whose singular values and axes are the given ones."""
    a = rng.randn(n, 3)
    a -= a.mean(axis=0)
    q, _ = N.linalg.qr(a)
    return N.dot(q * N.array(sv), axes)


def catalogue(rng, tier="quick"):
    """Named clouds: sizes, shapes, offsets, scales, dtypes and layouts."""
    out = []

    def add(name, a):
        out.append((name, a))

    for n in (3, 4, 5, 6, 7, 8, 10, 13, 21, 50, 101, 128, 300):
        add("n%d" % n, planar(rng, n))
    for n in ((1000, 2500, 5001, 12000) if tier == "quick" else (1000, 2500, 5001, 10001, 16385, 40000)):
        add("big%d" % n, planar(rng, n, (100., 60., 2.)))
    for i in range(6 if tier == "quick" else 40):
        L = N.sort(10 ** rng.uniform(-2, 3, 3))[::-1]
        add("rand%d" % i, planar(rng, rng.randint(4, 80), L, center=rng.randn(3) * 10 ** rng.uniform(-1, 3)))
    add("utm", planar(rng, 60, (40., 15., .5), center=(512345.25, 4123456.5, 1832.125)))
    add("tiny", planar(rng, 40, (1e-5, 5e-6, 1e-7)))
    add("huge", planar(rng, 40, (1e7, 5e6, 1e5), center=(1e8, -1e8, 1e7)))
    add("thin", planar(rng, 40, (10., 5., 1e-5)))
    add("flatish", planar(rng, 30, (1e3, 4e2, 5e-3)))
    add("smooth", planar(rng, 25, (50., 8., 2e-6), center=(3, 2, 1)))
    add("isotropic", planar(rng, 40, (1., 1., 1.)))
    add("needle", planar(rng, 30, (100., .1, .05)))
    for s, d in ((0, 0.5), (0, 45), (90, 30), (180, 30), (270, 30), (45, 89.9), (135, 60), (225, 10),
                 (315, 75), (359.5, 20), (10, 90)):
        add("sd%s-%s" % (s, d), dipping(rng, 40, s, d))
    e = N.array([[4, 0, 0], [-4, 0, 0], [0, 2, 0], [0, -2, 0], [0, 0, 1], [0, 0, -1.]])
    for i, p in enumerate(((0, 1, 2), (1, 0, 2), (0, 2, 1), (2, 1, 0), (1, 2, 0), (2, 0, 1))):
        add("axis%d" % i, e[:, list(p)].copy())
        add("axisflip%d" % i, (e * [1, -1, -1])[:, list(p)] + [3, 2, 1.])
    flat = planar(rng, 30, (8., 3., 0.), rotate=False)
    add("flat", flat)
    add("exactplane", N.column_stack([flat[:, 0], flat[:, 1], .5 * flat[:, 0] - .25 * flat[:, 1] + 7]))
    add("vertical", N.column_stack([flat[:, 0], 0 * flat[:, 0] + 2, flat[:, 1]]))
    add("collinear", N.outer(N.arange(7.), [1, 2, 3]))
    dup = planar(rng, 9)
    add("dups", N.vstack([dup, dup, dup[:3]]))
    add("outlier", N.vstack([planar(rng, 30, (3., 2., .1)), [[50., 40., 90.]]]))
    add("positive", N.abs(planar(rng, 30)) + 1)
    add("negative", -N.abs(planar(rng, 30)) - 100)
    add("sorted", N.sort(planar(rng, 25), axis=0))
    add("int64", rng.randint(-50, 50, (20, 3)))
    add("int32", rng.randint(-50, 50, (20, 3)).astype("int32"))
    add("uint8", rng.randint(0, 200, (25, 3)).astype("uint8"))
    add("fortran", N.asfortranarray(planar(rng, 33)))
    big = planar(rng, 90)
    add("strided", big[::2])
    add("reversed", big[::-1])
    add("transposed", planar(rng, 31).T.copy().T)
    wide = rng.randn(30, 5) * [9, 4, 3, .4, 1]
    add("columns", wide[:, 1:4])
    ro = planar(rng, 30)
    ro.setflags(write=False)
    add("readonly", ro)
    add("bigendian", planar(rng, 30).astype(">f8"))
    return out
