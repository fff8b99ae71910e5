"""The curves and areas of the viewer's stereonet (frontend/packages/attitude)."""
from vlib import *
from clouds import planar, rotation, catalogue
from nodejs import Batch
from attitude.orientation import Orientation


def lay(traditional, degrees):
    return ("traditional" if traditional else "natural") + ("-degrees" if degrees else "")


def lonlat(v, traditional, degrees):
    """A direction as the viewer names it (where probes are put; what they
    mean is decided by the specification)."""
    x, y, z = N.asarray(v, dtype=float) / N.linalg.norm(v)
    p = (N.arctan2(x, z), N.arcsin(N.clip(y, -1, 1))) if traditional else (N.arctan2(x, -y), N.arcsin(N.clip(z, -1, 1)))
    return [float(N.degrees(q)) if degrees else float(q) for q in p]


def options(rng, n, traditional, degrees, **kw):
    """Options are left out where the default means the same."""
    o = dict(kw)
    if n != 100 or rng.randint(2):
        o["n"] = n
    if not traditional or rng.randint(2):
        o["traditionalLayout"] = bool(traditional)
    if degrees or rng.randint(2):
        o["degrees"] = bool(degrees)
    return o


def sheet(B, sc, rng, A, h, sh, n, traditional, degrees):
    o = options(rng, n, traditional, degrees)
    if sh != "nominal" or rng.randint(2):
        o["sheet"] = sh
    B.add(sc, lambda r: B.T.ev("sheet", axes=enc(A), h=enc(h), sheet=sh, n=n, lay=lay(traditional, degrees), out=r["out"]),
          "plane", h.tolist(), A.tolist(), o)


def pole(B, sc, rng, A, h, sg, n, traditional, degrees, level):
    o = options(rng, n, traditional, degrees)
    if sg < 0 or rng.randint(2):
        o["sheet"] = "upper" if sg > 0 else "lower"
    if level != 1 or rng.randint(2):
        o["level"] = level
    B.add(sc, lambda r: B.T.ev("pole", axes=enc(A), h=enc(h), sg=sg, n=n, lay=lay(traditional, degrees), level=enc(level), out=r["out"]),
          "normal", h.tolist(), A.tolist(), o)


def band_probes(rng, A, h, k=14):
    out = []
    for i in range(k):
        u, f = rng.uniform(0, 2 * N.pi), rng.choice([0, .3, .9, 1.1, 2, 8]) * rng.choice([-1, 1])
        s = N.sqrt(h)
        out.append(N.cos(u) * s[0] * A[0] + N.sin(u) * s[1] * A[1] + f * s[2] * A[2])
    return out + [A[2], -A[2], A[0], -A[1]]


def pole_probes(rng, A, h, level, k=14):
    out = []
    for i in range(k):
        u, f = rng.uniform(0, 2 * N.pi), level * rng.choice([0, .3, .9, 1.15, 2, 8])
        s = N.sqrt(h)
        out.append((f * s[2] * (N.cos(u) / s[0] * A[0] + N.sin(u) / s[1] * A[1]) + A[2]) * rng.choice([-1, 1]))
    return out + [A[2], -A[2], A[0], -A[1]]


def surfaces(B, sc, rng, A, h, n, traditional):
    """The three curves together and the features made of them."""
    probes = [lonlat(p, traditional, True) for p in band_probes(rng, A, h)]
    base = dict(axes=enc(A), h=enc(h), lay=lay(traditional, True))

    def then(r):
        B.T.ev("keys", got=r["keys"])
        for sh in ("nominal", "upper", "lower"):
            B.T.ev("sheet", sheet=sh, n=n, out=r[sh], **base)
        B.T.ev("line", geom=r["line"]["geom"], rings=r["line"]["rings"], nominal=r["nominal"])
        for f in ("surface", "again"):
            B.T.ev("surface", geom=r[f]["geom"], rings=r[f]["rings"], probes=enc(probes), inside=r["inside" if f == "surface" else "inside2"], **base)
    B.add(sc, then, "combined", h.tolist(), A.tolist(), options(rng, n, traditional, False), probes)


def frame(s, d, r):
    """Where probes of a stated plane are put."""
    s, d, r = N.radians([s, d, r])
    st = N.array([N.sin(s), N.cos(s), 0])
    dn = N.array([N.cos(s) * N.cos(d), -N.sin(s) * N.cos(d), -N.sin(d)])
    b = N.cos(r) * st + N.sin(r) * dn
    c = N.cross(st, dn) * -1
    c = c if c[2] >= 0 else -c
    return N.array([N.cross(c, b), b, c])


def ellipses(B, sc, rng, A, h, n, traditional, levels, stated=None):
    many = isinstance(levels, list)
    ls = levels if many else [levels]
    probes = [lonlat(p, traditional, True) for l in ls for p in pole_probes(rng, A, h, l)]
    o = options(rng, n, traditional, True, level=levels)
    if levels == 1 and rng.randint(2):
        del o["level"]
    key = "hyperbolic_axes" if rng.randint(3) else "covariance"
    p = {key: h.tolist(), "axes": A.tolist(), "uid": "x"}
    if n % 2 == 0:  # what else a plane's mapping holds does not matter
        p.update(strike=12., dip=34., rake=56., maxError=7., minError=3.)
        if key == "hyperbolic_axes":
            p["covariance"] = [3., 2., 1.]
    kw = dict(axes=enc(A), h=enc(h), stated=0)
    if stated is not None:
        p = dict(zip(("strike", "dip", "rake", "maxError", "minError"), stated))
        kw = dict(sdr=enc(stated[:3]), err=enc(stated[3:]), stated=1)

    def then(r):
        B.T.ev("many", got=[r["many"], len(r["out"])], want=[int(many), len(ls)])
        for l, t in zip(ls, r["out"]):
            B.T.ev("areas", lay=lay(traditional, True), level=enc(l), got=t["level"], geom=t["geom"],
                   rings=t["rings"], probes=enc(probes if l else []), inside=t["inside"] if l else [], same=r["same"], **kw)
    B.add(sc, then, "ellipse", p, o, probes)


def run(T, cases, rng, tier):
    B = Batch(T, "sphere.js")
    for i, c in enumerate(cases):
        A, h = N.array(c["axes"]) / 5., N.array(c["s"], dtype=float) ** 2
        sc, deg = "mc%d" % i, int(rng.randint(2))
        if c["level"] == 1:
            sheet(B, sc, rng, A, h, c["sheet"], c["n"], c["layout"], deg)
        if c["sheet"] != "nominal":
            pole(B, sc, rng, A, h, 1 if c["sheet"] == "upper" else -1, c["n"], c["layout"], deg, c["level"])
    k = 1 if tier == "quick" else 8
    for i in range(150 * k):
        A = rotation(rng) * rng.choice([-1, 1], 3)[:, None]
        h = 10 ** rng.uniform(-4, 6, 3)
        if i % 3:
            h = N.sort(h)[::-1]
        for t in (0, 1):
            n = int(rng.choice([4, 7, 8, 30, 50, 100, 200]))
            sheet(B, "rand%d" % i, rng, A, h, ["nominal", "upper", "lower"][rng.randint(3)], n, t, rng.randint(2))
            pole(B, "rand%d" % i, rng, A, h, [1, -1][rng.randint(2)], n, t, rng.randint(2), float(rng.choice([0, .2, 1, 2, 10])))
    for i in range(100 * k):
        A = rotation(rng) * rng.choice([-1, 1], 3)[:, None]
        if i % 5 == 0:
            A = A[rng.permutation(3)]
        h = N.array([1, rng.uniform(.2, 1), 10 ** rng.uniform(-3.5, .3)]) * 10 ** rng.uniform(-3, 3)
        t, n = int(rng.randint(2)), int(rng.choice([80, 100, 200]))
        surfaces(B, "surface%d" % i, rng, A, h, n, t)
        ls = [1, 1, 2, .5, [1], [0, 1, 2], [2, 1], [.5, 0, 3]][rng.randint(8)]
        ellipses(B, "ellipse%d" % i, rng, A, h, n, int(rng.randint(2)), ls)
    for i in range(120 * k):
        w = [float(rng.choice([0, 45, 90, 180, 270, 359, 360]) if rng.randint(3) == 0 else rng.uniform(0, 360)),
             float(rng.choice([1, 45, 89]) if rng.randint(3) == 0 else rng.uniform(.1, 89.9)),
             float(rng.choice([0, 90, 135, 180]) if rng.randint(3) == 0 else rng.uniform(0, 180))]
        w.append(float(10 ** rng.uniform(-1.3, 1.8)))
        w.append(w[3] * float(rng.uniform(.45, 1)))
        h = 1 / N.tan(N.radians(w[:2:-1]) / 2) ** 2
        ellipses(B, "stated%d" % i, rng, frame(*w[:3]), N.append(h, 1), 100, int(rng.randint(2)), [1, [1, 2]][rng.randint(2)], w)
    for j, (name, a) in enumerate(catalogue(rng, "quick")):
        if len(a) > 400 or name in ("collinear", "vertical", "flat", "exactplane"):
            continue
        m = Orientation(N.array(a, dtype=float)).to_mapping()
        A, h = N.array(m["axes"]), N.array(m["hyperbolic_axes"])
        if not (N.isfinite(A).all() and N.isfinite(h).all() and (h > 0).all() and h.min() > 1e-9 * h.max()):
            continue
        sheet(B, "cat-" + name, rng, A, h, ["nominal", "upper", "lower"][j % 3], 50, 0, 1)
        pole(B, "cat-" + name, rng, A, h, 1, 50, 0, 1, 1)
    for i in range(60):
        A = rng.uniform(-1, 1, (3, 3)) * 10 ** rng.uniform(-3, 3) if i % 2 else rotation(rng).T * N.array([30., 8, .1])
        B.add("split%d" % i, lambda r, A=A: T.ev("split", **{"in": enc(A), "sv": r["s"], "out": r["a"]}), "deconvolve", A.tolist())
        v = rng.uniform(-1, 1, 3) * 10 ** rng.uniform(-3, 3) if i > 20 else N.array([[3, -4, 0], [0, 0, 5], [-2, 0, 0], [0, 7, 0], [1, 1, 1]][i % 5])
        t, d = int(rng.randint(2)), int(rng.randint(2))
        B.add("sph%d" % i, lambda r, v=v, t=t, d=d: T.ev("sph", **{"in": enc(v), "lay": lay(t, d), "out": r["out"]}), "sph", v.tolist(),
              dict(traditionalLayout=bool(t), degrees=bool(d)))
    B.run()


if __name__ == "__main__":
    main(run)
