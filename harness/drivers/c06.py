from vlib import *
from clouds import catalogue, dipping
from attitude.orientation import Orientation, ReconstructedPlane


def log_plane(T, s, d, r, e1, e2, ne, explicit=True):
    kw = dict(normal_error=ne) if explicit else {}
    if not explicit:
        ne = 1
    o = call(ReconstructedPlane, s, d, r, e1, e2, **kw)
    base = dict(sdr=enc([s, d, r]), err=enc([e1, e2]), ne=enc(ne))
    if isinstance(o, Err):
        return T.ev("plane", built=o.name, **base)
    T.ev("plane", built="ok", normal=enc(attr(o, "normal")), axes=enc(attr(o, "axes")), hyp=enc(attr(o, "hyperbolic_axes")),
         cov=enc(attr(o, "covariance_matrix")), gotsdr=enc(call(o.strike_dip_rake)), goterr=enc(call(o.angular_errors)), **base)


def run(T, cases, rng, tier):
    for i, c in enumerate(cases):
        s, d, r = c["sdr"]
        e1, e2, ne = c["err"]
        T.guard("mc%d" % i, log_plane, T, s, d, r, e1, e2, ne, explicit=(ne != 1 or i % 2 == 0))
    for i in range(150 if tier == "quick" else 2500):
        s, d, r = rng.uniform(0, 360), rng.uniform(0, 90), rng.uniform(0, 180)
        if i % 10 == 0:
            d = 10 ** rng.uniform(-5, 0)
        if i % 10 == 1:
            d = 90 - 10 ** rng.uniform(-5, 0)
        if i % 10 == 2:
            s = float(rng.randint(-4, 8)) * 90
        if i % 10 == 3:
            s = rng.uniform(-360, 720)
        e = 10 ** rng.uniform(-2, 2, 2)
        T.guard("rand%d" % i, log_plane, T, float(s), float(d), float(r), float(e[0]), float(e[1]),
                float(10 ** rng.uniform(-2, 2)))

        def same():
            a = ReconstructedPlane(s, d, r, 5, 10)
            b = ReconstructedPlane(s + 360, d, r, 5, 10)
            T.ev("same", a=enc(a.axes), b=enc(b.axes))
        if i % 5 == 0:
            T.guard("same%d" % i, same)
    clouds = catalogue(rng, tier)
    for i in range(40 if tier == "quick" else 400):
        clouds.append(("dip%d" % i, dipping(rng, 30, rng.uniform(0, 360), rng.uniform(0, 90), (10, 4, .2))))
    for name, a in clouds:
        def back():
            o = Orientation(N.array(a, dtype=float))
            m = o.to_mapping()
            r = call(ReconstructedPlane, m["strike"], m["dip"], m["rake"], m["max_angular_error"], m["min_angular_error"])
            if isinstance(r, Err):
                return T.ev("back", built=r.name)
            T.ev("back", built="ok", normal=enc(attr(r, "normal")), axes=enc(attr(r, "axes")), sdr=enc(call(r.strike_dip_rake)),
                 fitnormal=enc(attr(o, "normal")), fitaxes=enc(attr(o, "axes")))
        if name != "collinear":
            T.guard("back-" + name, back)


if __name__ == "__main__":
    main(run)
