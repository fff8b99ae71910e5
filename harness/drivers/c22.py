"""The viewer's side views (frontend/packages/attitude, notebook-ui)."""
from vlib import *
from clouds import planar, rotation
from nodejs import Batch
from attitude.orientation import Orientation, create_groups


def scales(rng, i):
    w, h = rng.uniform(50, 900, 2)
    k = 10 ** rng.uniform(-2, 3)
    x = dict(domain=[-k, k], range=[0, w])
    y = dict(domain=[-k, k], range=[h, 0])
    if i % 3 == 1:
        y = dict(domain=[-k * h / w, k * h / w], range=[h, 0])
    elif i % 3 == 2:
        c = rng.uniform(-2, 2) * k
        x = dict(domain=[c - k, c + k], range=[30, w + 40])
        y = dict(domain=[-3 * k, k], range=[0, h] if rng.randint(4) == 0 else [h, 0])
    return x, y


def ends(s):
    (a, b), (p, q) = s["domain"], s["range"]
    f = lambda t: p + (t - a) / (b - a) * (q - p)
    return enc([f(0.), f(1.)])


def frame(rng, i):
    A = rotation(rng) * rng.choice([-1, 1], 3)[:, None]
    if i % 7 == 0:
        A = N.eye(3)[[0, 1, 2] if i % 2 else [1, 0, 2]] * rng.choice([-1, 1], 3)[:, None]
    elif i % 7 == 1:       # gently dipping, as most are
        t, s = rng.uniform(0, .2), rng.uniform(0, 2 * N.pi)
        A = (N.array([[N.cos(s), N.sin(s), 0], [-N.sin(s) * N.cos(t), N.cos(s) * N.cos(t), N.sin(t)],
                      [N.sin(s) * N.sin(t), -N.cos(s) * N.sin(t), N.cos(t)]]) * rng.choice([-1, 1], 3)[:, None])
    return A + 0.


def axes_h(rng):
    return N.sort(10 ** rng.uniform(-3, 4, 3))[::-1]


def angle(rng, i):
    return float(rng.uniform(-7, 7) if i % 4 else rng.randint(-4, 5) * N.pi / 4)


def view(B, rng, sc, data, azimuths):
    singles = [d for d in data if "members" not in d or d["members"] is None]
    groups = [d for d in data if d.get("members") is not None]
    ids = [g["uid"] for g in groups]
    planes = [dict(uid=d["uid"], axes=enc(d["axes"]), h=enc(d["hyperbolic_axes"]), center=enc(d["center"]),
                   group=1 + ids.index(d["member_of"]) if d.get("member_of") in ids else 0,
                   points=1 if d.get("centered_array") is not None else 0) for d in singles]
    gs = [dict(uid=d["uid"], axes=enc(d["axes"]), h=enc(d["hyperbolic_axes"])) for d in groups]

    ids = [d["uid"] for d in data]
    # pointing at nothing, at one plane, at a group with its members, or as before
    pointed = []
    for j in range(len(azimuths)):
        k = rng.randint(4)
        g = rng.choice(ids)
        pointed.append(pointed[-1] if k == 3 and j else None if k == 0 else [] if k == 1 else
                       [g] + [m for m in next(d for d in data if d["uid"] == g).get("members") or []])

    def then(r):
        for a, p, s in zip(azimuths, pointed, r["out"]):
            s = dict(s, pointed=p or [])
            B.T.ev("shot", azimuth=enc(a), planes=planes, groups=gs, centers=enc([d["center"] for d in singles]), **s)
    B.add(sc, then, "view", data, azimuths, pointed)


def plane(rng, uid, center, i, points=True, **kw):
    d = dict(uid=uid, axes=frame(rng, i).tolist(), hyperbolic_axes=axes_h(rng).tolist(), center=[float(c) for c in center], color="#aa00cc")
    if points:
        d["centered_array"] = planar(rng, 5).tolist()
    d.update(kw)
    return d


def run(T, cases, rng, tier):
    B = Batch(T, "profile.js")
    for i, c in enumerate(cases):
        zs = rng.permutation([0., 3., -2., 7.])
        if i % 5 == 2:
            zs = zs * .1
        data = [plane(rng, "p%d" % j, [c["place"][j][0], c["place"][j][1], zs[j]], i + j, points=(i + j) % 3 > 0) for j in range(c["n"])]
        if i % 2:
            data.append(plane(rng, "g", [0, 0, 0], i, points=False, members=["p0", "p2"]))
            data[0]["member_of"] = data[2]["member_of"] = "g"
            if i % 4 == 3:
                data.insert(1, data.pop())
        view(B, rng, "mc%d" % i, data, [float(N.arctan2(y, x) + N.pi / 2) for x, y in c["turns"]])
    k = 1 if tier == "quick" else 10
    for i in range(40 * k):
        fits = [Orientation(planar(rng, int(rng.randint(4, 12)), (10, 5, .5)) + rng.uniform(-200, 200, 3)) for j in range(int(rng.randint(2, 7)))]
        if len(fits) > 2:
            fits = create_groups(fits, [fits[0].hash, fits[2].hash])
        data = [json.loads(json.dumps(o.to_mapping(color="#336699"))) for o in fits]
        view(B, rng, "fits%d" % i, data, [angle(rng, j) for j in range(3)])
    for i in range(20 * k):  # level ground, seen from all round in large and small steps
        a = float(rng.uniform(0, 7))
        data = [plane(rng, "p%d" % j, rng.uniform(-1, 1, 3) * 10 ** rng.uniform(0, 4) * [1, 1, .05] + [0, 0, rng.uniform(-3000, 3000)], i + j) for j in range(int(rng.randint(2, 6)))]
        view(B, rng, "round%d" % i, data, [a, a + .7, a + .704, a + 1.5, a + 1.5001, a + 2.2])
    for i in range(250 * k):
        sc = "p%d" % i
        A, h, v = frame(rng, i), axes_h(rng), angle(rng, rng.randint(9))
        o = rng.uniform(-3, 3, 3) * 10 ** rng.uniform(-2, 3)
        x, y = scales(rng, i)
        d = dict(data=dict(axes=A.tolist(), hyperbolic_axes=h.tolist(), color="#00ff00"), offset=o.tolist())
        B.add(sc, lambda r, A=A, o=o, v=v, x=x, y=y: T.ev("transform", axes=enc(A), offset=enc(o), v=enc(v), sx=ends(x), sy=ends(y), out=r["out"]),
              "transform", v, x, y, d)
        views = []
        for j in range(1 + i % 3):
            x, y = scales(rng, int(rng.randint(3)))
            w = dict(v=angle(rng, rng.randint(9)), x=x, y=y, width=float(rng.choice([400, 150, 20])))
            if rng.randint(3) == 0:
                w["scaled"] = bool(rng.randint(2))
            if i % 5 == 0:
                w["nominal"] = True
            views.append(w)

        def hyper(r, A=A, h=h, o=o, views=views):
            for w, q in zip(views, r["out"]):
                T.ev("hyperbola", axes=enc(A), h=enc(h), offset=enc(o), v=enc(w["v"]), sx=ends(w["x"]), sy=ends(w["y"]), width=enc(w["width"]),
                     scaled=0 if w.get("scaled") is False else 1, nominal=1 if w.get("nominal") else 0, **q)
        B.add(sc, hyper, "hyperbola", d, views)
        az = [angle(rng, j) for j in range(6)]
        B.add(sc, lambda r, A=A, az=az: T.ev("dips", axes=enc(A), az=enc(az), **r), "dip", d, az)
        pts = planar(rng, int(rng.randint(2, 9)))
        B.add(sc, lambda r, pts=pts, o=o, v=v, x=x, y=y: T.ev("trail", points=enc(pts), offset=enc(o), v=enc(v), sx=ends(x), sy=ends(y), out=r["out"]),
              "line", v, x, y, dict(data=dict(centered_array=pts.tolist()), offset=o.tolist()))
        arr = pts + rng.uniform(-100, 100, 3)
        q = dict(data=dict(extracted=arr.tolist()))
        given = None
        if i % 3:
            given = (arr.mean(axis=0) + i % 2).tolist()
            if i % 3 == 1:
                q["mean"] = given
                if i % 2:  # a mean that is given goes before those of the data
                    q["data"].update(mean=[1., 2., 3.], center=[4., 5., 6.])
            else:
                q["data"]["center" if i % 2 else "mean"] = given
        B.add(sc, lambda r, arr=arr, g=given: T.ev("data", arr=enc(arr), given=0 if g is None else 1, want=enc(g), mean=r["mean"], centered=r["centered"]), "data", q)
        n = int(rng.randint(1, 7))
        ps = [dict(center=(rng.uniform(-1, 1, 3) * 10 ** rng.uniform(0, 4)).tolist()) for j in range(n)]
        counts = [int(rng.randint(1, 9)) if j == 0 or rng.randint(4) else 0 for j in range(n)]
        for p, m in zip(ps, counts):
            if m:
                p["centered_array"] = N.zeros((m, 3)).tolist()
        cs = [p["center"] for p in ps]
        B.add(sc, lambda r, cs=cs, counts=counts: T.ev("average", centers=enc(cs), counts=counts, out=r["out"]), "average", ps)
        B.add(sc, lambda r, cs=cs: T.ev("extrema", centers=enc(cs), out=r["out"]), "extrema", ps)
        a = float(rng.uniform(-40, 40))
        B.add(sc, lambda r, a=a: T.ev("fixed", **{"in": enc(a), "out": r["out"]}), "fix", a)
    B.run()


if __name__ == "__main__":
    main(run)
