"""Stereonets of the viewer (frontend/packages/attitude/src/stereonet)."""
from vlib import *
from clouds import rotation
from nodejs import Batch

COLORS = ["#aa0000", "#00aa00", "#0000aa", "crimson"]


def plane(rng, uid):
    h = N.sort(10 ** rng.uniform(-2, 3, 3))[::-1]
    if rng.randint(3) == 0:
        h = h[[0, 2, 1]]
    d = dict(uid=uid, axes=(rotation(rng) * rng.choice([-1, 1], 3)[:, None]).tolist(), hyperbolic_axes=h.tolist())
    if rng.randint(2):
        d["color"] = str(rng.choice(COLORS))
    return d


def play(B, sc, rng, options, ops):
    """ops: [net, name, numbers...]"""
    T = B.T
    sent, seen = [], []
    used = [{}, {}]
    for n, (i, o, *x) in enumerate(ops):
        what = []
        if o in ("planes", "ellipses"):
            data = [plane(rng, "%s%d-%d" % (o, n, k)) for k in range(int(rng.randint(1, 4)))]
            opt = {}
            first = o not in used[i]
            con = {"planes": "planes", "ellipses": "poles"}[o]
            if not first or rng.randint(3) == 0:
                con = "extra%d" % n
                opt["selector"] = "g." + con
            used[i][o] = 1
            if rng.randint(2):
                opt["color"] = str(rng.choice(COLORS))
            level = 1.
            if o == "ellipses" and rng.randint(2):
                level = opt["level"] = round(float(rng.uniform(.2, 4)), 3)
            for d in data:
                fill = opt.get("color", "#aaaaaa" if o == "planes" else d.get("color", "#aaaaaa"))
                what.append(dict(uid=d["uid"], fill=fill, con=con, axes=enc(d["axes"]), h=enc(d["hyperbolic_axes"]), level=enc(level), loose=1 if d["hyperbolic_axes"][2] > d["hyperbolic_axes"][1] else 0))
            sent.append([i, o, data, opt])
        else:
            sent.append([i, o] + list(x))
        seen.append((i, o, x if o not in ("planes", "ellipses") else [], what))
    probes = [[float(a), float(b)] for a, b in zip(rng.uniform(-180, 180, 6), rng.uniform(-90, 90, 6))] + [[180., 0.], [90., 0.], [0., 90.]]

    def then(r):
        T.ev("begin", inter=[0 if o.get("interactive") is False else 1 for o in options])
        before = [0] * len(options)
        for (i, o, x, what), looks in zip([(0, "open", [], [])] + seen, r["out"]):
            T.ev("op", net=i + 1, o=o, x=enc([float(v) for v in x]) if x else enc(N.zeros(0)), what=what, looks=looks, probes=enc(probes), before=before)
            before = [q["turns"] for q in looks]
    B.add(sc, then, "nets", options, sent, probes)


def walk(rng, nets):
    up = [0] * nets
    lab = [0] * nets
    down = 0
    clip = [0] * nets
    out = []
    num = lambda a, b: round(float(rng.uniform(a, b)), 3)
    for _ in range(int(rng.randint(6, 16))):
        i = int(rng.randint(nets))
        o = str(rng.choice(["size", "margin", "clip", "rotate", "center", "planes", "ellipses", "labels", "down", "move", "move", "up", "draw", "refresh", "graticule"]))
        if o == "graticule" and up[i]:
            o = "draw"
        if not up[i] and rng.randint(2):
            o = "mount"
        if o in ("planes", "ellipses", "down", "draw", "refresh") and not up[i]:
            continue
        if o == "labels" and lab[i]:
            continue
        x = dict(size=[num(150, 900)], margin=[num(0, 60)], clip=[num(2, 88)], rotate=[num(-400, 400), num(-90, 90)], center=[num(-180, 180), num(-90, 90)],
                 down=[num(0, 900), num(0, 900)], move=[num(-200, 900), num(-200, 900)], up=[num(0, 900), num(0, 900)], graticule=[float(rng.choice([5, 10, 15, 30, 45])), float(rng.choice([2.5, 5, 10, 15, 30]))]).get(o, [])
        if o in ("rotate", "center") and rng.randint(3) == 0:  # close to one of the compass points
            x = [float(rng.choice([-180, -90, 0, 90, 180])) + num(-6, 6), num(-6, 6) if rng.randint(2) else float(rng.choice([-1, 1])) * num(84, 90)]
        up[i] |= o == "mount"
        lab[i] |= o == "labels"
        out.append([i, o] + x)
    return out


def run(T, cases, rng, tier):
    B = Batch(T, "net.js")
    quick = tier == "quick"
    for i, c in enumerate(cases):
        if quick and rng.randint(40):
            continue
        play(B, "mc%d" % i, rng, [{}, {}], c)
    for i in range(250 if quick else 2500):
        n = 1 + int(rng.randint(2))
        options = [{} if rng.randint(3) else dict(interactive=False) for _ in range(n)]
        play(B, "walk%d" % i, rng, options, walk(rng, n))
    for i in range(40 if quick else 400):
        num = lambda a, b: round(float(rng.uniform(a, b)), 3)
        ops = []
        if rng.randint(2):
            ops += [[0, "size", num(200, 800)]]
        if rng.randint(2):
            ops += [[0, "margin", num(10, 60)]]
        if rng.randint(2):
            ops += [[0, "graticule", float(rng.choice([10, 15, 30])), float(rng.choice([2.5, 5, 10]))]]
        if i % 4:
            ops += [[0, "clip", num(3, 80) if rng.randint(3) else float(rng.choice([10, 15, 30, 45, 60]))]]
        if rng.randint(2):
            ops += [[0, "size", num(200, 800)]]
        ops += [[0, "mount"], [0, "vertical" if i % 4 else "horizontal"], [0, "draw"], [0, "ellipses"]]
        play(B, "plumb%d" % i, rng, [dict(interactive=False)], ops)
    B.run()


if __name__ == "__main__":
    main(run)
