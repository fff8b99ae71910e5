"""The viewer's page: lists, selection, pointing and switches (frontend/packages/notebook-ui)."""
from vlib import *
from clouds import planar, rotation
from nodejs import Batch
from attitude.orientation import Orientation, create_groups


def frames(rng):
    A = rotation(rng) * rng.choice([-1, 1], 3)[:, None]
    return A.tolist()


def describe(data):
    ids = [d["uid"] for d in data]
    return [dict(uid=d["uid"], group=0 if d.get("members") is None else 1, members=d.get("members") or [], owner=d.get("member_of") or "",
                 wide=1 if d["max_angular_error"] > 45 else 0,
                 numbers=enc([d["strike"], d["dip"], d["min_angular_error"], d["max_angular_error"]])) for d in data]


def play(B, sc, data, acts, whole=1):
    def then(r):
        B.T.ev("begin", data=describe(data), whole=whole)
        for a, q in zip([["open", 0]] + acts, r["out"]):
            B.T.ev("page", act=a[0], uid=data[a[1]]["uid"], **q)
    B.add(sc, then, "page", data, acts, None if whole else dict(allowGroupSelection=False))


def attitude(rng, uid, **kw):
    big, small = N.sort(10 ** rng.uniform(-3, 1.7, 2))[::-1]
    if rng.randint(5) == 0:
        big = float(rng.uniform(45.001, 89))
    if rng.randint(6) == 0:
        big = small = 0.005
    d = dict(uid=uid, axes=frames(rng), hyperbolic_axes=N.sort(10 ** rng.uniform(-2, 3, 3))[::-1].tolist(), center=rng.uniform(-9, 9, 3).tolist(),
             strike=float(rng.uniform(0, 360)), dip=float(rng.uniform(0, 90)), min_angular_error=float(small), max_angular_error=float(big), color="#3366aa")
    d.update(kw)
    return d


def walk(rng, n, steps):
    out = []
    for _ in range(steps):
        a = rng.choice(["pick", "pick", "pick", "over", "over", "touch", "touch", "leave", "clear", "zoom", "zoom", "groups", "planes", "poles"])
        out.append([str(a), int(rng.randint(n)) if a in ("pick", "over", "touch") else 0])
    return out


def run(T, cases, rng, tier):
    B = Batch(T, "page.js")
    quick = tier == "quick"
    for i, c in enumerate(cases):
        if quick and rng.randint(12):
            continue
        data = []
        for d in c["data"]:
            kw = dict(members=d["members"]) if d["group"] else dict(member_of=d["owner"] or None, members=None) if i % 2 else dict(member_of=d["owner"]) if d["owner"] else {}
            data.append(attitude(rng, d["uid"], **kw))
        play(B, "mc%d" % i, data, c["acts"])
    for i in range(60 if quick else 600):
        fits = [Orientation(planar(rng, int(rng.randint(4, 12)), (10, 5, .5)) + rng.uniform(-200, 200, 3)) for j in range(int(rng.randint(1, 8)))]
        if len(fits) > 2:
            groups = [[f.hash for f in fits[:2]], [f.hash for f in fits[2:5]]][:1 + i % 2]
            fits = create_groups(fits, *groups, same_plane=bool(rng.randint(2)))
        data = [json.loads(json.dumps(o.to_mapping(color="#336699"))) for o in fits]
        data = [data[k] for k in rng.permutation(len(data))][:max(1, len(data) - int(rng.randint(3)))]
        if len(set(d["uid"] for d in data)) < len(data):
            continue
        play(B, "fits%d" % i, data, walk(rng, len(data), 14), whole=1 if i % 3 else 0)
    for i in range(2 if quick else 12):  # long lists, most of them picked
        n = int(rng.randint(28, 45))
        data = [attitude(rng, "u%d" % j) for j in range(n)]
        order = [int(j) for j in rng.permutation(n)]
        play(B, "crowd%d" % i, data, [["pick", j] for j in order[:n - 3]] + [["zoom", 0], ["pick", order[0]], ["pick", order[-1]], ["over", order[4]], ["zoom", 0]])
    B.run()


if __name__ == "__main__":
    main(run)
