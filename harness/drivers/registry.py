"""Replays the histories of RegistryMC on the grouping API (C08, C09)."""
from hashlib import sha1

from vlib import *
from clouds import planar
from attitude.orientation import Orientation, ReconstructedPlane, create_groups
from attitude.orientation.grouped import disable_orientations, GroupedOrientation

PLANES = "abcde"
PUBLISHED = (312., 24., 71., 3., 11.)


def fingerprint(o):
    h = sha1()
    for name in ("array", "centered_array", "axes", "singular_values", "center", "normal", "hyperbolic_axes"):
        a = getattr(o, name, None)
        a = N.ascontiguousarray(N.asarray(() if a is None else a, dtype=float))
        h.update(repr(a.shape).encode())
        h.update(a.tobytes())
    return h.hexdigest()[:12]


class World(object):
    """Object identities as small integers, by order of appearance."""

    def __init__(self):
        self.known = []
        self.at = {}
        self.fp = {}

    def id(self, o):
        if o is None:
            return 0
        k = self.at.get(id(o))
        if k is None:
            self.known.append(o)
            k = self.at[id(o)] = len(self.known)
        return k

    def obj(self, o):
        members = getattr(o, "members", None)
        kind = "group" if members is not None else "published" if isinstance(o, ReconstructedPlane) else "plane"
        return dict(id=self.id(o), kind=kind, uid=o.hash, owner=self.id(getattr(o, "member_of", None)),
                    members=[self.id(m) for m in members or ()],
                    off=1 if o.disabled else 0, data=fingerprint(o))

    def list(self, L):
        return [self.obj(o) for o in L]

    def heap(self, L):
        """Everything that can be reached from the list."""
        out, seen, todo = [], set(), list(L)
        while todo:
            o = todo.pop(0)
            if o is None or self.id(o) in seen:
                continue
            seen.add(self.id(o))
            out.append(self.obj(o))
            todo += list(getattr(o, "members", None) or ())
            todo.append(getattr(o, "member_of", None))
        return sorted(out, key=lambda r: r["id"])


def mapping(o):
    m = o.to_mapping()
    return dict(uid=m["uid"], owner=m.get("member_of") or "", members=list(m.get("members") or ()),
                off=1 if m["disabled"] else 0)


def replay(T, rng, base, hist, i):
    W = World()
    same = bool(i % 2)
    L = [Orientation(a) for a in base]
    uid = dict((PLANES[k], o.hash) for k, o in enumerate(L))
    L.append(ReconstructedPlane(*PUBLISHED))
    uid["p"] = L[-1].hash
    uid["?"] = "ffffffff"
    ngroups = 0
    kept = []                       # lists that later calls must not touch

    def name(n):
        return uid.get(n, "00000000")

    for step, op in enumerate(hist):
        last = step == len(hist) - 1
        if op["op"] == "reverse":
            L = L[::-1]
            continue
        if op["op"] == "drop":
            L = L[:op["k"] - 1] + L[op["k"]:]
            continue
        pre = W.list(L) if last else None
        preheap = W.heap(L) if last else None
        was = [(K, W.heap(K)) for K in kept] if last else []
        if op["op"] == "group":
            req = [[name(n) for n in g] for g in op["groups"]]
            kw = dict(same_plane=same)
            if not op["copy"]:
                kw["copy"] = False
            elif i % 3 == 0:
                kw["copy"] = True
            given = [list(g) for g in req]
            out = call(create_groups, L, *given, **kw)
        else:
            req = [name(n) for n in op["uids"]]
            out = call(disable_orientations, L, *req)
        ok = not isinstance(out, Err)
        if last:
            e = dict(op=op["op"], copy=op.get("copy", 0), pre=pre, preheap=preheap, post=W.list(L), postheap=W.heap(L),
                     result="ok" if ok else out.name, same=1 if ok and out is L else 0,
                     was=[w for _, w in was], now=[W.heap(K) for K, _ in was])
            e["groups" if op["op"] == "group" else "uids"] = req
            e["out"] = W.list(out) if ok else []
            e["outheap"] = W.heap(out) if ok else []
            e["maps"] = [mapping(o) for o in out] if ok else []
            T.ev("call", **e)
        if ok:
            if op["op"] == "group":
                if op["copy"]:
                    kept.append(L)
                for o in out[len(out) - len(op["groups"]):]:
                    ngroups += 1
                    uid["g%d" % ngroups] = o.hash
            L = out


def crowded(T, L, req, copy):
    W = World()
    pre, preheap = W.list(L), W.heap(L)
    out = call(create_groups, L, *req, copy=bool(copy))
    ok = not isinstance(out, Err)
    T.ev("call", op="group", copy=copy, groups=req, pre=pre, preheap=preheap, post=W.list(L), postheap=W.heap(L),
         result="ok" if ok else out.name, same=0, was=[], now=[], out=W.list(out) if ok else [],
         outheap=W.heap(out) if ok else [], maps=[mapping(o) for o in out] if ok else [])


def lookalikes(rng, n):
    """Four clouds, two whose identifiers begin and two whose end alike."""
    seen = [{}, {}]
    best = [(0, None), (0, None)]
    for i in range(n):
        a = planar(rng, 4, center=rng.randn(3))
        u = Orientation(a).hash
        for side in (0, 1):
            for k in range(8, best[side][0], -1):
                key = u[:k] if side == 0 else u[-k:]
                b = seen[side].get(key)
                if b is not None:
                    best[side] = (k, [b, a])
                    break
            for k in range(8, 0, -1):
                seen[side].setdefault(u[:k] if side == 0 else u[-k:], a)
    return best[0][1] + best[1][1], (best[0][0], best[1][0])


def run(T, cases, rng, tier):
    alike, digits = lookalikes(N.random.RandomState(rng.randint(2**31)), 20000 if tier == "quick" else 60000)
    base = [planar(rng, n, center=rng.randn(3) * 10) for n in (5, 4, 6, 5, 7)]
    base[1] = N.asfortranarray(base[1])
    todo = [(i, c) for i, c in enumerate(cases)
            if tier == "thorough" or len(c["hist"]) < 3 or c["ok"] or (i + int(os.environ.get("VERIF_SEED", "1"))) % 3 == 0]
    n = len(todo)
    T.parallel(todo, lambda x: T.guard("mc%d" % x[0], replay, T, rng, base[:4], x[1]["hist"], x[0]))
    # random longer histories
    for i in range(120 if tier == "quick" else 1500):
        hist = []
        for _ in range(rng.randint(3, 7)):
            k = rng.randint(6)
            names = list("abcde") + ["?", "g1", "g2", "p"]
            if k < 3:
                groups = []
                for _ in range(rng.randint(0, 3)):
                    p = list(names[:5] if rng.rand() < .8 else names)
                    rng.shuffle(p)
                    groups.append(p[:rng.randint(2, 4) if rng.rand() < .9 else rng.randint(2)])
                hist.append(dict(op="group", groups=groups, copy=int(rng.rand() < .6)))
            elif k == 3:
                hist.append(dict(op="drop", k=rng.randint(1, 6)))
            elif k == 4:
                hist.append(dict(op="reverse"))
            else:
                p = list(names)
                rng.shuffle(p)
                hist.append(dict(op="disable", uids=p[:rng.randint(1, 4)]))
        if hist[-1]["op"] in ("reverse", "drop"):
            hist[-1] = dict(op="group", groups=[["a", "b"]], copy=1)
        T.guard("rand%d" % i, replay, T, rng, base, hist, i)
    # a long list, nearly all of it grouped
    many = [planar(rng, 4, center=rng.randn(3) * 10) for _ in range(90 if tier == "quick" else 300)]
    def crowd(k):
        L = [Orientation(a) for a in many]
        u = [o.hash for o in L]
        pairs = [u[i:i + 2] for i in range(0, len(u) - 4, 2)]
        out = create_groups(L, *pairs, copy=bool(k % 2))
        if k < 4:
            j = (0, 31, len(pairs) - 1, len(pairs) // 2)[k]
            crowded(T, out, [[u[2 * j], u[-1]], u[-3:-1]], k % 2)
        else:
            crowded(T, out, [u[-2:], u[-4:-2]], k % 2)
    for k in range(6):
        T.guard("crowd%d" % k, crowd, k)
    # identifiers that share most of their digits, the other one first
    look = [hist for hist in (
        [dict(op="disable", uids=[x])] for x in "abcd")] + [
        [dict(op="group", groups=[[x, y]], copy=c)] for x, y in ("bd", "ac", "db", "ab", "cd") for c in (0, 1)] + [
        [dict(op="group", groups=[["b", "d"]], copy=c), dict(op="group", groups=[["a", "c"]], copy=1 - c)] for c in (0, 1)] + [
        [dict(op="disable", uids=["b", "?"])], [dict(op="group", groups=[["b", "d"]], copy=0), dict(op="disable", uids=["d", "b"])]]
    for i, hist in enumerate(look):
        T.guard("alike%d" % i, replay, T, rng, alike, hist, i)
    return {"histories_replayed": n, "histories_in_model": len(cases),
            "digits_shared_by_lookalikes": list(digits)}


if __name__ == "__main__":
    main(run)
