import json
import re

from vlib import *
from clouds import catalogue, planar
from attitude.orientation import Orientation, ReconstructedPlane
from attitude.orientation.grouped import GroupedOrientation, disable_orientations

NUMERIC = ["axes", "hyperbolic_axes", "strike", "dip", "rake", "max_angular_error", "min_angular_error", "center", "centered_array"]
VALUE = {"name": "bed \"1\" \u00e9", "color": "#ff0000", "strike": -1.5, "dip": 7, "uid": "custom", "axes": [[1, 2]],
         "disabled": "maybe", "center": [9, 9], "centered_array": [[0, 0, 1]], "hyperbolic_axes": [3], "note": {"a": [1, None]},
         "max_angular_error": "x", "rake": None, "min_angular_error": 0, "members": ["zz"], "member_of": "yy"}


def same(a, b):
    return type(a) is type(b) and a == b if not isinstance(a, float) else isinstance(b, (float, int)) and a == b


def log_map(T, kind, member, off, given, o, owner=None, blank=0):
    values = dict((k, None if blank else VALUE[k]) for k in given)
    m = call(o.to_mapping, **values)
    e = dict(kind=kind, member=member, off=off, given=sorted(given))
    s = call(json.dumps, m, allow_nan=False)
    if isinstance(m, Err) or isinstance(s, Err):
        return T.ev("map", valid=0, **e)
    j = json.loads(s)
    sdr = call(o.strike_dip_rake)
    ang = call(o.angular_errors)
    own = lambda t, i: t if isinstance(t, Err) else t[i]
    want = dict(uid=attr(o, "hash"), axes=enc(attr(o, "axes")), hyperbolic_axes=enc(attr(o, "hyperbolic_axes")),
                strike=enc(own(sdr, 0)), dip=enc(own(sdr, 1)), rake=enc(own(sdr, 2)), min=enc(own(ang, 0)), max=enc(own(ang, 1)),
                center=enc(attr(o, "center")), data=enc(attr(o, "centered_array")),
                members=[x.hash for x in getattr(o, "members", ())], owner=owner.hash if owner is not None else "")
    e.update(valid=1, keys=sorted(j), roundtrip=1 if json.loads(json.dumps(j)) == j else 0,
             kept=sorted(k for k in given if k in j and j[k] == values[k]),
             json=dict((k, enc(j[k]) if k in j else enc(Err(KeyError(k)))) for k in NUMERIC),
             uid=j.get("uid") if isinstance(j.get("uid"), str) else "?",
             disabled=1 if j.get("disabled") is True else 0 if j.get("disabled") is False else -1,
             members=j.get("members") or [], owner=j.get("member_of") or "", want=want)
    T.ev("map", **e)
    if kind != "recon":
        said = str(call(repr, o))
        got = [re.search(r"\b%s: *(-?[0-9.]+|-?nan|-?inf)" % k, said) for k in ("strike", "dip", "rake", "min", "max")]
        T.ev("said", got=[enc(float(g.group(1)) if g else None) for g in got], want=want)


def build(rng, kind, member, off, arrays=None):
    a = planar(rng, rng.randint(4, 12), center=rng.randn(3) * 50) if arrays is None else arrays
    owner = None
    if kind == "recon":
        o = ReconstructedPlane(rng.uniform(0, 360), rng.uniform(0, 90), rng.uniform(0, 180), 5., 2.)
    elif kind == "group":
        o = GroupedOrientation(Orientation(a), Orientation(planar(rng, 7)), Orientation(planar(rng, 5)),
                               same_plane=bool(rng.randint(2)))
    else:
        o = Orientation(a)
        if member:
            owner = GroupedOrientation(Orientation(planar(rng, 5)), o)
    if off:
        disable_orientations([o], o.hash)
    return o, owner


def run(T, cases, rng, tier):
    for i, c in enumerate(cases):
        def one():
            o, owner = build(rng, c["kind"], c["member"], c["off"])
            log_map(T, c["kind"], c["member"], c["off"], c["given"], o, owner, c["blank"])
        T.guard("mc%d" % i, one)
    for name, a in catalogue(rng, tier):
        if len(a) > 400 or name == "collinear":
            continue
        a = N.array(a, dtype=float) if name in ("int64", "int32", "uint8") else N.array(a)

        def cat():
            for kind in ("fit", "group"):
                for member in ((0, 1) if kind == "fit" else (0,)):
                    o, owner = build(rng, kind, member, 0, a)
                    log_map(T, kind, member, 0, [], o, owner)
        T.guard("cat-" + name, cat)


if __name__ == "__main__":
    main(run)
