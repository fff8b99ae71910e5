"""Query histories on every kind of orientation (C07)."""
import json
from hashlib import sha1

from vlib import *
from clouds import planar
from attitude import stereonet as S
from attitude.orientation import Orientation, LinearOrientation, ReconstructedPlane
from attitude.orientation.grouped import GroupedOrientation
from attitude.error import axes as E
from attitude.error import pca_to_mapping
from attitude import geom
from attitude.display.hyperbola import hyperbolic_errors
from matplotlib.figure import Figure

AXES = {}
XV = N.linspace(-20, 20, 9)


def polar_vertices(f, o, polar):
    if polar not in AXES:
        AXES[polar] = Figure().add_subplot(111, **(dict(projection="polar") if polar else {}))
    ax = AXES[polar]
    f(ax, o)
    v = N.array(ax.patches[-1].get_path().vertices)
    ax.patches[-1].remove()
    return v


def _display(name):
    def q(o):
        from attitude.display import polar, stereonet
        mod = polar if name.startswith("polar") else stereonet
        return polar_vertices(getattr(mod, name.split(".")[1]), o, name.startswith("polar"))
    return q


COMMON = [
    lambda o: o.strike_dip_rake(),
    lambda o: o.angular_errors(),
    lambda o: o.hyperbolic_axes,
    lambda o: o.hash,
    lambda o: o.to_mapping(),
    lambda o: o.axes,
    lambda o: o.normal,
    lambda o: o.covariance_matrix,
    lambda o: S.plane_errors(o.axes, o.covariance_matrix, sheet="upper", n=30),
    lambda o: S.plane_errors(o.axes, o.covariance_matrix, sheet="lower", n=30, traditional_layout=False),
    lambda o: S.normal_errors(o.axes, o.covariance_matrix, n=30),
    lambda o: S.normal_errors(o.axes, o.covariance_matrix, n=30, traditional_layout=False),
    lambda o: S.iterative_normal_errors(o.axes, o.covariance_matrix, n=12),
    lambda o: S.iterative_plane_errors(o.axes, o.covariance_matrix, n=12, sheet="lower"),
    lambda o: hyperbolic_errors(o.hyperbolic_axes, XV, transformation=o.axes, axes=N.array([[0, 1., 0], [0, 0, 1]])),
    _display("stereonet.girdle_error"),
    _display("stereonet.pole_error"),
    _display("polar.pole_error"),
]
FIT = [
    lambda o: o.strike_dip(),
    lambda o: o.rake(),
    lambda o: o.dip_direction(),
    lambda o: o.gradient(),
    lambda o: o.angular_errors(degrees=False),
    lambda o: o.angular_error(3.),
    lambda o: o.rotated(),
    lambda o: o.residuals(),
    lambda o: o.U,
    lambda o: o.explained_variance,
    lambda o: o.eigenvalues,
    lambda o: o.principal_axes,
    lambda o: o.center,
    lambda o: o.centered_array,
    lambda o: o.as_conic(),
    lambda o: o.as_hyperbola(rotated=True),
    lambda o: o.plane_errors(n=20),
    lambda o: o.error_coords(n=10, ellipse=False, levels=[1, 2]),
    lambda o: E.sampling_axes(o),
    lambda o: E.noise_axes(o, confidence_level=.8),
    lambda o: E.noise_covariance(o),
    lambda o: E.sampling_covariance(o),
    lambda o: pca_to_mapping(o),
    lambda o: geom.aligned_covariance(o),
    lambda o: geom.aligned_covariance(o, type="sampling"),
    lambda o: geom.fit_similarity(o, OTHER[0]),
    lambda o: geom.fit_angle(OTHER[0], o),
    lambda o: repr(o),
]
LIN = [
    lambda o: o.strike_dip(),
    lambda o: o.dip_direction(),
    lambda o: o.coefficients,
    lambda o: o.covariance_matrix,
    lambda o: o.rotated_covariance,
    lambda o: o.standard_errors(),
    lambda o: o.errors(),
    lambda o: o.azimuth,
    lambda o: o.slope,
    lambda o: o.gradient(),
    lambda o: o.dip_direction(uncertainties=True),
    lambda o: o.error_ellipse(),
    lambda o: o.error_ellipse(level=2, vector=True),
    lambda o: o.strike_dip(uncertainties=True),
]
OTHER = []


def flat(x, nums, texts):
    if isinstance(x, Err):
        texts.append("!" + x.name)
    elif isinstance(x, str):
        texts.append(x)
    elif x is None or isinstance(x, bool):
        texts.append(repr(x))
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            texts.append(str(k))
            flat(x[k], nums, texts)
    elif isinstance(x, (list, tuple)):
        texts.append("[%d" % len(x))
        if x and all(isinstance(i, (float, int)) for i in x):
            nums.extend(float(i) for i in x)
        else:
            for i in x:
                flat(i, nums, texts)
    else:
        a = N.asarray(x, dtype=float)
        texts.append(str(a.shape))
        nums.extend(a.ravel().tolist())


def answer(x):
    nums, texts = [], []
    flat(x, nums, texts)
    n = N.array(nums)
    if len(n) > 36:                       # a projection of a long answer
        w = N.cos(N.arange(len(n)))
        n = N.concatenate([n[::max(1, len(n) // 24)][:30], [n.sum(), (w * n).sum()]])
    return {"a": enc(n), "t": sha1(" ".join(texts).encode()).hexdigest()[:10]}


def digest(*arrays):
    h = sha1()
    for a in arrays:
        if a is None:
            h.update(b"-")
        elif isinstance(a, (str, bool, int)):
            h.update(repr(a).encode())
        else:
            a = N.asarray(a)
            h.update(repr((a.shape, a.dtype.str)).encode() + N.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:12]


def snapshot(o):
    names = ("array", "centered_array", "axes", "singular_values", "center", "normal", "sigma", "weights", "n",
             "disabled", "hyperbolic_axes", "covariance_matrix", "hash", "coefficients")
    return digest(*[getattr(o, k, None) for k in names])


class Make(object):
    """Objects and the arrays they were made from."""

    def __init__(self, rng):
        self.a = planar(rng, 12, (9, 4, .5), center=(3, -2, 8.))
        o = Orientation(self.a)
        if o.axes[2, 2] > 0:               # one object of each handedness
            self.b = self.a.copy()
            self.a = None
        self.up = self.down = None
        while self.up is None or self.down is None:
            a = planar(rng, 12, (9, 4, .5), center=rng.randn(3) * 5)
            if Orientation(a).axes[2, 2] > 0:
                self.up = a
            else:
                self.down = a
        self.more = [planar(rng, 8, center=rng.randn(3) * 4) for _ in range(2)]
        self.saved = Orientation(self.down).principal_axes.copy()
        self.w = N.array([1., 2., .5])
        if not OTHER:
            OTHER.append(Orientation(planar(rng, 10)))

    def make(self, kind):
        """(object, inputs, linked objects)"""
        if kind == "up" or kind == "down":
            a = getattr(self, kind).copy()
            return Orientation(a), [a], []
        if kind == "loaded":
            a, s = self.down.copy(), self.saved.copy()
            return Orientation(a, axes=s), [a, s], []
        if kind == "weighted":
            a, w = self.up.copy(), self.w.copy()
            return Orientation(a, weights=w), [a, w], []
        if kind == "recon":
            return ReconstructedPlane(120, 35, 40, 8, 3), [], []
        if kind == "vertical":
            return ReconstructedPlane(310, 88, 140, 5, 15, normal_error=2), [], []
        if kind == "linear":
            a = self.up.copy()
            return LinearOrientation(a), [a], []
        arrays = [x.copy() for x in self.more]
        planes = [Orientation(x) for x in arrays]
        g = GroupedOrientation(*planes, same_plane=(kind == "same"))
        if kind == "member":
            return planes[0], arrays, [g, planes[1]]
        return g, arrays, planes


def queries(kind):
    if kind in ("recon", "vertical"):
        return COMMON
    if kind == "linear":
        return LIN
    return COMMON + FIT


def run(T, cases, rng, tier):
    M = Make(rng)
    fresh = {}

    def replay(c):
        kind = c["kind"]
        Q = queries(kind)
        asked = [q - 1 for q in c["asked"]]

        def one():
            last = asked[-1]
            o, inputs, linked = M.make(kind)
            before, inb = snapshot(o), digest(*inputs)
            lb = digest(*[snapshot(x) for x in linked])
            for q in asked[:-1]:
                call(Q[q], o)
            got = answer(call(Q[last], o))
            T.ev("query", obj=kind, asked=c["asked"], fresh=fresh[kind, last], got=got, before=before, after=snapshot(o),
                 inbefore=inb, inafter=digest(*inputs), linkbefore=lb, linkafter=digest(*[snapshot(x) for x in linked]))
        T.guard("%s-%s" % (kind, "-".join(map(str, c["asked"]))), one)
    todo = [c for c in cases if max(c["asked"]) <= len(queries(c["kind"]))]
    n = len(todo)
    for kind in sorted(set(c["kind"] for c in todo)):
        for k, q in enumerate(queries(kind)):
            fresh[kind, k] = answer(call(q, M.make(kind)[0]))
    T.parallel(todo, replay)
    for kind in ("up", "down", "loaded", "weighted", "group", "same", "member", "recon", "vertical"):
        def det():
            o, inputs, linked = M.make(kind)
            before = digest(snapshot(o), *[snapshot(x) for x in linked])
            m = o.to_mapping(name="x", extra=[1, 2])
            first = sha1(json.dumps(m, sort_keys=True).encode()).hexdigest()[:12]

            def scramble(x):
                if isinstance(x, list):
                    for k in range(len(x)):
                        if isinstance(x[k], (list, dict)):
                            scramble(x[k])
                        else:
                            x[k] = 99.
                elif isinstance(x, dict):
                    for k in list(x):
                        if isinstance(x[k], (list, dict)):
                            scramble(x[k])
                        else:
                            x[k] = "gone"
            scramble(m)
            after = digest(snapshot(o), *[snapshot(x) for x in linked])
            m = o.to_mapping(name="x", extra=[1, 2])
            T.ev("detached", before=before, after=after, first=first,
                 second=sha1(json.dumps(m, sort_keys=True).encode()).hexdigest()[:12])
        T.guard("detached-" + kind, det)
    for i in range(30):
        def built():
            a = planar(rng, rng.randint(4, 30), center=rng.randn(3) * 100)
            if i % 3 == 1:
                a = N.asfortranarray(a)
            if i % 3 == 2:
                a = a.astype("float32")
            b = digest(a)
            if i % 2:
                o = Orientation(a, weights=N.array([1, 2., 3]))
            else:
                o = Orientation(a)
            GroupedOrientation(o, Orientation(planar(rng, 6)), same_plane=bool(i % 4))
            T.ev("built", inbefore=b, inafter=digest(a))
        T.guard("built%d" % i, built)
    bad = sorted("%s %d" % k for k in fresh if isinstance(call(queries(k[0])[k[1]], M.make(k[0])[0]), Err))
    return {"histories": n, "queries_that_raise": bad}


if __name__ == "__main__":
    main(run)
