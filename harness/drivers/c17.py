"""Conics and quadrics."""
from vlib import *
from clouds import rotation
from attitude.geom.conics import Conic, conic, angle_subtended
from attitude.geom.util import plane


def flag(f, *a, **kw):
    r = call(f, *a, **kw)
    if isinstance(r, Err):
        return -1
    return int(bool(r))


def step(T, c, op, arg):
    arg = N.array(arg, dtype=float)
    m = N.array(c, dtype=float)
    out = call(getattr(c, op), arg)
    T.ev("step", m=enc(m), op=op, arg=enc(arg), out=enc(out), conic=int(isinstance(out, Conic)), after=enc(N.array(c, dtype=float)))
    return out


def section(T, ev, c, r, axes=None, **kw):
    r = [r] * 3 if isinstance(r, Err) else list(r)
    r = (r + [None] * 3)[:3]
    T.ev(ev, m=enc(N.array(c)), axes=enc(None if axes is None else N.array(axes)), conic=enc(r[0]), tr=enc(r[1]), off=enc(r[2]), **kw)


def inspect(T, c, rng, pts=(), full=True):
    m = N.array(c, dtype=float)
    dim = len(m) - 1
    E = lambda: dict(m=enc(m))
    Q = m[:-1, :-1]
    det = N.linalg.det(Q)
    if abs(det) > 1e-9 * N.abs(Q).max() ** dim:
        cen = call(c.center)
        T.ev("center", out=enc(cen), **E())
        pd = N.all(N.linalg.eigvalsh(Q) > 1e-6 * N.abs(Q).max())
        if pd and not isinstance(cen, Err):
            v = N.append(cen, 1)
            if v.dot(m).dot(v) < -1e-9 * N.abs(m).max():
                T.ev("axes", out=enc(call(c.major_axes)), c=enc(cen), **E())
        if dim == 2 or pd:
            T.ev("kind", kind=[flag(c.is_elliptical), flag(c.is_hyperbolic), flag(c.is_parabolic)], **E())
    for p in list(pts) + [rng.randn(dim) * 10 ** rng.uniform(-1, 1) for _ in range(2)]:
        p = N.array(p)
        T.ev("contains", p=enc(p), inside=flag(c.contains, p), shell=flag(c.contains, p, shell_only=True), **E())
    if abs(N.linalg.det(m)) > 1e-6 * N.abs(m).max() ** (dim + 1):
        T.ev("dual", out=enc(call(c.dual)), **E())
        v = rng.randn(dim) * 3
        pl = call(c.polar_plane, v)
        T.ev("polar", v=enc(v), plane=enc(pl), pole=enc(pl if isinstance(pl, Err) else call(c.pole, pl)), **E())
        k = rng.choice([-1., 2, -.125])     # the same plane, written differently
        if not isinstance(pl, Err):
            T.ev("polar", v=enc(v), plane=enc(pl), pole=enc(call(c.pole, N.array(pl) * k)), **E())
        for i in range(2):
            v = rng.randn(dim) * 10
            kw = {} if i else dict(viewpoint=v)
            w = N.append(v * (1 - i), 1)
            if N.linalg.norm(m.dot(w)[:-1]) > 1e-3 * N.linalg.norm(m.dot(w)):
                section(T, "project", c, call(c.projection, **kw), v=enc(v * (1 - i)))
    if full:
        for i in range(3):
            if i == 0:
                nrm = N.zeros(dim)
                nrm[rng.randint(dim)] = rng.choice([-1, 1, 3])
            else:
                nrm = rng.randn(dim) * 10 ** rng.uniform(-1, 1)
            d = 0 if i == 0 and rng.rand() < .5 else rng.randn() * 5
            p = plane(nrm, d)
            section(T, "slice", c, call(c.slice, p), plane=enc(N.append(nrm, d)))
            if dim == 3:
                a = N.cross(nrm, rng.randn(3))
                a /= N.linalg.norm(a)
                ax = N.array([a, N.cross(a, nrm / N.linalg.norm(nrm))])
                section(T, "slice", c, call(c.slice, p, axes=ax), axes=ax, plane=enc(N.append(nrm, d)))


def parabola(T, rng):
    m = N.zeros((3, 3))
    i = rng.randint(2)
    m[i, i] = rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 3)
    m[1 - i, 2] = m[2, 1 - i] = rng.randn()
    m[2, 2] = rng.randn()
    c = conic(m)
    T.ev("kind", kind=[flag(c.is_elliptical), flag(c.is_hyperbolic), flag(c.is_parabolic)], m=enc(m))
    inspect(T, c, rng)


def near_shell(c, rng):
    """Points just inside and just outside, seen from the center."""
    m = N.array(c, dtype=float)
    dim = len(m) - 1
    cen = N.linalg.solve(m[:-1, :-1], -m[:-1, -1])
    f0 = N.append(cen, 1).dot(m).dot(N.append(cen, 1))
    for d in list(N.identity(dim)) + list(rng.randn(3, dim)):
        q = d.dot(m[:-1, :-1]).dot(d)
        if -f0 / q > 0:
            for k in (1e-1, 1e-3, 1e-5, 1e-8):
                for sg in (1, -1):
                    yield cen + rng.choice([-1, 1]) * N.sqrt(-f0 / q) * (1 + sg * k) * d


def stretched(T, rng, i):
    """Semiaxes of very different lengths; conics of integer type."""
    dim = 2 + i % 2
    if i % 3:
        k = Conic.from_semiaxes(10 ** rng.uniform(-4, 4, dim))
    else:
        k = conic(N.diag(list(rng.randint(1, 50, dim)) + [-rng.randint(1, 900)]))
    pts = list(near_shell(k, rng))
    inspect(T, k, rng, pts, full=False)
    k = step(T, k, "translate", rng.randn(dim) * rng.choice([1e-3, .3, 30]))
    inspect(T, k, rng, near_shell(k, rng), full=False)
    k = conic(N.diag(list(rng.randint(1, 50, dim)) + [-rng.randint(1, 900)]))
    f = rng.randn(dim + 1, dim + 1)
    step(T, k, "transform", f)
    step(T, k, "translate", rng.rand(dim))
    k = step(T, step(T, k, "translate", rng.randint(-3, 4, dim) + .5), "translate", rng.randint(-3, 4, dim) + .25)
    inspect(T, k, rng, near_shell(k, rng))


def replay(T, rng, c):
    k = conic(N.array(c["start"], dtype=float if len(c["hist"]) % 2 else int))
    for h in c["hist"]:
        k = step(T, k, h["op"], h["v"])
        if isinstance(k, Err):
            return
    inspect(T, k, rng, c["pts"])


def subtend(T, rng):
    for dim in (2, 3):
        for r in (.5, 1., 3.):
            p = rng.randn(dim)
            p *= r * rng.uniform(1.2, 8) / N.linalg.norm(p)
            view = rng.randn(dim) * 5
            base = Conic.from_semiaxes([r] * dim)
            e = dict(d=enc(N.linalg.norm(p)), a=enc(r), b=enc([r] * (dim - 1)))
            for tan in (0, 1):
                kw = dict(tangent=True) if tan else {}
                s = base.translate(p)
                T.ev("subtend", tangent=tan, out=enc(call(s.angle_subtended, **kw)), **e)
                T.ev("subtend", tangent=tan, out=enc(call(angle_subtended, base.translate(p + view), viewpoint=view, **kw)), **e)
                T.ev("subtend", tangent=tan, out=enc(call(angle_subtended, base.translate(p * 0 + view - p), viewpoint=list(view), **kw)), **e)
    for i in range(6):
        a = rng.uniform(.5, 3, 3)
        j = i % 3
        p = N.zeros(3)
        p[j] = a[j] * rng.uniform(1.3, 6) * rng.choice([-1, 1])
        e = Conic.from_semiaxes(a).translate(p)
        T.ev("subtend", tangent=0, d=enc(abs(p[j])), a=enc(a[j]), b=enc(N.sort(N.delete(a, j))[::-1]), out=enc(call(e.angle_subtended)))
        q = rotation(rng)
        f = N.identity(4)
        f[:3, :3] = q
        e = Conic.from_semiaxes(a).translate(p).transform(f)
        T.ev("subtend", tangent=1, d=enc(abs(p[j])), a=enc(a[j]), b=enc(N.sort(N.delete(a, j))[::-1]), out=enc(call(e.angle_subtended, tangent=True)))


def make(T, rng):
    for a in ([2., 1.], [3, 2, 1], [.5, .25, 7.], [1e-3, 1e3], list(rng.uniform(.1, 9, 3))):
        for arr in (a, N.array(a), tuple(a)):
            T.ev("make", kind="axes", a=enc(a), out=enc(call(Conic.from_axes, arr)))
            T.ev("make", kind="semiaxes", a=enc(a), out=enc(call(Conic.from_semiaxes, arr)))


def symbolic(T, rng):
    """The exact counterparts for sympy matrices."""
    from sympy import Matrix
    from attitude.geom import symbolic_math as S
    dim = rng.randint(2, 4)
    m = rng.randint(-4, 5, (dim + 1, dim + 1))
    m = m + m.T
    if abs(N.linalg.det(m)) < .5 or abs(N.linalg.det(m[:-1, :-1])) < .5:
        return
    M = Matrix(m.tolist())
    num = lambda x: N.array(x.tolist(), dtype=float)
    E = dict(m=enc(m))
    T.ev("center", out=enc(call(lambda: num(S.center(M)).ravel())), **E)
    T.ev("dual", out=enc(call(lambda: num(S.dual(M)))), **E)
    v = rng.randint(-3, 4, dim)
    pl = call(lambda: S.polar_plane(M, v.tolist()))
    T.ev("sympolar", v=enc(v), out=enc(call(lambda: num(pl).ravel())), **E)
    T.ev("sympolar", v=enc(v * 0), out=enc(call(lambda: num(S.polar_plane(M)).ravel())), **E)
    if not isinstance(pl, Err) and any(pl[:-1]):
        T.ev("distance", v=enc(v), out=enc(call(lambda: float(S.origin_distance(pl)))), **E)


def run(T, cases, rng, tier):
    for i, c in enumerate(cases):
        T.guard("mc%d" % i, replay, T, rng, c)
    for i in range(150 if tier == "quick" else 1000):
        def rand():
            dim = 2 + i % 2
            kind = i % 4
            if kind < 2:      # ellipse / ellipsoid
                a = 10 ** rng.uniform(-.7, .7, dim)
                k = Conic.from_semiaxes(a) if i % 8 < 4 else Conic.from_axes(list(a))
                R = rotation(rng)[:dim, :dim] if dim == 3 else (lambda t: N.array([[N.cos(t), -N.sin(t)], [N.sin(t), N.cos(t)]]))(rng.rand() * 7)
                f = N.identity(dim + 1)
                f[:dim, :dim] = R
                k = step(T, k, "transform", f)
                k = step(T, k, "translate", rng.randn(dim) * 3)
                if i % 5 == 0:
                    k = conic(N.array(k) * 10 ** rng.uniform(-3, 3))
            else:             # any symmetric matrix
                m = rng.randn(dim + 1, dim + 1)
                k = conic(m + m.T)
                k = step(T, k, "translate", rng.randn(dim))
            inspect(T, k, rng)
        T.guard("rand%d" % i, rand)
    for i in range(60 if tier == "quick" else 400):
        T.guard("stretched%d" % i, stretched, T, rng, i)
    for i in range(60 if tier == "quick" else 400):
        def size():           # far larger or smaller than their offset
            dim = 2 + i % 2
            L = 10 ** (i % 9 - 4.)
            k = Conic.from_semiaxes(rng.uniform(.5, 2, dim) * L)
            k = step(T, k, "translate", rng.randn(dim) * L * rng.choice([.1, 1, 10]))
            if i % 4 == 0:
                k = conic(N.array(k) * 10 ** rng.uniform(-6, 6))
            inspect(T, k, rng, near_shell(k, rng))
        T.guard("size%d" % i, size)
    for i in range(30):
        T.guard("parabola%d" % i, parabola, T, rng)
    T.guard("make", make, T, rng)
    for i in range(40):
        T.guard("symbolic%d" % i, symbolic, T, rng)
    for i in range(5):
        T.guard("subtend%d" % i, subtend, T, rng)


if __name__ == "__main__":
    main(run)
