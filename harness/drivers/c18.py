"""Ordinary least squares."""
from vlib import *
from clouds import planar, catalogue
from attitude.orientation.linear import Regression, LinearOrientation
from attitude.error.ellipse import ellipse
from attitude.orientation.base import ellipse as ellipse2


def ask(r, q):
    v = getattr(r, q)
    if callable(v):
        v = v()
    if q == "predictions":
        v = N.array(v)
    return v


QUERIES = ["coefficients", "predictions", "residuals", "covariance_matrix", "standard_errors"]


def fitted(T, pts, arg=None, rng=None, order=None):
    pts = N.array(pts, dtype=float)
    arg = pts.copy() if arg is None else arg
    keep = N.array(arg, copy=True)
    r = Regression(arg)
    if order is None:
        order = list(QUERIES)
        if rng is not None:
            rng.shuffle(order)
    a = {q: call(ask, r, q) for q in order}
    c = pts - pts.mean(axis=0)
    cond = N.linalg.cond(N.column_stack([c[:, :2] / max(abs(c[:, :2]).max(), 1e-300), N.ones(len(c))]))
    off = 1 + abs(pts).max() / max(abs(c).max(), 1e-300)
    T.ev("fitted", pts=enc(pts), coef=enc(a["coefficients"]), pred=enc(a["predictions"]), res=enc(a["residuals"]),
         cov=enc(a["covariance_matrix"]), se=enc(a["standard_errors"]), tol=enc(1e-13 * off * cond ** 2 * 10),
         counts=[int(r.nobs), int(r.ncoef), int(r.df_e), int(r.df_r)],
         same=int(N.array_equal(keep, N.array(arg))))


def ok(pts):
    c = N.array(pts, dtype=float)
    c = c - c.mean(axis=0)
    h = abs(c[:, :2]).max()
    return len(c) > 2 and h > 0 and N.linalg.cond(N.column_stack([c[:, :2] / h, N.ones(len(c))])) < 1e3


def layouts(T, pts, i):
    if len(pts) > 3:
        for arg in (pts.T.copy(), tuple(pts.T), [list(x) for x in pts], pts[:, :].T.astype(float), N.asfortranarray(pts)):
            fitted(T, pts, arg)


def errors(T, pts):
    o = LinearOrientation(pts)
    cov = Regression(pts).covariance_matrix
    T.ev("errors", cov=enc(cov), az=enc(o.azimuth), out=enc(call(o.errors)))
    T.ev("turned", coef=enc(Regression(pts).coefficients), az=enc(o.azimuth), slope=enc(o.slope), out=enc(o.coefficients))
    for r in (call(o.dip_direction, uncertainties=True), call(o.strike_dip, uncertainties=True)):
        T.ev("errors", cov=enc(cov), az=enc(o.azimuth), out=enc(r if isinstance(r, Err) else r[1]))


def ellipses(T, rng, i):
    L = 10 ** (rng.uniform(-2, 2, 2) if i % 3 else rng.uniform(-4, 4, 2))
    t = rng.rand() * 7 if i % 3 else 0.
    q = N.array([[N.cos(t), -N.sin(t)], [N.sin(t), N.cos(t)]])
    cov = q.dot(N.diag(L ** 2)).dot(q.T)
    cov[0, 1] = cov[1, 0]
    c = (0., 0.) if i % 4 == 0 else tuple(rng.randn(2))
    n, level = [5, 7, 12, 40][i % 4], [1, 2, .5, 1][i % 4]
    for f in (ellipse, ellipse2):
        T.ev("ellipse", cov=enc(cov), c=enc(c), n=n, level=enc(level), out=enc(call(f, c, cov, level=level, n=n)))
        T.ev("ellipse", cov=enc(cov), c=enc(c), n=n, level=enc(1), out=enc(call(f, c, cov, n=n)))
        if i % 8 == 0:
            T.ev("ellipse", cov=enc(cov), c=enc(c), n=1000, level=enc(1), out=enc(call(f, c, cov)))


def run(T, cases, rng, tier):
    for i, c in enumerate(cases):
        if not c["asked"]:
            T.guard("mc%d" % i, fitted, T, c["pts"], N.array(c["pts"]) if i % 3 else c["pts"], rng)
        else:
            def queries():
                r = Regression(N.array(c["pts"], dtype=float))
                for q in c["asked"]:
                    T.ev("asked", q=q, got=enc(call(ask, r, q)), want=enc(call(ask, Regression(N.array(c["pts"], dtype=float)), q)))
            T.guard("mc%d" % i, queries)
    for name, a in catalogue(rng, tier):
        if ok(a) and len(a) < 6000:
            T.guard("cat-" + name, fitted, T, a, a, rng)
    for i in range(300 if tier == "quick" else 600):
        n = [3, 4, 5, 8, 30, 120][i % 6]
        L = 10 ** rng.uniform(-2, 3, 3)
        pts = rng.randn(n, 3) * L + (rng.randn(3) * 10 ** rng.uniform(0, 5) if i // 6 % 3 == 0 else 0)
        pts[:, 2] += pts[:, :2].dot(rng.randn(2)) if i % 7 else 10 ** rng.uniform(-7, 3) * pts[:, :2].dot(rng.randn(2)) - pts[:, 2] * (1 - 1e-9)
        if ok(pts):
            T.guard("rand%d" % i, fitted, T, pts, None, rng)
            if n > 3:
                T.guard("errors%d" % i, errors, T, pts)
            T.guard("ellipse%d" % i, ellipses, T, rng, i)
            if i % 4 == 0:
                T.guard("layout%d" % i, layouts, T, pts, i)


if __name__ == "__main__":
    main(run)
