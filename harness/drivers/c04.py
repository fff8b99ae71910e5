from vlib import *
from functools import partial
from clouds import catalogue, exact_axes, rotation, planar
from attitude.orientation import Orientation
from attitude.orientation.grouped import GroupedOrientation
from attitude.error import axes as E
from attitude.stereonet import scale_errors
from attitude.error import to_normal_errors, from_normal_errors

LEVELS = [None, .5, .8, .95, .99]


def log_axes(T, n, eig, method, p, chisq, onall, h, dof=2):
    ang = call(E.angular_errors, h) if not isinstance(h, Err) else h
    tn = call(to_normal_errors, h)
    T.ev("axes", n=n, eig=enc(eig), method=method, p=enc(p), chisq=chisq, onall=onall, dof=dof, h=enc(h),
         ang=enc(ang), tn=enc(tn), back=enc(call(from_normal_errors, tn)))


def log_fit(T, o, n, eig, method, p, chisq, onall, length):
    T.ev("fit", n=n, eig=enc(eig), method=method, p=enc(p), chisq=chisq, onall=onall, dof=2,
         h=enc(attr(o, "hyperbolic_axes")), deg=enc(call(o.angular_errors, degrees=True)),
         rad=enc(call(o.angular_errors, degrees=False)), dflt=enc(call(o.angular_errors)),
         one=enc(call(o.angular_error, length)), len=enc(length),
         share=enc(attr(o, "explained_variance")))


def via(route, method, o, p, chisq, onall, dof=2):
    kw = dict(confidence_level=p)
    if dof != 2:
        kw["dof"] = dof
    if chisq:
        kw["chisq"] = True
    if not onall:
        kw["variance_on_all_axes"] = False
    f = E.noise_axes if method == "noise" else E.sampling_axes
    if route == "direct":
        return call(f, o, **kw)
    if route == "statistical":
        return call(E.statistical_axes, o, method=method, **kw)
    if route == "dispatch":
        return call(E.hyperbolic_axes, o, type=method, **kw)
    o.method = partial(f, **kw)
    return attr(o, "hyperbolic_axes")


def run(T, cases, rng, tier):
    clouds = {}
    for i, c in enumerate(cases):
        def one():
            n = c["m"] ** 2 + 2
            a = N.array(c["a"], dtype=float)
            key = (n, tuple(c["a"]))
            if key not in clouds:
                clouds[key] = exact_axes(rng, max(n, 4), a * N.sqrt(max(n, 4) - 1), rotation(rng)) + rng.randn(3) * 5
            arr = clouds[key]
            n = len(arr)
            o = Orientation(arr)
            q = c["opt"]
            p = LEVELS[q["level"]]
            h = via(q["route"], q["method"], o, p, q["chisq"], q["onall"])
            log_axes(T, n, a ** 2, q["method"], p, q["chisq"], q["onall"], h)
            if q["route"] == "fit":
                log_fit(T, o, n, a ** 2, q["method"], p, q["chisq"], q["onall"], float(i % 7 + .5))
        T.guard("mc%d" % i, one)
    for name, a in catalogue(rng, tier):
        a = N.array(a, dtype=float)

        def one():
            o = Orientation(a)
            n = len(a)
            eig = N.linalg.svd(a - a.mean(axis=0), compute_uv=False) ** 2 / (n - 1)
            log_fit(T, o, n, eig, "noise", .95, 0, 1, 2.5)
            log_axes(T, n, eig, "noise", .95, 0, 1, call(E.noise_axes, o))
            log_axes(T, n, eig, "noise", .95, 0, 1, call(E.hyperbolic_axes, o))
            log_axes(T, n, eig, "noise", .95, 0, 1, call(E.statistical_axes, o))
            log_axes(T, n, eig, "sampling", .95, 0, 1, call(E.sampling_axes, o))
            log_axes(T, n, eig, "variance", .95, 0, 1, call(E.eigenvalue_axes, o))
            log_axes(T, n, eig, "variance", .95, 0, 1, call(E.variance_axes, o))
            log_axes(T, n, eig, "francq", .95, 0, 1, call(E.francq_axes, o))
            log_axes(T, n, eig, "babamoradi", .95, 0, 1, call(E.babamoradi_axes, o))
            p = float(rng.choice([.1, .68, .9, .975, .999]))
            log_axes(T, n, eig, "francq", p, 0, 0, call(E.francq_axes, o, p, variance_on_all_axes=False))
            log_axes(T, n, eig, "babamoradi", p, 0, 1, call(E.babamoradi_axes, o, confidence_level=p))
            for m in ("noise", "sampling"):
                for chisq in (0, 1):
                    for onall in (0, 1):
                        r = ["direct", "statistical", "dispatch", "fit"][rng.randint(4)]
                        p = float(rng.choice([.01, .1, .5, .68, .9, .95, .975, .999]))
                        log_axes(T, n, eig, m, p, chisq, onall, via(r, m, o, p, chisq, onall))
            o = Orientation(a)
            p = float(rng.choice([.1, .68, .9, .975, .999]))
            T.ev("cov", n=n, eig=enc(eig), p=enc(p), dof=2, noise=enc(call(E.noise_covariance, o)), noised=enc(call(E.noise_covariance, o, dof=2)), mean=enc(call(E.mean_estimator, eig, n)),
                 sampling=enc(call(E.sampling_covariance, o)), fisher=enc(call(E.fisher_statistic, n, p)))
            ps = [.05, .3, .5, .68, .8, .9, .95, .99, .999]
            for m, f in (("noise", E.noise_axes), ("sampling", E.sampling_axes)):
                o.method = None
                angs = []
                for p in ps:
                    o.method = partial(f, confidence_level=p)
                    angs.append(enc(call(o.angular_errors)))
                T.ev("grow", n=n, eig=enc(eig), method=m, ps=[enc(p) for p in ps], angs=angs)
        T.guard("cat-" + name, one)
    # histories of neighbouring requests: nearly equal levels, equal n, other degrees of freedom
    close = [.9, .904, .9041, .949, .95, .9501, .95001, .9549, .99, .994, .9949, .995, .999, .9994, .5, .501, .505]
    for i in range(40 if tier == "quick" else 300):
        def sweep():
            n = int(rng.choice([5, 6, 17, 40, 41, 250]))
            fits = []
            for k in range(3):
                a = planar(rng, n + (k == 2), (10, 4, .3))
                eig = N.linalg.svd(a - a.mean(axis=0), compute_uv=False) ** 2 / (len(a) - 1)
                fits.append((Orientation(a), eig, len(a)))
            for k in range(14):
                o, eig, m = fits[rng.randint(3)]
                p = float(close[rng.randint(len(close))])
                dof = int(rng.choice([1, 2, 2, 3])) if m > 4 else 2
                meth = ["noise", "sampling"][rng.randint(2)]
                chisq, onall = int(rng.randint(4) == 0), int(rng.randint(4) > 0)
                r = ["direct", "statistical", "dispatch", "fit"][rng.randint(4)]
                log_axes(T, m, eig, meth, p, chisq, onall, via(r, meth, o, p, chisq, onall, dof), dof)
                o.method = E.noise_axes
                if k % 4 == 0:
                    T.ev("cov", n=m, eig=enc(eig), p=enc(p), dof=dof, noise=enc(call(E.noise_covariance, o)), noised=enc(call(E.noise_covariance, o, dof=dof)), mean=enc(call(E.mean_estimator, eig, m)),
                         sampling=enc(call(E.sampling_covariance, o)), fisher=enc(call(E.fisher_statistic, m, p, dof)))
                    log_axes(T, m, eig, "francq", p, 0, 1, call(E.francq_axes, o, confidence_level=p))
                    log_axes(T, m, eig, "babamoradi", p, 0, 1, call(E.babamoradi_axes, o, confidence_level=p))
        T.guard("sweep%d" % i, sweep)
    for i in range(40):
        def scale():
            c = 10 ** rng.uniform(-6, 6, rng.randint(1, 5))
            p = float(rng.choice([.1, .5, .68, .9, .95, .99]))
            T.ev("scale", c=enc(c), p=enc(.95 if i % 4 == 0 else p), out=enc(call(scale_errors, c) if i % 4 == 0 else call(scale_errors, c, *([p] if i % 2 else []), **({} if i % 2 else dict(confidence_level=p)))))
        T.guard("scale%d" % i, scale)
    for i in range(6):
        def grp():
            parts = [planar(rng, rng.randint(5, 20), center=rng.randn(3) * 9) for _ in range(3)]
            same = bool(i % 2)
            o = GroupedOrientation(*[Orientation(x) for x in parts], same_plane=same)
            a = N.vstack(parts if same else [x - x.mean(axis=0) for x in parts])
            n = len(a)
            eig = N.linalg.svd(a - a.mean(axis=0), compute_uv=False) ** 2 / (n - 1)
            log_fit(T, o, n, eig, "noise", .95, 0, 1, 4.)
            log_axes(T, n, eig, "sampling", .8, 0, 1, call(E.sampling_axes, o, confidence_level=.8))
        T.guard("group%d" % i, grp)


if __name__ == "__main__":
    main(run)
