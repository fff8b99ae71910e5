"""Error surfaces on the sphere (C14: girdles, C15: poles)."""
from vlib import *
from clouds import planar, rotation, dipping, catalogue
from attitude import stereonet as S
from attitude.orientation import Orientation, ReconstructedPlane
from attitude.orientation.grouped import GroupedOrientation
from attitude.error.axes import noise_axes, sampling_axes
from attitude.display import stereonet as DS
from attitude.display import polar as DP
from matplotlib.figure import Figure

WHICH = os.environ.get("VERIF_WHICH", "C14")
AX = {}


def patch(f, polar, *args, **kw):
    if polar not in AX:
        AX[polar] = Figure().add_subplot(111, **(dict(projection="polar") if polar else {}))
    ax = AX[polar]
    f(ax, *args, **kw)
    p = ax.patches[-1].get_path()
    v, c = N.array(p.vertices), N.array(p.codes)
    ax.patches[-1].remove()
    starts = [i for i, x in enumerate(c) if x == 1] + [len(v)]
    return [v[a:b] for a, b in zip(starts, starts[1:])]


def lay(x, deg=False):
    return ("traditional" if x else "natural") + ("-degrees" if deg else "")


def rings(T, axes, cov, n, layout, rs):
    T.ev("rings", axes=enc(axes), cov=enc(cov), n=n, lay=layout, rings=len(rs),
         outer=enc(rs[0] if rs else None), inner=enc(rs[1] if len(rs) > 1 else None))


def polygon(f, *a, **kw):
    g = call(f, *a, **kw)
    if isinstance(g, Err):
        return []
    g = list(g.geometries())[0]
    return [N.array(g.exterior.coords)] + [N.array(i.coords) for i in g.interiors]


def girdles(T, axes, cov, c):
    n, sheet, level, layout = c["n"], c["sheet"], c["level"], c["layout"]
    e = dict(axes=enc(axes), cov=enc(cov), sheet=sheet, n=n)
    kw = {} if layout == 1 and n % 2 else dict(traditional_layout=bool(layout))
    if level != 1:
        kw["level"] = level
    if sheet == "upper" and n % 3:
        out = call(S.plane_errors, axes, cov, n=n, **kw)
    else:
        out = call(S.plane_errors, axes, cov, sheet=sheet, n=n, **kw)
    T.ev("sheet", level=enc(level), lay=lay(layout), out=enc(out), **e)
    if layout == 1:
        kw = {} if level == 1 else dict(level=level)
        T.ev("sheet", level=enc(level), lay=lay(1), out=enc(call(S.iterative_plane_errors, axes, cov, sheet=sheet, n=n, **kw)), **e)
    if level == 1 and layout == 1:
        kw = {} if n % 2 else dict(traditional_layout=True)
        d = call(S.error_coords, axes, cov, ellipse=False, n=n, **kw)
        T.ev("sheet", level=enc(1), lay=lay(1, True), out=enc(d if isinstance(d, Err) else d.get(sheet)), **e)
    elif level != 1:
        levels = [1, level, 3]
        d = call(S.error_coords, axes, cov, ellipse=False, n=n, levels=levels, traditional_layout=bool(layout))
        T.ev("keys", got=sorted(map(str, d)) if isinstance(d, dict) else [], want=sorted(map(str, levels + ["nominal"])))
        if isinstance(d, dict):
            for l in levels:
                x = d.get("nominal") if sheet == "nominal" else d.get(l, {}).get(sheet)
                T.ev("sheet", level=enc(l), lay=lay(layout, True), out=enc(x), **e)


def girdle_fit(T, o, n):
    axes, cov = o.axes, o.covariance_matrix
    if hasattr(o, "plane_errors"):
        for sheet in ("upper", "lower", "nominal"):
            T.ev("sheet", axes=enc(axes), cov=enc(cov), sheet=sheet, n=n, level=enc(1), lay=lay(1),
                 out=enc(call(o.plane_errors, sheet=sheet, n=n)))
            d = call(o.error_coords, ellipse=False, n=n)
            T.ev("sheet", axes=enc(axes), cov=enc(cov), sheet=sheet, n=n, level=enc(1), lay=lay(1, True),
                 out=enc(d if isinstance(d, Err) else d.get(sheet)))


def girdle_display(T, o, args=None):
    axes, cov = o.axes, o.covariance_matrix
    T.ev("sheet", axes=enc(axes), cov=enc(cov), sheet="lower", n=1000, level=enc(1), lay=lay(1),
         out=enc(call(S.plane_errors, axes, cov, "lower")))
    rings(T, axes, cov, 1000, "patch", patch(DS.girdle_error, False, o))
    if args is not None:
        rings(T, axes, cov, 1000, "patch", patch(DS.uncertain_plane, False, *args))
        rings(T, axes, cov, 1000, lay(0, True), polygon(o.cartopy_girdle))
    else:
        from attitude.display.cartopy import cartopy_girdle
        rings(T, axes, N.diag(noise_axes(o)), 1000, lay(1, True), polygon(cartopy_girdle, o))
        rings(T, axes, N.diag(sampling_axes(o, confidence_level=.8)), 1000, lay(1, True),
              polygon(cartopy_girdle, o, type="sampling", confidence_level=.8))


def pole_ev(T, axes, cov, n, layout, out, level=1):
    T.ev("pole", level=enc(level), axes=enc(axes), cov=enc(cov), n=n, lay=layout, out=enc(out))


def poles(T, axes, cov, c):
    n, layout = c["n"], c["layout"]
    kw = {} if layout == 1 and n % 2 else dict(traditional_layout=bool(layout))
    level = c["level"]
    if level != 1:
        kw["level"] = level
    e = (axes.copy(), cov.copy(), n, lay(layout))
    pole_ev(T, *e, call(S.normal_errors, axes, cov, n=n, **kw), level)
    pole_ev(T, *e, call(S.iterative_normal_errors, axes, cov, n=n, **kw), level)
    if n % 4 == 1 and layout == 0:
        for s in ([-1, -1, -1], [-1, 1, 1], [1, -1, 1], [1, 1, -1]):
            b = (axes.T * s).T
            T.ev("flip", n=n, a=enc(call(S.normal_errors, axes, cov, n=n, traditional_layout=False)),
                 b=enc(call(S.normal_errors, b, cov, n=n, traditional_layout=False)))


def pole_display(T, o, args=None):
    axes, cov = o.axes, o.covariance_matrix
    pole_ev(T, axes, cov, 1000, lay(1), call(S.normal_errors, axes, cov))
    pole_ev(T, axes, cov, 100, lay(1), call(S.iterative_normal_errors, axes, cov))
    one = lambda rs: rs[0] if len(rs) == 1 else None
    pole_ev(T, axes, cov, 1000, "patch", one(patch(DS.pole_error, False, o)))
    pole_ev(T, axes, cov, 1000, "polar", one(patch(DP.pole_error, True, o)))
    if args is not None:
        pole_ev(T, axes, cov, 1000, "patch", one(patch(DS.uncertain_pole, False, *args)))
        pole_ev(T, axes, cov, 1000, "polar", one(patch(DP.uncertain_pole, True, *args)))
        pole_ev(T, axes, cov, 1000, lay(0, True), one(polygon(o.cartopy_normal)))
    else:
        from attitude.display.cartopy import cartopy_normal
        pole_ev(T, axes, N.diag(noise_axes(o)), 1000, lay(1, True), one(polygon(cartopy_normal, o)))
        pole_ev(T, axes, N.diag(sampling_axes(o, confidence_level=.8)), 1000, lay(1, True),
                one(polygon(cartopy_normal, o, type="sampling", confidence_level=.8)))


def drawn(T, rng):
    ax = Figure().add_subplot(111, projection="polar")
    for s in list(range(0, 360, 30)) + list(rng.uniform(0, 360, 10)):
        for d in (0., 10., 45., 89., 90.):
            DP.pole(ax, s, d)
            line = ax.lines[-1]
            T.ev("drawn", strike=enc(s), dip=enc(d), out=enc([line.get_xdata()[0], line.get_ydata()[0]]))
            line.remove()


def steep(rng, z):
    """Axes whose third has this vertical component."""
    s, t = rng.uniform(0, 2 * N.pi, 2)
    n = N.array([N.cos(s) * N.sqrt(1 - z * z), N.sin(s) * N.sqrt(1 - z * z), z])
    u = N.array([-N.sin(s), N.cos(s), 0])
    v = N.cross(n, u)
    return N.array([N.cos(t) * u + N.sin(t) * v, N.cos(t) * v - N.sin(t) * u, n])


def run(T, cases, rng, tier):
    surf, fit, display = (girdles, girdle_fit, girdle_display) if WHICH == "C14" else (poles, None, pole_display)
    seen = set()
    for i, c in enumerate(cases):
        axes, cov = N.array(c["axes"]) / 5., N.diag(N.array(c["d"], dtype=float))
        if WHICH == "C15":
            key = (str(c["axes"]), str(c["d"]), c["layout"], c["n"], c["level"])
            if key in seen:
                continue
            seen.add(key)
        T.guard("mc%d" % i, surf, T, axes, cov, c)
    for i in range(80 if tier == "quick" else 500):
        def rand():
            axes = rotation(rng) * rng.choice([-1, 1], 3)[:, None]
            if i % 5 == 3:      # nearly upright or nearly level planes
                z = 10 ** rng.uniform(-6, -.5)
                axes = steep(rng, z if i % 2 else N.sqrt(1 - z * z)) * rng.choice([-1, 1], 3)[:, None]
            cov = N.diag(N.sort(10 ** rng.uniform(-3, 3, 3))[::-1])
            if i % 4 == 1:
                cov = N.diag(rng.randint(1, 9, 3))
            elif i % 4 == 2:
                cov = N.diag(10 ** rng.uniform(-3, 3, 3))
            for layout in (0, 1):
                for sheet in ("upper", "lower", "nominal"):
                    surf(T, axes, cov, dict(n=int(rng.choice([2, 3, 8, 13, 24])), sheet=sheet,
                                            level=[1, 0, 2, .5, .01, 30][rng.randint(6)], layout=layout))
                    if WHICH == "C15":
                        break
        T.guard("rand%d" % i, rand)
    for name, a in catalogue(rng, "quick"):
        if len(a) > 400 or name in ("collinear", "vertical", "flat", "exactplane"):
            continue
        o = Orientation(N.array(a, dtype=float))
        if abs(o.axes[2, 2]) < 1e-9:
            continue
        if fit:
            T.guard("cat-" + name, fit, T, o, 9)
        elif name[-1] in "0369":
            T.guard("cat-" + name, poles, T, o.axes, o.covariance_matrix, dict(n=9, layout=0, level=1))
    for i in range(6 if tier == "quick" else 30):
        a = planar(rng, 30, (10, 6, .4))
        if i % 3 == 1:
            a = planar(rng, 30, (10, 6, .05), R=steep(rng, 10 ** rng.uniform(-4, -1.5)))
        T.guard("display-fit%d" % i, lambda: display(T, Orientation(a)))
        args = (rng.uniform(0, 360), rng.uniform(2, 88), rng.uniform(0, 180), 8., 3.)
        if i % 3 == 1:
            args = (float(rng.choice([0, 90, 180, 270])), float(rng.choice([.01, 89.9])), float(rng.choice([0, 90, 30])), rng.uniform(1, 90), rng.uniform(.1, 1))
        T.guard("display-recon%d" % i, lambda: display(T, ReconstructedPlane(*args), args))
    for i, n in enumerate((257, 1002, 5000)):
        def long():
            axes = rotation(rng) * rng.choice([-1, 1], 3)[:, None]
            surf(T, axes, N.diag([9., 4, .2]), dict(n=n, sheet=["upper", "lower", "nominal"][i], level=1 + i % 2, layout=1 - i % 2))
        T.guard("long%d" % n, long)
    T.guard("display-group", lambda: display(T, GroupedOrientation(Orientation(planar(rng, 20)), Orientation(planar(rng, 9)))))
    if WHICH == "C15":
        T.guard("drawn", drawn, T, rng)


if __name__ == "__main__":
    main(run)
