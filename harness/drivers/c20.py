"""Elevations read out of rasters."""
import contextlib
import io
import logging

from vlib import *
from affine import Affine
import rasterio
from rasterio.io import MemoryFile
from shapely.geometry import (Polygon, MultiPolygon, LineString, MultiLineString,
                              LinearRing, Point, box, mapping)
from shapely.ops import unary_union
from attitude.helpers import dem as D
from attitude.helpers import interpolation as I

logging.disable(logging.CRITICAL)


class Raster(object):
    def __init__(self, rng, h, w, tr, dtype="float64", blanks=.0, bands=1, level=None):
        self.h, self.w, self.tr = h, w, tr
        z = rng.randn(bands, h, w) * 500 + rng.uniform(-2000, 3000)
        if level is not None:
            z[...] = level
        if dtype.startswith("int"):
            z = N.round(z)
        self.z = z.astype(dtype)
        self.blank = rng.rand(bands, h, w) < blanks
        # how missing elevations are marked: a value, NaN, NaN that is not declared, or a mask beside the elevations
        self.how = "value"
        if dtype.startswith("float") and blanks:
            self.how = ["value", "nan", "raw"][rng.randint(3)]
        if bands == 1 and blanks and rng.randint(4) == 0:
            self.how = "mask"
        self.nodata = -32000 if self.how in ("value", "mask") else N.nan
        raw = self.z.copy()
        raw[self.blank] = self.nodata
        self.mf = MemoryFile()
        kw = dict(driver="GTiff", height=h, width=w, count=bands, dtype=dtype, transform=tr)
        if blanks and self.how not in ("raw", "mask"):
            kw["nodata"] = self.nodata
        with rasterio.Env(GDAL_TIFF_INTERNAL_MASK=True), self.mf.open(**kw) as d:
            d.write(raw)
            if self.how == "mask":
                d.write_mask(~self.blank[0])
        self.ds = self.mf.open()

    def elevations(self, band=1):
        z = self.z[band - 1].astype(float)
        z[self.blank[band - 1]] = N.nan
        return z

    def fields(self, band=1):
        t = self.tr
        return dict(z=enc(self.elevations(band)), tr=enc([t.a, t.b, t.c, t.d, t.e, t.f]))

    def world(self, pts):
        return [self.tr * tuple(p) for p in pts]

    def close(self):
        self.ds.close()
        self.mf.close()


def rings_of(g):
    if g.geom_type == "MultiPolygon":
        return sum([rings_of(x) for x in g.geoms], [])
    return [N.array(r.coords)[:-1, :2] for r in [g.exterior] + list(g.interiors)]


def area(T, ras, geom, band=None):
    kw = {} if band is None else dict(band=band)
    e = dict(rings=[enc(r) for r in rings_of(geom)], **ras.fields(band or 1))
    if ras.how != "raw":
        T.ev("area", via="extract_area", out=enc(call(D.extract_area, geom, ras.ds, **kw)), **e)
    T.ev("area", via="extract_shape", out=enc(call(D.extract_shape, geom, ras.ds, **kw)), **e)


def line(T, ras, parts, geom, subdivide=None, band=None):
    """subdivide: in pixels; a multiple of 1/4"""
    kw = {} if band is None else dict(band=band)
    if subdivide != "default":
        kw["subdivide"] = subdivide
    gap = {None: 0, "default": 4}.get(subdivide, subdivide)
    gap = int(gap if gap in (0, 4) and not isinstance(subdivide, (int, float)) else subdivide * 4)
    e = dict(pts=enc(N.concatenate([N.array(p)[:, :2] for p in parts])), gap=gap,
             parts=[int(x) for x in N.cumsum([len(p) for p in parts])], **ras.fields(band or 1))
    T.ev("line", via="extract_line", drop=0, out=enc(call(D.extract_line, geom, ras.ds, **kw)), **e)
    if gap == 0 or not ras.blank.any():
        T.ev("line", via="extract_shape", drop=1, out=enc(call(D.extract_shape, geom, ras.ds, **kw)), **e)


def transform(rng, i):
    t = Affine.translation(*(rng.uniform(-1, 1, 2) * 10 ** rng.uniform(0, 6.5)))
    if i % 4 == 2:
        t = t * Affine.rotation(rng.uniform(-180, 180))
    k = 10 ** rng.uniform(-1, 2)
    sx, sy = k, -k
    if i % 4 == 1:
        sy = -k * rng.uniform(.4, 2.5)
    if i % 4 == 3:
        sx, sy = [(k, k), (-k, -2 * k), (-k, k)][i // 4 % 3]
    return t * Affine.scale(sx, sy)


def polygon(rng, h, w):
    """A star around a point: never crosses itself (pixel coordinates)."""
    c = rng.uniform(-.5, 1) * N.array([w, h]) if rng.rand() < .2 else rng.uniform(0, 1, 2) * N.array([w, h])
    n = rng.randint(3, 8)
    a = N.sort((N.arange(n) + rng.uniform(0, .9, n)) * 2 * N.pi / n)
    r = rng.uniform(.3, .7, n) * min(h, w) * rng.uniform(.3, 1.3)
    return [(c[0] + x * N.cos(b), c[1] + x * N.sin(b)) for x, b in zip(r, a)]


def run(T, cases, rng, tier):
    quick = tier == "quick"
    lines = [c for c in cases if c["mode"] == "line"]
    masks = [c for c in cases if c["mode"] == "trim"]
    for i, c in enumerate(masks):
        def trim():
            h, w = c["h"], c["w"]
            m = N.array(c["mask"]).reshape(h, w)
            # within a larger raster, at any position
            big = N.zeros((h + i % 3, w + i % 4), dtype=[bool, int, N.uint8, float][i % 4])
            r, s = rng.randint(0, big.shape[0] - h + 1), rng.randint(0, big.shape[1] - w + 1)
            big[r:r + h, s:s + w] = m
            res = call(D.offset_mask, big)
            off, out = (res, res) if isinstance(res, Err) else res
            T.ev("trim", mask=enc(big), off=enc(off), out=enc(out))
            if m.any() and (i % 3 == 0 or not quick):
                ras = Raster(rng, *big.shape, tr=transform(rng, i), dtype=["float64", "float32", "int16"][i % 3], blanks=.2 * (i % 2))
                g = unary_union([box(s + b, r + a, s + b + 1, r + a + 1) for a, b in zip(*N.nonzero(m))])
                from shapely.ops import transform as tf
                g = tf(lambda x, y: ras.tr * (x, y), g)
                area(T, ras, g)
                ras.close()
        T.guard("mask%d" % i, trim)
    step = max(1, len(lines) // (400 if quick else 6000))
    for i, c in enumerate(lines[rng.randint(step)::step]):
        def mcline():
            ras = Raster(rng, c["h"], c["w"], transform(rng, i), dtype=["float64", "float32", "int16"][i % 3], blanks=.15 * (i % 2))
            q = float(c["q"])
            p = ras.world([(c["pts"]["x"][k] / q, c["pts"]["y"][k] / q) for k in (0, 1)])
            line(T, ras, [p], LineString(p))
            ras.close()
        T.guard("line%d" % i, mcline)
    for i in range(12):
        def tall():
            m = N.zeros((rng.randint(250, 300), rng.randint(2, 4)), dtype=[bool, N.uint8][i % 2])
            m[(0 if i % 3 else 20):(256 if i % 3 else 280), 1:] = 1
            if i % 4 > 1:
                m = m.T
            res = call(D.offset_mask, m)
            off, out = (res, res) if isinstance(res, Err) else res
            T.ev("trim", mask=enc(m), off=enc(off), out=enc(out))
            if i % 3 == 0:
                ras = Raster(rng, m.shape[0], m.shape[1], transform(rng, i))
                h, w = m.shape
                area(T, ras, Polygon(ras.world([(.2, .2), (w - .2, .2), (w - .3, h * .9), (.3, h * .95)])))
                ras.close()
        T.guard("tall%d" % i, tall)
    for i in range(24 if quick else 200):
        def still():     # level ground, at any elevation; short lines in fine steps
            h, w = rng.randint(3, 9, 2)
            ras = Raster(rng, h, w, transform(rng, i), dtype=["float64", "float32", "int16"][i % 3], blanks=.1 * (i % 4 == 3), level=[0, 0, 1, -9999, 255, 3e4][i % 6])
            area(T, ras, Polygon(ras.world(polygon(rng, h, w))))
            a = rng.uniform(.6, 1.4, 2) * (w / 2., h / 2.)
            p = ras.world([tuple(a), tuple(a + rng.uniform(-.6, .6, 2))])
            line(T, ras, [p], LineString(p), [.25, .5, 1, "default", None][i % 5])
            ras.close()
        T.guard("still%d" % i, still)
    for i in range(120 if quick else 1500):
        def rand():
            h, w = rng.randint(2, 12, 2)
            bands = 1 + 2 * (i % 5 == 4)
            ras = Raster(rng, h, w, transform(rng, i), dtype=["float64", "float32", "int16", "int32"][i // 4 % 4], blanks=.12 * (i % 3 == 1), bands=bands)
            band = rng.randint(1, 4) if bands == 3 else None
            def inside(n):
                return [tuple(x) for x in rng.uniform(0, 1, (n, 2)) * (w, h)]
            # polygons
            g = Polygon(ras.world(polygon(rng, h, w)))
            area(T, ras, g, band)
            if i % 3 == 0:
                o = polygon(rng, h, w)
                c = N.mean(o, axis=0)
                hole = [tuple(c + .4 * (N.array(x) - c)) for x in o]
                area(T, ras, Polygon(ras.world(o), [ras.world(hole)]), band)
            if i % 3 == 1:
                a, b = rng.uniform(0, w / 2. - .1), rng.uniform(w / 2. + .1, w)
                g = MultiPolygon([Polygon(ras.world([(0.1, 0.2), (a, .3), (a / 2, h)])), Polygon(ras.world([(b, .3), (w, h / 3.), (b, h * .8)]))])
                area(T, ras, g, band)
            # lines
            p = ras.world(inside(rng.randint(2, 6)))
            if i % 2:
                line(T, ras, [p], LineString([x + (rng.randn(),) for x in p]), None, band)
            line(T, ras, [p], LineString(p), [None, "default", .5, 1, 2.25][i % 5], band)
            p2 = ras.world(inside(rng.randint(2, 4)))
            line(T, ras, [p, p2], MultiLineString([p, p2]), [None, "default", 1.5][i % 3], band)
            r = ras.world(inside(3))
            if not ras.blank.any():
                line(T, ras, [r + r[:1]], LinearRing(r), None, band)
            line(T, ras, [p[:1]], Point(p[0]), [None, "default"][i % 2], band)
            # interpolation in the pixel plane
            z = ras.z[0] if i % 2 else ras.z[0].astype(float)
            arr = N.ma.array(z, mask=ras.blank[0]) if ras.blank.any() or i % 4 < 2 else z
            for f, order in ((I.nearest, 0), (I.bilinear, 1), (I.cubic, 2)):
                if order == 2 and ras.blank.any():
                    continue
                p = inside(rng.randint(2, 6)) + [(rng.randint(0, w) + .5, rng.randint(0, h) + .5) for _ in range(2)]
                if i % 2:
                    p = [x + (rng.randn(),) for x in p]
                for g in (LineString(p), MultiLineString([p[:2], p[2:]]), Point(p[0])):
                    pts = D.coords_array(g)
                    o = call(f, arr, g)
                    T.ev("interp", order=order, z=enc(ras.elevations()), pts=enc(pts), kept=int(getattr(o, "geom_type", "") == g.geom_type),
                         out=enc(o if isinstance(o, Err) else call(lambda: N.vstack([x.coords for x in getattr(o, "geoms", [o])]))))
            ras.close()
            # rows without gaps
            x = rng.randn(rng.randint(1, 12), [3, 3, 2, 4][i % 4])
            x[rng.rand(*x.shape) < [0, .1, .5, 1][i % 4]] = N.nan
            if i % 7 == 0:
                x[0, 0] = N.inf
            keep = x.copy()
            with contextlib.redirect_stdout(io.StringIO()):
                o = call(D.clean_coordinates, x, **([{}, dict(silent=True), dict(silent=False)][i % 3]))
            T.ev("clean", x=enc(x), out=enc(o), same=int(N.array_equal(keep, x, equal_nan=True)))
        T.guard("rand%d" % i, rand)


if __name__ == "__main__":
    main(run)
