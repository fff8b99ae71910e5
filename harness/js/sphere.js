// C21: curves and features of the viewer's stereonet.
require('./view.js').serve({core: 'attitude/src/index.ts'}, (m, enc) => {
  const {math, functions} = m.core, d3 = require(require('./build.js').D3);
  const feature = f => ({type: f && f.type, geom: f && f.geometry && f.geometry.type,
    rings: f && f.geometry ? (f.geometry.type === 'LineString' ? [enc(f.geometry.coordinates)]
      : f.geometry.type === 'Polygon' ? f.geometry.coordinates.map(enc)
      : f.geometry.coordinates.map(p => enc(p[0]))) : []});
  return {
    plane: (h, A, o) => ({out: enc(math.planeErrors(h, A, o))}),
    normal: (h, A, o) => ({out: enc(math.normalErrors(h, A, o))}),
    combined: (h, A, o, probes) => {
      const r = math.combinedErrors(h, A, o), keys = Object.keys(r).sort();
      const e = {nominal: enc(r.nominal), upper: enc(r.upper), lower: enc(r.lower), keys};
      const line = feature(functions.nominalPlane(r));
      const f = functions.errorSurface(r), g = functions.errorSurface(r);
      e.line = line; e.surface = feature(f); e.again = feature(g);
      e.area = enc(f.properties.area);
      e.inside = probes.map(p => d3.geoContains(f, p) ? 1 : 0); e.inside2 = probes.map(p => d3.geoContains(g, p) ? 1 : 0);
      return e;
    },
    ellipse: (p, o, probes) => {
      const before = JSON.stringify(p), fn = functions.errorEllipse(o);
      const fs = Array.isArray(fn) ? fn : [fn];
      const out = fs.map(g => {
        const f = g(p), t = feature(f);
        t.inside = probes.map(q => d3.geoContains(f, q) ? 1 : 0);
        t.level = enc(f.properties.level);
        return t;
      });
      return {many: Array.isArray(fn) ? 1 : 0, out, same: before === JSON.stringify(p) ? 1 : 0};
    },
    deconvolve: A => { const [s, a] = math.deconvolveAxes(A); return {s: enc(s), a: enc(a)} },
    sph: (v, o) => ({out: enc(math.cart2sph(o)(v))}),
  };
});
