// C24: stereonets: histories of configuring, turning, dragging and drawing one or two nets.
const {El} = require('./dom.js');
require('./view.js').serve({core: 'attitude/src/index.ts', React: ':react', d3b: ':d3'}, (m, enc, document) => {
  const C = m.core, d3 = m.d3b;
  const g = (n, k) => n.getAttribute(k), nums = t => ((t || '').match(/-?\d+\.?\d*(?:e[-+]?\d+)?|NaN/gi) || []).map(Number);
  const has = (n, c) => (g(n, 'class') || '').split(/\s+/).includes(c) ? 1 : 0;
  const fire = (n, type, x) => (n.handlers[type] || []).slice().forEach(f => f.call(n, {pageX: x[0], pageY: x[1], preventDefault() {}}));
  const bits = x => JSON.stringify(x);
  return {
    nets: (options, ops, probes) => {
      global.window = new El('window', document());
      const nets = options.map(o => ({net: C.Stereonet(o), node: new El('svg', document()), want: {}}));
      const look = (s, x) => {
        const p = s.net.projection(), up = s.up;
        const r = {rot: enc(p.rotate()), scale: enc(p.scale()), mid: enc(p.translate()), size: enc(s.net.size()), margin: enc(s.net.margin()), clip: enc(s.net.clipAngle()),
          at: enc(probes.map(q => p(q))), middle: enc(s.net.centerPosition()), up: up ? 1 : 0};
        r.pclip = enc(p.clipAngle()); r.width = enc(up ? Number(g(s.node, 'width')) : null); r.height = enc(up ? Number(g(s.node, 'height')) : null);
        // every path on the page is that of its datum in the net's projection (itself judged by the probes)
        const path = d3.geoPath().projection(p).pointRadius(2);
        const all = s.node.querySelectorAll('path').filter(n => n.__data__);
        r.paths = all.length; r.stale = all.filter(n => (g(n, 'd') || null) !== (path(n.__data__) || null)).length;
        // a few points of every outline and line that was given to the page
        const few = q => [0, 0.21, 0.47, 0.76].map(t => q[Math.floor(t * (q.length - 1))]);
        const geo = n => n && n.__data__.geometry ? n.__data__.geometry : {type: '', coordinates: []};
        const outlines = n => { const c = geo(n), q = c.type === 'MultiPolygon' ? c.coordinates.flat() : c.type === 'LineString' ? [c.coordinates] : c.coordinates; return x && x !== 'mount' ? q.map(z => enc(few(z))) : [] };
        r.planes = s.node.querySelectorAll('g.plane').map(n => { const e = n.querySelectorAll('path.error'), l = n.querySelectorAll('path.nominal');
          return {uid: n.__data__.uid, rings: outlines(e[0]), line: outlines(l[0]), errors: e.length, nominals: l.length, loose: e.length ? has(e[0], 'unconstrained') : 0, fill: e.length ? g(e[0], 'fill') || '' : '',
            own: e.length && l.length && e[0].__data__.data && e[0].__data__.data.uid === n.__data__.uid && e[0].__data__.geometry.type === 'Polygon' && l[0].__data__.geometry.type === 'LineString' ? 1 : 0, con: g(n.parentNode, 'class') || ''} });
        r.poles = s.node.querySelectorAll('g.normal').map(n => { const e = n.querySelectorAll('path.error');
          return {uid: n.__data__.uid, rings: outlines(e[0]), errors: e.length, fill: e.length ? g(e[0], 'fill') || '' : '', own: e.length && e[0].__data__.geometry.type === 'MultiPolygon' ? 1 : 0, con: g(n.parentNode, 'class') || ''} });
        r.labels = s.node.querySelectorAll('g.label').map(n => { const t = n.querySelector('text');
          return {name: t.textContent, at: enc(nums(g(t, 'transform'))), shown: n.styles.display === 'none' ? 0 : 1} });
        const place = n => { let x = 0, y = 0; for (let q = n; q && q !== s.node; q = q.parentNode) { const t = nums(g(q, 'transform')); if (t.length > 1) { x += t[0]; y += t[1] } } return enc([x, y]) };
        const texts = c => s.node.querySelectorAll('g.' + c).flatMap(n => n.querySelectorAll('text')).filter(t => t.textContent);
        r.compass = texts('azimuthLabels').concat(texts('labels').filter(t => has(t, 'axis-label'))).map(t => ({name: t.textContent, at: place(t)}));
        r.dips = texts('dipLabels').map(t => ({value: enc(parseFloat(t.textContent)), at: place(t)}));
        const same = v => v.every(a => Math.abs(a - v[0]) < 1e-9), gr = s.node.querySelectorAll('path.graticule');
        r.grids = gr.length;
        r.grid = (gr.length && x === 'mount' ? gr[0].__data__.coordinates : []).map(q => { const lon = q.map(c => c[0]), lat = q.map(c => c[1]);
          return {kind: same(lon) ? 'meridian' : same(lat) ? 'parallel' : 'other', at: enc(same(lon) ? lon[0] : lat[0]), ends: enc(same(lon) ? [Math.min(...lat), Math.max(...lat)] : [Math.min(...lon), Math.max(...lon)])} });
        r.turns = s.turns || 0;
        return r;
      };
      const out = [nets.map(n => look(n, false))];
      for (const [i, o, ...x] of ops) {
        const s = nets[i], n = s.net;
        if (o === 'mount') { d3.select(s.node).call(n); s.up = true; n.on('rotate.verif', () => { s.turns = (s.turns || 0) + 1 }) }
        else if (o === 'clip') n.clipAngle(x[0]);
        else if (o === 'rotate' || o === 'center') n[o](x);
        else if (o === 'planes') n.planes(x[0], x[1]);
        else if (o === 'ellipses') n.ellipses(x[0], x[1]);
        else if (o === 'labels') n.call(C.globalLabels());
        else if (o === 'down') fire(s.node, 'mousedown', x);
        else if (o === 'move') fire(window, 'mousemove', x);
        else if (o === 'up') fire(window, 'mouseup', x);
        else if (o === 'refresh') n.refresh();
        else if (o === 'draw') n.draw();
        else n[o](...x);
        out.push(nets.map(n => look(n, o === 'planes' || o === 'ellipses' ? o : n === s && o === 'mount' ? o : false)));
      }
      return {out};
    },
  };
});
