// C22: the viewer's side views.
require('./view.js').serve({core: 'attitude/src/index.ts', side: 'notebook-ui/src/components/side-view.ts'}, (m, enc, document) => {
  const C = m.core, d3 = require(require('./build.js').D3), {El} = require('./dom.js');
  const scale = s => d3.scaleLinear().domain(s.domain).range(s.range);
  const nums = t => (t || '').match(/-?\d+\.?\d*(?:e[-+]?\d+)?|NaN|Infinity/gi) || [];
  const num = t => enc(nums(t).map(Number));
  const node = tag => new El(tag, document());
  const g = (n, k) => n.getAttribute(k);
  const box = m => enc(['x', 'y', 'width', 'height'].map(k => Number(g(m, k) || NaN)));
  // the mask that fades an outline out, what wears it, and the outline's colour
  const fade = n => {
    const ms = n.querySelectorAll('mask'), p = n.querySelector('path.hyperbola'), l = n.querySelector('line.nominal');
    const r = ms.length ? ms[0].querySelector('rect') : null, c = p && /^(.*)\/(.*)$/.exec(g(p, 'fill') || '') || [];
    return {masks: ms.length, mask: ms.length ? g(ms[0], 'id') : '', box: ms.length ? box(ms[0]) : enc(null), rect: r ? box(r) : enc(null),
      worn: [p, l].filter(x => x).map(x => ((g(x, 'mask') || '').match(/^url\(#(.*)\)$/) || ['', ''])[1]), colour: c[1] || '', alpha: enc(Number(c[2]))};
  };
  const hyper = n => {
    const p = n.querySelector('path.hyperbola'), l = n.querySelector('line.nominal');
    return {transform: num(g(n, 'transform')), path: p ? num(g(p, 'd')) : enc(null), paths: n.querySelectorAll('path').length,
      ...fade(n), closed: p && /Z$/.test(g(p, 'd')) ? 1 : 0, line: l ? 1 : 0, visible: g(n, 'visibility') === 'visible' ? 1 : 0};
  };
  const plane = d => { const p = new C.PlaneData(d.data, d.mean); if (d.offset) p.offset = d.offset; return p };
  return {
    fix: a => ({out: enc(C.fixAngle(a))}),
    data: d => { const p = plane(d); return {mean: enc(p.mean), centered: enc(p.centered), lengths: enc(p.lengths), axes: enc(p.axes)} },
    dip: (d, azs) => { const p = plane(d); return {dip: enc(p.dip()), apparent: enc(azs.map(a => p.apparentDip(a))), again: enc(p.dip())} },
    transform: (v, x, y, d) => ({out: num(C.createTransform(v, scale(x), scale(y))(plane(d)))}),
    // a history of redraws of one element
    hyperbola: (d, views) => {
      const p = plane(d), n = node('g'); n.__data__ = p;
      return {out: views.map(w => {
        const f = C.hyperbolicErrors(w.v, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], scale(w.x), scale(w.y)).width(w.width);
        if (w.nominal !== undefined) f.nominal(w.nominal);
        if (w.scaled !== undefined) f.scaleErrorAngles(w.scaled);
        f.call(n, p);
        return hyper(n);
      })};
    },
    line: (v, x, y, d) => {
      const sx = scale(x), sy = scale(y), n = node('path');
      C.digitizedLine(v, d3.line().x(q => sx(q[0])).y(q => sy(q[1]))).call(n, plane(d));
      return {out: num(g(n, 'd'))};
    },
    average: ps => ({out: enc(C.computeCentroidAverage(ps.map(data => ({data}))))}),
    extrema: ps => ({out: enc(C.computeCentroidExtrema(ps.map(data => ({data}))))}),
    // the whole component: mounted, then turned
    view: (data, azimuths, pointed) => {
      const before = JSON.stringify(data);
      const told = [], at = p => p && p.map(uid => data.find(d => d.uid === uid));
      const c = new m.side.SideViewComponent({data, azimuth: azimuths[0], hovered: at(pointed[0]), onHover: d => told.push(d.uid)});
      c.__node = node('svg');
      c.componentDidMount();
      const shot = () => {
        const sets = c.__node.querySelectorAll('g.errors').concat(c.__node.querySelectorAll('g.errors-grouped'));
        const {x, y} = c.scales;
        return {x: enc([x(0), x(1)]), y: enc([y(0), y(1)]), xr: enc(x.range()), yr: enc(y.range()),
          single: sets[0].querySelectorAll('g.error-hyperbola').map(n => ({uid: n.__data__.data.uid, z: enc(n.__data__.__z), ...hyper(n)})),
          group: sets[1].querySelectorAll('g.error-hyperbola').map(n => ({uid: n.__data__.data.uid, ...hyper(n)})),
          traces: c.__node.querySelectorAll('path.trace').map(n => ({uid: n.__data__.data.uid, transform: num(g(n, 'transform')), dark: /^dark /.test(g(n, 'stroke') || '') ? 1 : 0, colour: (g(n, 'stroke') || '').replace(/^dark |\/.*$/g, '') === n.__data__.data.color ? 1 : 0,
            told: (told.length = 0, (n.handlers.mouseover || []).forEach(f => f.call(n, {})), told.join())})),
          // where the ticks of the axes are, and what they say
          ticks: ['g.x', 'g.y'].map((w, k) => c.__node.querySelectorAll(w).flatMap(a => a.querySelectorAll('g.tick')).map(n =>
            [Number(nums(g(n, 'transform'))[k]), Number(n.querySelector('text').textContent.replace('\u2212', '-'))])).map(enc),
          label: enc(Number(nums(c.azLabel.text())[0]))};
      };
      const out = [shot()];
      for (const i of azimuths.keys()) {
        if (i === 0) continue;
        const prev = c.props;
        c.props = {...prev, azimuth: azimuths[i], hovered: pointed[i] === pointed[i - 1] ? prev.hovered : at(pointed[i])};
        c.componentDidUpdate(prev);
        out.push(shot());
      }
      return {out};
    },
  };
});
