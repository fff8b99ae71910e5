// C25: the plotter's sheet: what is in it and what is plotted after each edit.
const {El} = require('./dom.js');
require('./view.js').serve({app: 'webapp/src/app.ts', React: ':react', W: ':@macrostrat/ui-components'}, (m, enc, document) => {
  const {act, render, createElement} = m.React;
  const text = n => n.tagName === '#text' ? n.textContent : n.childNodes.map(text).join('');
  const has = (n, c) => (n.getAttribute('class') || '').split(/\s+/).includes(c) ? 1 : 0;
  const show = v => v === null || v === undefined ? '' : String(v);
  const kind = v => v === undefined ? 'absent' : typeof v;
  return {
    sheet: ops => {
      for (const k in m.W.store) delete m.W.store[k];
      global.window = new El('window', document());
      let host;
      const mount = () => { host = new El('div', document()); render(createElement(m.app.App), host) };
      mount();
      const grid = () => host.querySelector('ReactDataSheet').props;
      const press = re => act(() => host.querySelectorAll('Button').find(n => re.test(text(n))).props.onClick({}));
      const chart = n => n.querySelectorAll('g.normal').map(e => { const d = e.__data__;
        return {numbers: enc(['strike', 'dip', 'rake', 'maxError', 'minError'].map(k => d[k])), color: d.color === undefined ? '' : String(d.color), paths: e.querySelectorAll('path.error').length} });
      const shot = () => {
        const p = grid();
        const svgs = host.querySelectorAll('svg');
        return {rows: p.data.map(r => r.map(c => show(c.value))), marks: p.data.map((r, i) => r.map((c, j) => p.attributesRenderer(c, i, j)['data-status'])),
          shown: p.data.map((r, i) => r.map((c, j) => show(p.valueRenderer(c, i, j)))), charts: svgs.map(chart)};
      };
      const out = [shot()];
      for (const [o, x] of ops) {
        if (o === 'edit') { const p = grid(); act(() => p.onCellsChanged(x.map(([row, col, value]) => ({cell: p.data[row][col], row, col, value})))) }
        else if (o === 'more') press(/more rows/);
        else if (o === 'reset') press(/Reset/);
        else if (o === 'reload') mount();
        out.push(shot());
      }
      return {out};
    },
  };
});
