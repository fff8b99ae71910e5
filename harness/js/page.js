// C23: the viewer's page: what is listed, drawn and described after each thing the user does.
const {El} = require('./dom.js');
require('./view.js').serve({page: 'notebook-ui/src/index.ts', React: ':react'}, (m, enc, document) => {
  const {act} = m.React;
  const text = n => n.tagName === '#text' ? n.textContent : n.childNodes.map(text).join('');
  const has = (n, c) => (n.getAttribute('class') || '').split(/\s+/).includes(c) ? 1 : 0;
  const fire = (n, type, ev) => act(() => (n.handlers[type] || []).slice().forEach(f => f.call(n, ev || {})));
  return {
    page: (data, actions, props) => {
      const host = new El('div', document());
      global.window = new El('window', document());
      const before = JSON.stringify(data);
      act(() => props ? m.React.render(m.React.createElement(m.page.AttitudeUI, {attitudes: data, ...props}), host) : m.page.createUI(host, data));
      const area = () => host.querySelector('div.attitude-area');
      const named = (tag, re) => host.querySelectorAll(tag).find(n => re.test(tag === 'Button' ? text(n) : n.props.label || ''));
      const items = () => host.querySelectorAll('div.selection-list')[0].querySelectorAll('li');
      const drawn = (g, c) => {
        const con = host.querySelector('g.data').childNodes.filter(n => has(n, g));
        return con.length > 1 ? [{uid: 'two containers', group: 0, member: 0, errors: 0}] : con.flatMap(n => n.childNodes.filter(e => has(e, c)).map(e => ({
          uid: e.__data__.uid, group: has(e, 'is-group'), member: has(e, 'in-group'), errors: e.querySelectorAll('path.error').length})));
      };
      const shot = () => {
        const desc = host.querySelector('div.plane-desc'), id = desc && desc.querySelector('span.id');
        return {
          list: items().map(n => ({uid: text(n), selected: has(n, 'selected'), hovered: has(n, 'hovered')})),
          planes: drawn('planes', 'plane'), poles: drawn('poles', 'normal'),
          hovplanes: drawn('hovered', 'plane'), hovpoles: drawn('hovered', 'normal'),
          panel: id ? text(id) : '', numbers: enc(id ? desc.querySelectorAll('li').map(n => parseFloat(text(n.querySelector('span.data')))) : null),
          labels: id ? desc.querySelectorAll('li').map(n => text(n).replace(/[^A-Za-z]+.*$/, '')) : [], none: id && /No errors recorded/.test(text(desc)) ? 1 : 0,
          members: id ? parseFloat((/Group of (\d+)/.exec(text(desc)) || [0, 0])[1]) : 0,
          copy: host.querySelector('CopyToClipboard').props.text,
          same: JSON.stringify(data) === before ? 1 : 0};
      };
      const out = [{ran: 1, ...shot()}];
      for (const [a, i] of actions) {
        let ran = 1;
        const click = n => { if (!n || n.props.disabled) ran = 0; else act(() => (n.props.onClick || n.props.onChange)({})) };
        const item = () => items().find(n => text(n) === data[i].uid);
        if (a === 'pick') click(item());
        else if (a === 'over') { const n = item(); if (n) act(() => n.props.onMouseOver({})); else ran = 0 }
        else if (a === 'touch') {
          const n = host.querySelector('g.data').childNodes.filter(n => !has(n, 'hovered')).flatMap(n => n.childNodes).find(e => e.__data__.uid === data[i].uid);
          const p = n && n.querySelector('path.error');
          if (p) fire(p, 'mouseenter'); else ran = 0;
        }
        else if (a === 'leave') fire(area(), 'mouseleave');
        else if (a === 'clear') click(named('Button', /Clear/));
        else if (a === 'zoom') click(named('Button', /^Show/));
        else click(named('Switch', {groups: /groups/, planes: /Planes/, poles: /Poles/}[a]));
        out.push({ran, ...shot()});
      }
      return {out};
    },
  };
});
