// hyperscript: h("tag.class", props?, children?), h(Component, ...), h([children])
const React = require('react');
function h(t, p, ...c) {
  if (Array.isArray(t)) return {t: React.Fragment, p: {children: t}};
  if (p !== null && p !== undefined && (Array.isArray(p) || typeof p !== 'object' || 't' in p && 'p' in p)) { c = [p, ...c]; p = null }
  p = {...(p || {})};
  if (c.length === 1) p.children = c[0]; else if (c.length) p.children = c;
  if (typeof t === 'string') {
    const [tag, ...cls] = t.split('.');
    if (cls.length) p.className = cls.concat(p.className || []).join(' ');
    t = tag || 'div';
  }
  return {t, p};
}
module.exports = h;
