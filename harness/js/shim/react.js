// A small React: components (class and function), state, effects and refs, rendered into the
// small DOM of ../dom.js.  Updates made inside act() are applied together when it returns.
let hooks = null, batch = null;
const dirty = i => { if (i && i.parent !== undefined) { if (batch) batch.add(i); else redraw(i) } };
class Component {
  constructor(props) { this.props = props; this.state = {} }
  setState(p, done) {
    this.__pending = (this.__pending || []).concat([p]);
    if (done) done();
    dirty(this.__inst);
  }
  forceUpdate() { dirty(this.__inst) }
}
const flat = (c, out = []) => { (Array.isArray(c) ? c : [c]).forEach(x => Array.isArray(x) ? flat(x, out) : x === null || x === undefined || x === false || x === true ? out.push(null) : out.push(x)); return out };
const createElement = (t, p, ...c) => ({t, p: {...(p || {}), ...(c.length ? {children: c.length === 1 ? c[0] : c} : {})}});
const Fragment = 'fragment';
const same = (a, b) => a && b && typeof a === typeof b && (typeof a !== 'object' || a.t === b.t && (a.p.key === b.p.key));
function props(el) { return {...(el.t && el.t.defaultProps || {}), ...Object.fromEntries(Object.entries(el.p).filter(([k, v]) => !(v === undefined && el.t.defaultProps && k in el.t.defaultProps)))} }
function resolve(i) {
  const el = i.el;
  if (typeof el.t === 'function' && el.t.prototype && el.t.prototype.render) {
    if (!i.comp) { i.comp = new el.t(props(el)); i.comp.__inst = i; i.comp.props = props(el) }
    return [i.comp.render()];
  }
  i.comp = i.comp || {};
  const old = hooks;
  hooks = {i, list: i.hooks = i.hooks || [], n: 0};
  try { return [el.t(props(el))] } finally { hooks = old }
}
// the nodes an instance stands for
const nodes = i => i.node ? [i.node] : i.kids.flatMap(nodes);
function build(el, parent, host, after) {
  const i = {el, parent, host, kids: [], after};
  if (el === null) return i;
  if (typeof el !== 'object') { i.node = host.ownerDocument.createElement('#text'); i.node.textContent = String(el); return i }
  if (typeof el.t === 'string' && el.t !== Fragment) {
    i.node = host.ownerDocument.createElement(el.t);
    dress(i);
    patch(i, flat(el.p.children === undefined ? [] : el.p.children), i.node, after);
    return i;
  }
  patch(i, el.t === Fragment ? flat(el.p.children) : resolve(i).flatMap(x => flat(x)), host, after);
  if (i.comp && i.comp.componentDidMount) { i.comp.__node = nodes(i)[0]; after.push(() => i.comp.componentDidMount()) }
  effects(i, after);
  return i;
}
function dress(i) {
  const p = i.el.p;
  i.node.props = p;
  if (p.className) i.node.setAttribute('class', p.className);
  else if (i.node.hasClass) i.node.removeAttribute('class');
  i.node.hasClass = !!p.className;
  if (p.ref && typeof p.ref === 'object') p.ref.current = i.node;
  else if (typeof p.ref === 'function') p.ref(i.node);
}
function effects(i, after) {
  (i.hooks || []).forEach(h => { if (h.effect) { const f = h.effect; h.effect = null; after.push(() => { if (h.undo) h.undo(); h.undo = f() }) } });
}
function drop(i) {
  if (i.comp && i.comp.componentWillUnmount) i.comp.componentWillUnmount();
  (i.hooks || []).forEach(h => { if (h.undo) h.undo() });
  i.kids.forEach(drop);
  i.parent = undefined;
  if (i.node && i.node.parentNode) i.node.parentNode.removeChild(i.node);
}
function patch(i, els, host, after) {
  const old = i.kids.slice(), keyed = e => e && typeof e === 'object' && e.p.key !== undefined ? e.p.key : null;
  i.kids = els.map((el, n) => {
    const k = keyed(el);
    let j = k !== null ? old.findIndex(o => o && keyed(o.el) === k && same(o.el, el)) : old[n] && keyed(old[n].el) === null && same(old[n].el, el) ? n : -1;
    if (j >= 0 && old[j]) { const o = old[j]; old[j] = null; change(o, el, after); return o }
    return build(el, i, host, after);
  });
  old.forEach(o => { if (o) drop(o) });
  // nodes in order (only those that belong to React; others stay where they are)
  let prev = null;
  i.kids.flatMap(nodes).forEach(n => {
    if (n.parentNode !== host) { const ref = prev ? prev.nextSibling : i.node ? host.firstChild : null; host.insertBefore(n, ref) }
    else if (prev && host.childNodes.indexOf(n) < host.childNodes.indexOf(prev)) host.insertBefore(n, prev.nextSibling);
    prev = n;
  });
}
function change(i, el, after) {
  const was = i.el;
  i.el = el;
  if (typeof el !== 'object' || el === null) { if (i.node) i.node.textContent = String(el); return }
  if (i.node) { dress(i); patch(i, flat(el.p.children === undefined ? [] : el.p.children), i.node, after); return }
  if (el.t === Fragment) { patch(i, flat(el.p.children), i.host, after); return }
  update(i, after);
}
function update(i, after) {
  const c = i.comp, cls = c instanceof Component, pp = c.props, ps = c.state;
  if (cls) {
    const np = props(i.el);
    let st = c.state;
    (c.__pending || []).forEach(p => { st = {...st, ...(typeof p === 'function' ? p(st, np) : p)} });
    c.__pending = null;
    const go = !c.shouldComponentUpdate || c.shouldComponentUpdate(np, st);
    c.props = np; c.state = st;
    if (!go) return;
  }
  patch(i, resolve(i).flatMap(x => flat(x)), i.host, after);
  if (cls && c.componentDidUpdate) after.push(() => c.componentDidUpdate(pp, ps));
  effects(i, after);
}
function redraw(i) { const after = []; update(i, after); after.forEach(f => f()) }
function act(f) {
  if (batch) return f();
  batch = new Set();
  let r;
  try { r = f() } finally {
    for (let n = 0; batch.size && n < 50; n++) {
      const b = [...batch]; batch = new Set();
      b.forEach(i => { if (i.parent !== undefined) redraw(i) });
    }
    batch = null;
  }
  return r;
}
const slot = f => { const h = hooks.list[hooks.n] = hooks.list[hooks.n] || f(); hooks.n++; return h };
function useState(v) {
  const i = hooks.i, h = slot(() => ({v: typeof v === 'function' ? v() : v}));
  return [h.v, x => { h.v = typeof x === 'function' ? x(h.v) : x; dirty(i) }];
}
function useEffect(f, deps) {
  const h = slot(() => ({}));
  if (!deps || !h.deps || deps.some((d, k) => !Object.is(d, h.deps[k]))) h.effect = f;
  h.deps = deps;
}
const useRef = v => slot(() => ({current: v}));
const useMemo = (f, deps) => { const h = slot(() => ({})); if (!h.deps || !deps || deps.some((d, k) => !Object.is(d, h.deps[k]))) { h.v = f(); h.deps = deps } return h.v };
const useCallback = (f, deps) => useMemo(() => f, deps);
const useReducer = (r, v) => { const [s, set] = useState(v); return [s, a => set(x => r(x, a))] };
function render(el, host) { return act(() => { const after = [], i = build(el, null, host, after); nodes(i).forEach(n => { if (n.parentNode !== host) host.appendChild(n) }); after.forEach(f => f()); return i.comp || i.node }) }
module.exports = {Component, PureComponent: Component, Fragment, createElement, useState, useEffect, useLayoutEffect: useEffect, useRef, useMemo, useCallback, useReducer,
  memo: c => c, render, act, nodes};
module.exports.default = module.exports;
