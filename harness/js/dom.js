// The small part of the DOM that d3-selection needs.
class El {
  constructor(tag, doc) {
    this.tagName = tag; this.ownerDocument = doc; this.attrs = {}; this.childNodes = []; this.parentNode = null;
    this.namespaceURI = 'http://www.w3.org/2000/svg'; this.styles = {}; this.textContent = ''; this.handlers = {};
    const self = this;
    this.style = {setProperty(k, v) { self.styles[k] = v }, removeProperty(k) { delete self.styles[k] },
                  getPropertyValue(k) { return self.styles[k] || '' }};
  }
  setAttribute(k, v) { this.attrs[k] = String(v) }
  setAttributeNS(ns, k, v) { this.attrs[k.split(':').pop()] = String(v) }
  getAttribute(k) { return k in this.attrs ? this.attrs[k] : null }
  getAttributeNS(ns, k) { return this.getAttribute(k) }
  removeAttribute(k) { delete this.attrs[k] }
  removeAttributeNS(ns, k) { delete this.attrs[k] }
  addEventListener(t, f) { (this.handlers[t] = this.handlers[t] || []).push(f) }
  removeEventListener(t, f) { this.handlers[t] = (this.handlers[t] || []).filter(g => g !== f) }
  appendChild(c) { return this.insertBefore(c, null) }
  insertBefore(c, b) {
    if (c.parentNode) c.parentNode.removeChild(c);
    const i = b ? this.childNodes.indexOf(b) : -1;
    if (i < 0) this.childNodes.push(c); else this.childNodes.splice(i, 0, c);
    c.parentNode = this;
    return c;
  }
  removeChild(c) { const i = this.childNodes.indexOf(c); if (i >= 0) this.childNodes.splice(i, 1); c.parentNode = null; return c }
  get parentElement() { return this.parentNode }
  get children() { return this.childNodes }
  get firstChild() { return this.childNodes[0] || null }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null }
  get nextSibling() { const c = this.parentNode && this.parentNode.childNodes; return c && c[c.indexOf(this) + 1] || null }
  set innerHTML(v) { this.childNodes = [] }
  get innerHTML() { return '' }
  matches(sel) {
    const m = /^([\w-]*)((?:[.#][\w-]+)*)$/.exec(sel.trim());
    if (!m) throw new Error('selector ' + sel);
    if (m[1] && m[1] !== this.tagName) return false;
    const cls = (this.attrs.class || '').split(/\s+/);
    return (m[2].match(/[.#][\w-]+/g) || []).every(p => p[0] === '.' ? cls.includes(p.slice(1)) : this.attrs.id === p.slice(1));
  }
  querySelectorAll(sel) {
    const out = [];
    const go = e => e.childNodes.forEach(c => { if (sel.split(',').some(s => c.matches(s))) out.push(c); go(c) });
    go(this);
    return out;
  }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null }
  compareDocumentPosition(o) {
    const order = []; let r = this; while (r.parentNode) r = r.parentNode;
    const go = e => { order.push(e); e.childNodes.forEach(go) };
    go(r);
    return order.indexOf(o) > order.indexOf(this) ? 4 : 2;
  }
}
exports.El = El;
exports.document = function () {
  const d = {};
  d.createElementNS = (ns, t) => new El(t, d);
  d.createElement = t => new El(t, d);
  d.documentElement = new El('svg', d);
  d.documentElement.namespaceURI = 'http://www.w3.org/2000/svg';
  return d;
};
