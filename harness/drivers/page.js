// Runs the script of each page (ndjson on stdin: {script: [code points]}) and
// reports what attitudeUI was given.
const vm = require('vm'), rl = require('readline').createInterface({input: process.stdin});
const pts = s => Array.from(s, c => c.codePointAt(0));
const cmp = (a, b) => { for (let i = 0; i < Math.min(a.length, b.length); i++) if (a[i] !== b[i]) return a[i] - b[i]; return a.length - b.length };
function num(x) { const b = new DataView(new ArrayBuffer(8)); b.setFloat64(0, x); return [b.getInt32(0), b.getInt32(4)] }
function tag(x) {
  if (x === null) return {t: 'z'};
  if (Array.isArray(x)) return {t: 'a', v: x.map(tag)};
  switch (typeof x) {
    case 'string': return {t: 's', c: pts(x)};
    case 'number': return {t: 'n', b: num(x)};
    case 'boolean': return {t: 'b', n: x ? 1 : 0};
    case 'object': {
      const k = Object.keys(x).map(s => [pts(s), s]).sort((a, b) => cmp(a[0], b[0]));
      return {t: 'o', k: k.map(p => p[0]), v: k.map(p => tag(x[p[1]]))};
    }
  }
  return {t: '?'};
}
rl.on('line', line => {
  const src = JSON.parse(line).script.map(c => String.fromCodePoint(c)).join("");
  const calls = [];
  const box = {
    attitudeUI: (el, data) => calls.push([el, data]),
    document: {querySelector: s => ({sel: String(s)}), getElementById: s => ({sel: '#' + s})},
  };
  box.window = box;
  let out = {ok: 1, calls: 0, sel: [], data: {t: '?'}};
  try {
    const ctx = vm.createContext(box);
    vm.runInContext(src, ctx, {timeout: 5000});
    out.calls = calls.length;
    if (calls.length) {
      out.sel = calls[0][0] && calls[0][0].sel ? pts(calls[0][0].sel) : [];
      out.data = tag(calls[0][1]);
    }
  } catch (e) { out.ok = 0; out.error = String(e).slice(0, 200) }
  console.log(JSON.stringify(out));
});
