// Answers requests (ndjson on stdin: {f, args}) by calling the viewer's own
// functions; one reply per line.  Numbers come back as IEEE-754 halves.
const {load} = require('./build.js'), {document} = require('./dom.js');
const bits = x => { const b = new DataView(new ArrayBuffer(8)); b.setFloat64(0, x); return [b.getInt32(0), b.getInt32(4)] };
function enc(x) {
  if (x === null || x === undefined) return {s: [-2], v: []};
  if (typeof x === 'number') return {s: [], v: bits(x)};
  if (x && typeof x.toArray === 'function') x = x.toArray();
  if (!Array.isArray(x)) return {s: [-3], v: []};
  const shape = []; let y = x;
  while (Array.isArray(y)) { shape.push(y.length); y = y[0] }
  const v = []; let ok = true;
  const go = (z, k) => {
    if (k === shape.length) { if (typeof z !== 'number') ok = false; else v.push(...bits(z)) }
    else if (!Array.isArray(z) || z.length !== shape[k]) ok = false;
    else z.forEach(w => go(w, k + 1));
  };
  go(x, 0);
  return ok ? {s: shape, v} : {s: [-3], v: []};
}
exports.serve = function (entries, make) {
  const err = console.error;
  console.log = () => {};
  let text = '';
  process.stdin.on('data', d => text += d).on('end', () => load(entries).then(m => {
    const F = make(m, enc, document);
    const out = text.split('\n').filter(Boolean).map(line => {
      const r = JSON.parse(line);
      try { return JSON.stringify(F[r.f](...r.args)) }
      catch (e) { return JSON.stringify({error: String(e && e.stack || e).slice(0, 300)}) }
    });
    process.stdout.write(out.join('\n') + '\n');
  }).catch(e => { err(e); process.exitCode = 1 }));
};
