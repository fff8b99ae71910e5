// Bundles the viewer's own sources (frontend/packages/*/src) with the vendored
// d3 and mathjs and with small stand-ins for packages that are not installed.
const path = require('path'), fs = require('fs');
const NM = process.env.VERIF_NODE_MODULES || '/opt/veriftools/node/node_modules';
const esbuild = require(path.join(NM, 'esbuild'));
const REPO = process.env.VERIF_REPO || '/repo';
const FR = path.join(REPO, 'frontend/packages');
const LIB = path.join(FR, 'attitude/lib'), SH = path.join(__dirname, 'shim');
const D3 = path.join(LIB, 'd3v4+jetpack.js');
const exact = {
  'd3': D3, 'd3-jetpack': 'empty', 'd3-selection-multi': 'empty',
  'mathjs': path.join(LIB, 'math.js'),
  'quaternion': path.join(SH, 'quaternion.js'), 'chroma-js': path.join(SH, 'chroma.js'),
  'uuid': path.join(SH, 'uuid.js'), 'underscore': path.join(NM, 'underscore/underscore-umd.js'),
  'attitude/src/matrix': path.join(SH, 'versor.js'), 'attitude/src/versor': path.join(SH, 'versor.js'),
  'react': path.join(SH, 'react.js'), 'react-dom': path.join(SH, 'react-dom.js'),
  'react-hyperscript': path.join(SH, 'hyper.js'), '@macrostrat/hyper': path.join(SH, 'hyper.js'),
  '@blueprintjs/core': path.join(SH, 'widgets.js'), '@blueprintjs/popover2': path.join(SH, 'widgets.js'),
  'react-copy-to-clipboard': path.join(SH, 'widgets.js'), 'react-datasheet': path.join(SH, 'widgets.js'),
  'react-color': path.join(SH, 'widgets.js'), '@macrostrat/ui-components': path.join(SH, 'widgets.js'),
  'classnames': path.join(SH, 'classnames.js'), 'immutability-helper': path.join(SH, 'update.js'),
  '@attitude/notebook-ui': path.join(FR, 'notebook-ui/src/index.ts'), '@attitude/notebook-ui/src': path.join(FR, 'notebook-ui/src/index.ts'),
  '@attitude/plots': path.join(FR, 'plots/src/index.ts'), '@attitude/plots/src': path.join(FR, 'plots/src/index.ts'),
  '@attitude/core': path.join(FR, 'attitude/src/index.ts'),
  '@attitude/core/src': path.join(FR, 'attitude/src/index.ts'),
};
const plugin = {name: 'shims', setup(b) {
  b.onResolve({filter: /^[^./]/}, a => {
    if (a.kind === 'entry-point') return;
    const p = a.path;
    if (/^d3-selection-multi\/src/.test(p)) return {path: path.join(SH, p.split('/').pop() + '.js')};
    if (/^d3-jetpack\/src/.test(p)) return {path: path.join(SH, 'jetpack.js')};
    if (p in exact) return exact[p] === 'empty' ? {path: p, namespace: 'empty'} : {path: exact[p]};
    if (/^d3-/.test(p)) return {path: D3};
    if (/\.css$/.test(p)) return {path: p, namespace: 'empty'};
    if (/^@attitude\/core\/src\//.test(p)) return {path: path.join(FR, 'attitude/src', p.slice(19) + '.ts')};
    return {path: p, namespace: 'missing'};
  });
  b.onResolve({filter: /\.(styl|css)$/}, a => ({path: a.path, namespace: 'empty'}));
  b.onLoad({filter: /.*/, namespace: 'empty'}, () => ({contents: '', loader: 'js'}));
  // anything else (React and its widgets) is an inert object
  b.onLoad({filter: /.*/, namespace: 'missing'}, () => ({contents: 'const f=function(){return p};const p=new Proxy(f,{get:(t,k)=>k==="__esModule"?false:k==="prototype"?t.prototype:k===Symbol.toPrimitive?()=>"":p,construct:()=>({})});module.exports=p', loader: 'js'}));
}};
exports.load = function (entries) {
  const src = Object.entries(entries).map(([k, f]) => `export * as ${k} from ${JSON.stringify(f[0] === ":" ? f.slice(1) : path.join(FR, f))};`).join('\n');
  return esbuild.build({stdin: {contents: src, resolveDir: FR, loader: 'ts'}, bundle: true, write: false, format: 'cjs',
    platform: 'node', logLevel: 'silent', plugins: [plugin], target: 'node18'}).then(r => {
    const m = {exports: {}};
    new Function('module', 'exports', 'require', r.outputFiles[0].text)(m, m.exports, require);
    return m.exports;
  });
};
exports.D3 = D3;
