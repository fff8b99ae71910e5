function chroma(c) {
  if (typeof c !== 'string' || !/^(#[0-9a-f]{6}|[a-z]+)$/i.test(c)) throw new Error('unknown color: ' + c);
  const mk = (c, a) => ({alpha: x => x === undefined ? a : mk(c, x), darken: () => mk('dark ' + c, a), css: () => c + '/' + a, hex: () => c, name: () => c});
  return mk(c, 1);
}
module.exports = chroma;
