// d3-selection-multi: styles given as an object or as a function of the datum
const {select} = require('d3');
module.exports = function (v, x) {
  if (typeof v === 'function') return this.each(function () {
    const o = v.apply(this, arguments), s = select(this);
    for (const k in o) s.style(k, o[k], x);
  });
  for (const k in v) this.style(k, v[k], x);
  return this;
};
