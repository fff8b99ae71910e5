module.exports = function update(d, s) {
  if ('$set' in s) return s.$set;
  const o = Array.isArray(d) ? d.slice() : {...d};
  for (const k in s) o[k] = update(d === undefined || d === null ? d : d[k], s[k]);
  return o;
};
