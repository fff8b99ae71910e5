module.exports = (...a) => a.flatMap(x => !x ? [] : typeof x === 'object' ? Object.keys(x).filter(k => x[k]) : [x]).join(' ');
