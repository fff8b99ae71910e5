let n = 0;
module.exports = {v4: () => 'u' + (++n)};
