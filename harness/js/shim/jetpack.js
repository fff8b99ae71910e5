const {selection} = require('d3');
module.exports = selection.prototype.selectAppend;
