const React = require('react');
module.exports = {findDOMNode: c => c.__inst ? React.nodes(c.__inst)[0] : c.__node, render: React.render};
