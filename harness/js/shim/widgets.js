// Inert widgets: an element that carries its properties; panels and contents are children.
const React = require('react');
const widget = name => Object.assign(function (p) {
  return {t: name, p: {...p, ref: undefined, children: [p.panel, p.content, p.children].filter(x => x !== undefined)}};
}, {});
const out = {};
for (const k of ['Switch', 'Button', 'Card', 'Tab', 'Tabs', 'NumericInput', 'Label', 'ButtonGroup', 'Popover2', 'CopyToClipboard', 'DataEditor', 'SketchPicker', 'ErrorBoundary', 'ReactDataSheet', 'Icon', 'Callout', 'Checkbox', 'RadioGroup', 'Radio'])
  out[k] = widget(k);
out.Tabs.Expander = widget('Expander');
out.FocusStyleManager = {onlyShowFocusOnTabs() {}};
out.default = out.ReactDataSheet;
const store = out.store = {};
// a state that outlives the component; a value that does not pass the test is not taken
out.useStoredState = function (key, value, ok = () => true) {
  const [s, set] = React.useState(() => key in store ? store[key] : value);
  return [s, v => { if (ok(v)) { store[key] = v; set(() => v) } }, () => { delete store[key]; set(() => value) }];
};
out.__esModule = true;
module.exports = out;
