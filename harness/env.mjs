// A DOM for the code under test (jsdom of the repository), with the few
// facilities that jsdom lacks.
import { createRequire } from 'node:module';
import path from 'node:path';
const require = createRequire(path.join(process.env.VERIF_REPO ?? '/repo', 'package.json'));
const { JSDOM } = require('jsdom');
const dom = new JSDOM('<!doctype html><html><body></body></html>', { pretendToBeVisual: true, url: 'http://localhost/' });
const w = dom.window;
globalThis.window = w;
for (const k of ['document', 'Node', 'Element', 'Comment', 'Text', 'XMLSerializer', 'HTMLElement', 'SVGElement', 'MathMLElement', 'Event', 'MouseEvent', 'DocumentFragment', 'requestAnimationFrame', 'cancelAnimationFrame', 'CustomEvent', 'AbortController']) {
  if (w[k] !== undefined) globalThis[k] = w[k];
}
if (typeof w.Element.prototype.setHTMLUnsafe !== 'function') {
  w.Element.prototype.setHTMLUnsafe = function (h) {
    this.innerHTML = h;
  };
}
export { dom };
