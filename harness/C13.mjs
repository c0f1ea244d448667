// Bounded stand-in for C13: sequences of values in attribute, property, live,
// text, class and style holes against the last value.
import { HostAdapter } from './host.mjs';

const str = (v) => v?.toString?.() ?? '';
const A = ['id', 'title', 'data-x', 'aria-label', 'Lang', 'hidden'];
const named = (name) => ({ toString: () => name });
const bare = Object.create(null);
const OBJ = [named('o1'), named(''), named('o2'), { a: 1 }];
const primitive = (c) => c.pick([null, undefined, false, true, '', 'x', 'y', ' z ', 0, -0, 1, 12.5, NaN, Infinity, 10n, Symbol.iterator, 'false', 'null', ...OBJ, bare]);
async function mount(c, template, v) {
  const host = document.createElement('div');
  const root = new c.B.DOMRoot(host, new c.B.Runtime(new HostAdapter(c)));
  const render = (v) => root.render(template(v), { flushSync: true }).finished;
  await render(v);
  return { host, render, root };
}
const CLASSES = ['a', 'b', 'c', 'dd', 's1', '10', '2', 'constructor', 'toString'];
const classString = (c) => c.pick(['', ' ', '\n'])+ c.sub(CLASSES).join(c.pick([' ', '  ', '\n', '\t ']))+c.pick(['', ' ']);
const flag = (c) => (c.bool(4) ? c.pick([undefined, null, 0, 1, '', 'x']) : c.bool());
function classValue(c) {
  switch (c.int(6)) {
    case 0: return c.pick([null, undefined, '']);
    case 1: case 2: return classString(c);
    case 3: return Object.fromEntries(c.shuffle(CLASSES).slice(0, 3).map((k) => [k, flag(c)]));
    default: {
      const o = {};
      for (let i = c.int(5); i > 0; i--) o[c.bool(3) ? classString(c) : c.pick(CLASSES)] = flag(c);
      return o;
    }
  }
}
const tokens = (s) => s.split(/\s+/).filter((t) => t !== '');
// The tokens that a value mentions, and whether they are enabled.
function mentions(v) {
  const m = new Map();
  const map = v !== null && typeof v === 'object' ? v : { [str(v)]: true };
  for (const k of Object.keys(map)) for (const t of tokens(k)) m.set(t, map[k]);
  return m;
}
const STYLES = {
  color: ['red', 'blue'], backgroundColor: ['red', 'green'], 'background-color': ['blue', 'black'], 'margin-top': ['1px', '2px'], marginTop: ['3px', '4px'], 'padding-left': ['1px', '5px'], paddingLeft: ['7px', '1px'],
  '--x': ['1', 'a b'], '--my-y': ['2', 'c'], '--camelCase': ['3', 'd'], '--camel-case': ['4'], webkitLineClamp: ['3'], display: ['none', 'block'],
};
function styleValue(c) {
  if (c.bool(5)) return c.pick([null, undefined, '']);
  if (c.bool(3)) return c.sub(['color: red', 'color: blue', 'margin-top: 5px', 'padding-left: 3px', '--x: 7', '--camelCase: 8', 'display: none']).join(c.pick([';', '; '])) + c.pick(['', ';']);
  const o = {};
  for (const k of c.shuffle(Object.keys(STYLES)).slice(0, c.int(5))) o[k] = c.bool(4) ? c.pick([null, undefined]) : c.pick(STYLES[k]);
  return o;
}
const CUSTOM = /^--/;
const kebab = (k) => (CUSTOM.test(k) ? k : k.replace(/^(webkit|moz|ms|o)(?=[A-Z])/, '-$1').replace(/[A-Z]/g, (x) => `-${x.toLowerCase()}`));
function declare(v) {
  const e = document.createElement('div');
  if (v !== null && typeof v === 'object') {
    for (const k of Object.keys(v)) if (v[k] != null) e.style.setProperty(kebab(k), v[k]);
  } else e.style.cssText = str(v);
  return declarations(e.style);
}
// Names with their values, and whether a name is given several ways.
const declarations = (style) => Object.fromEntries(Array.from(style).sort().map((p) => [p, style.getPropertyValue(p)]));
function conflicting(v) {
  if (v === null || typeof v !== 'object') return false;
  const names = Object.keys(v).map(kebab);
  return new Set(names).size !== names.length;
}
const count = (c) => 2 + c.int(6);
export default async function (h) {
  await h.cases('attributes', 400, async (c) => {
    const name = c.pick(A);
    const strings = [`<p class="k" ${name}=`, '></p>'];
    strings.raw = strings;
    const t = (v) => c.B.html(strings, v);
    let r = null;
    for (let i = count(c); i > 0; i--) {
      const v = primitive(c);
      c.log(name, '=', h.show(v));
      if (r === null) r = await mount(c, t, v); else await r.render(v);
      const e = r.host.firstElementChild;
      const want = v === null || v === undefined || v === false ? null : v === true ? '' : str(v);
      c.eq(e.getAttribute(name), want, `the attribute ${name} for ${h.show(v)}`);
      c.eq(e.getAttribute('class'), 'k', 'another attribute');
      c.ok(e.attributes.length === (want === null ? 1 : 2), `there are ${e.attributes.length} attributes`);
    }
  }, { bound: 'up to 7 values' });

  await h.cases('texts', 300, async (c) => {
    const form = c.int(3);
    const strings = [['<p>', '</p>'], ['<p>a', 'b</p>'], ['<textarea>', '</textarea>']][form];
    const t = (v) => c.B.html(strings, v);
    let r = null;
    for (let i = count(c); i > 0; i--) {
      const v = primitive(c);
      if (v !== null && typeof v === 'object' && Symbol.iterator in v) continue; // a list
      c.log(form, h.show(v));
      if (r === null) r = await mount(c, t, v); else await r.render(v);
      c.eq(r.host.firstElementChild.textContent, form === 1 ? `a${str(v)}b` : str(v), `the text for ${h.show(v)}`);
    }
  }, { bound: 'up to 7 values' });

  await h.cases('properties', 300, async (c) => {
    const live = c.bool();
    const t = (v) => (live ? c.B.html`<p $Prop=${v}></p>` : c.B.html`<p .Prop=${v}></p>`);
    let r = null;
    let log = [];
    let prev;
    for (let i = count(c) + 2; i > 0; i--) {
      const v = primitive(c);
      if (Array.isArray(v)) continue;
      c.log(live ? 'live' : 'property', h.show(v));
      if (r === null) {
        // The first assignment is observed through the prototype.
        let held;
        const desc = { configurable: true, get() { return held; }, set(x) { held = x; log.push(x); } };
        Object.defineProperty(window.HTMLParagraphElement.prototype, 'Prop', desc);
        try { r = await mount(c, t, v); } finally { delete window.HTMLParagraphElement.prototype.Prop; }
        Object.defineProperty(r.host.firstElementChild, 'Prop', desc);
        if (live && v === undefined) c.eq(log, [], 'assignments of an equal value'); else c.eq(log, [v], 'assignments');
        prev = v;
      } else {
        const e = r.host.firstElementChild;
        if (c.bool(3)) { const w = primitive(c); c.log('changed meanwhile to', h.show(w)); e.Prop = w; if (!live) { prev = prev; } }
        log.length = 0;
        const before = e.Prop;
        await r.render(v);
        if (live) c.ok(e.Prop === v || Object.is(e.Prop, v), `the live property is ${h.show(e.Prop)} instead of ${h.show(v)}`);
        else c.eq(log, Object.is(prev, v) ? [] : [v], `the assignments for ${h.show(v)} after ${h.show(prev)}`);
        if (live && before === v) c.eq(log, [], 'assignments of an unchanged live property');
        prev = v;
      }
    }
  }, { bound: 'up to 9 values, with changes from outside' });

  await h.cases('classes', 700, async (c) => {
    const t = (v) => c.B.html`<p class=${v}></p>`;
    let r = null;
    const fixed = new Set();
    for (let i = count(c); i > 0; i--) {
      const v = classValue(c);
      c.log(h.show(v));
      if (r === null) {
        r = await mount(c, t, v);
        if (c.bool()) for (const s of ['s1', 's2']) if (!mentions(v).has(s)) { fixed.add(s); r.host.firstElementChild.classList.add(s); }
      } else {
        await r.render(v);
      }
      const m = mentions(v);
      const want = new Set([...m].filter(([, on]) => on).map(([k]) => k));
      for (const s of fixed) if (m.has(s)) fixed.delete(s); else want.add(s);
      c.eq([...r.host.firstElementChild.classList].sort(), [...want].sort(), `the classes for ${h.show(v)}`);
    }
  }, { bound: 'up to 7 strings or maps over 7 tokens' });

  await h.cases('styles', 700, async (c) => {
    const t = (v) => c.B.html`<p style=${v}></p>`;
    let r = null;
    for (let i = count(c); i > 0; i--) {
      const v = styleValue(c);
      if (conflicting(v)) continue;
      c.log(h.show(v));
      if (r === null) r = await mount(c, t, v); else await r.render(v);
      c.eq(declarations(r.host.firstElementChild.style), declare(v), `the declarations for ${h.show(v)}`);
    }
  }, { bound: 'up to 7 strings or maps over 13 names' });

  // Shorthand properties, which the DOM in use here does not implement faithfully.
  await h.cases('shorthands', 500, async (c) => {
    const SHORT = { margin: ['margin-top', 'margin-left'], border: ['border-color', 'border-width'] };
    class Style {
      d = new Map();
      setProperty(k, v) { for (const n of SHORT[k] ?? [k]) if (v === '') this.d.delete(n); else this.d.set(n, v); }
      removeProperty(k) { for (const n of SHORT[k] ?? [k]) this.d.delete(n); }
      getPropertyValue(k) { return this.d.get(k) ?? ''; }
    }
    const NAMES = ['margin', 'marginTop', 'margin-top', 'margin-left', 'border', 'borderColor', 'border-width', 'color', '--Margin'];
    const style = new Style();
    const p = new c.B.domPart.StylePart({ style }, 'style');
    let prev;
    for (let i = count(c), first = true; i > 0; i--) {
      const v = {};
      for (const k of c.shuffle(NAMES).slice(0, c.int(5))) v[k] = c.bool(4) ? c.pick([null, undefined]) : c.pick(['1px', '2px']);
      if (conflicting(v)) continue;
      c.log(v);
      if (first) p.commitMount(v); else p.commitUpdate(prev, v);
      first = false;
      prev = v;
      const fresh = new Style();
      for (const k of Object.keys(v)) if (v[k] != null) fresh.setProperty(kebab(k), v[k]);
      c.eq([...style.d].sort(), [...fresh.d].sort(), `the declarations for ${h.show(v)}`);
    }
    if (prev) p.commitUnmount(prev, false);
    c.eq([...style.d], [], 'the declarations after unmounting');
  }, { bound: 'up to 7 maps over 9 names, with shorthand properties' });

  // The parts themselves, with static class names and styles.
  await h.cases('parts', 300, (c) => {
    const { ClassPart, StylePart } = c.B.domPart;
    const e = document.createElement('p');
    const fixed = new Set(c.sub(CLASSES));
    e.className = [...fixed].join(' ');
    const p = new ClassPart(e, 'class');
    let prev;
    for (let i = count(c), first = true; i > 0; i--, first = false) {
      const v = classValue(c);
      c.log(h.show(v));
      if (first) p.commitMount(v); else p.commitUpdate(prev, v);
      prev = v;
      const m = mentions(v);
      for (const k of m.keys()) fixed.delete(k);
      const want = new Set([...m].filter(([, on]) => on).map(([k]) => k));
      for (const s of fixed) want.add(s);
      c.eq([...e.classList].sort(), [...want].sort(), `the classes for ${h.show(v)}`);
    }
    p.commitUnmount(prev, false);
    c.eq([...e.classList].sort(), [...fixed].sort(), 'the classes after unmounting');
    const s = new StylePart(e, 'style');
    e.style.zIndex = '7';
    s.commitMount({ color: 'red' });
    s.commitUpdate({ color: 'red' }, { marginTop: '1px' });
    c.eq(declarations(e.style), { 'margin-top': '1px', 'z-index': '7' }, 'static declarations');
    s.commitUnmount({ marginTop: '1px' }, false);
    c.eq(declarations(e.style), { 'z-index': '7' }, 'static declarations');
  }, { bound: 'up to 7 values on elements with static classes' });
}
