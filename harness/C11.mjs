// Bounded stand-in for C11: random templates against writing the values in place.
import { HostAdapter } from './host.mjs';

const ELEMENTS = { html: ['div', 'span', 'b', 'i', 'section', 'x-y'], svg: ['g', 'a', 'defs'], math: ['mrow', 'mstyle', 'mpadded'] };
const LEAVES = { html: ['input', 'br', 'hr', 'img'], svg: ['path', 'circle'], math: ['mspace'] };
const RAW = { html: ['textarea', 'pre'], svg: ['text'], math: ['mi', 'mn'] };
const TEXTS = ['a', 'b ', ' c', ' d e ', '\n  f', 'g\n  ', '\n  h\n  ', '\n', '  \n ', ' ', 'x < y', '"q"', "it's", 'a\nb', '\t\n k', '$', '?', '?$', '{', '&'];
const SVG_ATTRS = ['viewBox', 'gradientUnits', 'stdDeviation', 'xlink-x', 'x', 'fooBar'];
const ADJUSTED = new Set(['viewBox', 'gradientUnits', 'stdDeviation']);
const ATTRS = ['id', 'title', 'data-a', 'DATA-B', 'lang', 'aria-x', 'fooBar'];
const STATIC = ['', 'v', 'a b', '  ', "x'y", '{z}'];
const esc = (s) => s.replace(/&/g, '&amp;').replace(/</g, '&lt;');
export const strip = (s) => {
  if (/^\s*\n/.test(s)) s = s.trimStart();
  if (/\n\s*$/.test(s)) s = s.trimEnd();
  return s;
};

// A template: `strings`, the number of its holes, and the tree it denotes.
function generate(c, mode) {
  const strings = [''];
  const put = (s) => { strings[strings.length - 1] += s; };
  let holes = 0;
  const hole = () => { strings.push(''); return holes++; };
  let serial = 0;
  const ws = () => c.pick(['', '', ' ', '\n  ']);
  const nodes = (d) => {
    const out = [];
    for (let n = c.int(4); n > 0; n--) out.push(...node(d));
    return out;
  };
  const node = (d) => {
    switch (c.int(d > 0 ? 10 : 6)) {
      case 0: { const t = c.pick(TEXTS); put(esc(t)); return [{ text: t }]; }
      case 1: return [{ textHole: hole() }];
      case 2: { put('<'); const n = hole(); put(c.pick(['>', '/>', ' />', ' >'])); return [{ child: n }]; }
      case 3: { put('<!--'); if (c.bool(3)) { const n = hole(); put('-->'); return [{ child: n }]; } const t = c.pick([' c ', 'x', ' ? ', '?$']); put(`${t}-->`); return [{ comment: t }]; }
      case 4: return [element(c.pick(LEAVES[mode]), 0)];
      case 5: return [element(c.pick(RAW[mode]), 1)];
      default: return [element(c.pick(ELEMENTS[mode]), 2, d)];
    }
  };
  const element = (tag, kind, d) => {
    const e = { tag, n: serial++, attrs: new Map(), holes: [], kids: [] };
    put(`<${tag}`);
    const parts = [];
    const names = c.shuffle(mode === 'svg' && c.bool() ? SVG_ATTRS : ATTRS).slice(0, c.int(3));
    for (const name of names) parts.push(() => attribute(e, name));
    for (let i = c.int(3); i > 0; i--) parts.push(() => special(e, i));
    if (c.bool(4)) parts.push(() => { put(' '); e.holes.push({ ref: hole() }); });
    parts.push(() => put(` data-n="${e.n}"`));
    for (const p of c.shuffle(parts)) p();
    put(ws());
    if (kind === 0) {
      put(mode === 'html' ? c.pick(['>', ' />']) : ` />`);
    } else {
      put('>');
      if (kind === 2) e.kids = nodes(d - 1);
      else for (let i = c.int(4); i > 0; i--) {
        if (c.bool()) { const t = c.pick(TEXTS); put(esc(t)); e.kids.push({ text: e.kids.length === 0 && mode === 'html' ? t.replace(/^\n/, '') : t }); /* as the parser does */ } else e.kids.push({ textHole: hole() });
      }
      put(`</${tag}>`);
    }
    return e;
  };
  const quoted = (f) => {
    const q = c.pick(['"', "'", '']);
    put(`${ws()}=${ws()}${q}`);
    const n = f();
    put(q);
    return n;
  };
  const attribute = (e, name) => {
    put(` ${name}`);
    if (c.bool()) { e.holes.push({ attr: name, n: quoted(hole) }); return; }
    const v = c.pick(STATIC);
    put(`${ws()}=${ws()}"${v}"`);
    e.attrs.set(ADJUSTED.has(name) ? name : name.toLowerCase(), v); // as the parser does
  };
  const special = (e, i) => {
    switch (c.int(4)) {
      case 0: put(` .prop${i}X`); e.holes.push({ prop: `prop${i}X`, n: quoted(hole) }); break;
      case 1: put(` $live${i}Y`); e.holes.push({ prop: `live${i}Y`, n: quoted(hole) }); break;
      case 2: put(` @evt${i}Z`); e.holes.push({ event: `evt${i}Z`, n: quoted(hole) }); break;
      case 3: if (!e.holes.some((h) => h.attr === 'class') && mode === 'html') { put(c.pick([' class', ' CLASS', ' Class'])); e.holes.push({ attr: 'class', n: quoted(hole), cls: true, map: c.bool() }); } break;
    }
  };
  const kids = nodes(3);
  return { strings, holes, kids };
}
// What the children of a node look like, with the holes filled in.
function expected(kids, values, mode) {
  const out = [];
  const add = (s) => { if (s === '') return; if (typeof out.at(-1) === 'string') out[out.length - 1] += s; else out.push(s); };
  // Adjacent static text is one text; holes split it.
  for (let i = 0; i < kids.length; i++) {
    const k = kids[i];
    if (k.text !== undefined) {
      let t = k.text;
      while (kids[i + 1]?.text !== undefined) t += kids[++i].text;
      add(strip(t));
    } else if (k.textHole !== undefined) add(values[k.textHole]);
    else if (k.child !== undefined) out.push(...values[k.child].expect);
    else if (k.comment !== undefined) out.push({ comment: k.comment });
    else {
      const attrs = new Map([...k.attrs, ['data-n', String(k.n)]]);
      for (const h of k.holes) if (h.attr) attrs.set(mode === 'html' ? h.attr.toLowerCase() : h.attr, values[h.n]);
      out.push({ tag: k.tag, attrs: [...attrs].sort(([a], [b]) => (a < b ? -1 : 1)), kids: expected(k.kids, values, mode), spec: k });
    }
  }
  return merge(out);
}
const merge = (a) => {
  const out = [];
  for (const x of a) if (typeof x === 'string' && typeof out.at(-1) === 'string') out[out.length - 1] += x; else out.push(x);
  return out;
};
function actual(node) {
  const out = [];
  for (const n of node.childNodes) {
    if (n.nodeType === 3) { if (n.data !== '') out.push(n.data); } else if (n.nodeType === 8) { if (n.data !== '') out.push({ comment: n.data }); } else {
      out.push({ tag: n.localName, attrs: Array.from(n.attributes, (a) => [a.name, a.value]).sort(([a], [b]) => (a < b ? -1 : 1)), kids: actual(n), node: n });
    }
  }
  return merge(out);
}
function compareTrees(c, got, want, where) {
  const brief = (l) => l.map((x) => (typeof x === 'string' ? JSON.stringify(x) : x.comment !== undefined ? `<!--${x.comment}-->` : `<${x.tag}>`)).join(' ');
  c.ok(got.length === want.length, () => `${where}: found ${brief(got)}, expected ${brief(want)}`);
  got.forEach((g, i) => {
    const w = want[i];
    if (typeof w === 'string' || w.comment !== undefined) return c.eq(g, w, `${where}[${i}]`);
    c.ok(g.tag === w.tag, () => `${where}[${i}]: found ${brief([g])}, expected ${brief([w])}`);
    c.eq(g.attrs, w.attrs, `${where}[${i}] attributes`);
    if (w.spec) w.found = g.node;
    compareTrees(c, g.kids, w.kids, `${where} > ${w.tag}${i}`);
  });
}
let uid = 0;
function fill(c, t, mode) {
  const { html, createFragment } = c.B;
  const values = new Array(t.holes);
  const elements = new Array(t.holes);
  const visit = (kids) => {
    for (const k of kids) {
      if (k.textHole !== undefined) elements[k.textHole] = values[k.textHole] = `t${uid++}`;
      else if (k.child !== undefined) {
        const s = `c${uid++}`;
        const r = c.int(4);
        if (r === 0 || mode !== 'html') { elements[k.child] = null; values[k.child] = { expect: [] }; }
        else if (r === 1) { elements[k.child] = html`<u>${s}</u>`; values[k.child] = { expect: [{ tag: 'u', attrs: [], kids: [s] }] }; }
        else if (r === 2) { elements[k.child] = html`${s}`; values[k.child] = { expect: [s] }; }
        else { elements[k.child] = createFragment([html`<u>${s}</u>`, html`<s></s>`]); values[k.child] = { expect: [{ tag: 'u', attrs: [], kids: [s] }, { tag: 's', attrs: [], kids: [] }] }; }
      } else if (k.tag) {
        for (const h of k.holes) {
          if (h.attr) { const v = values[h.n] = `v${uid++}`; elements[h.n] = h.map ? { [v]: true, [`no${v}`]: false } : v; }
          else if (h.prop) elements[h.n] = values[h.n] = { prop: uid++ };
          else if (h.event) { const calls = []; values[h.n] = calls; elements[h.n] = (e) => calls.push(e); }
          else { const calls = []; values[h.ref] = calls; elements[h.ref] = (e) => { calls.push(e); }; }
        }
        visit(k.kids);
      }
    }
  };
  visit(t.kids);
  return { values, elements };
}
function check(c, host, mode, t, f) {
  const want = expected(t.kids, f.values, mode);
  const got = actual(host);
  compareTrees(c, got, want, 'tree');
  const visit = (list) => {
    for (const w of list) {
      if (!w.spec) continue;
      for (const h of w.spec.holes) {
        if (h.prop) c.ok(w.found[h.prop] === f.values[h.n], `the property ${h.prop} is not set on <${w.tag} data-n=${w.spec.n}>`);
        else if (h.event) {
          const calls = f.values[h.n];
          const before = calls.length;
          const e = new window.Event(h.event);
          w.found.dispatchEvent(e);
          c.ok(calls.length === before + 1 && calls.at(-1) === e, `the listener of ${h.event} is not attached to <${w.tag} data-n=${w.spec.n}>`);
        } else if (h.ref !== undefined) c.ok(f.values[h.ref].length === 1 && f.values[h.ref][0] === w.found, `the element hole of <${w.tag} data-n=${w.spec.n}> got ${h.ref.length} calls`);
      }
      visit(w.kids);
    }
  };
  visit(want);
}
export default async function (h) {
  await h.cases('templates', 900, async (c) => {
    const { Runtime, DOMRoot, createTemplate, createBind } = c.B;
    const mode = c.pick(['html', 'html', 'html', 'svg', 'math']);
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    const t = generate(c, mode);
    c.log(mode, t.strings);
    // Surrounding white space of the whole template.
    const roots = [];
    for (let r = 0; r < 2; r++) {
      const host = document.createElement('div');
      const root = new DOMRoot(host, rt);
      const f = fill(c, t, mode);
      await root.render(createTemplate(mode, t.strings, f.elements), { flushSync: true }).finished;
      check(c, host, mode, t, f);
      roots.push({ host, root, f, before: actual(host) });
    }
    // The renderings are independent.
    const [a, b] = roots;
    const f = fill(c, t, mode);
    await a.root.render(createTemplate(mode, t.strings, f.elements), { flushSync: true }).finished;
    check(c, a.host, mode, t, { ...f, values: f.values });
    compareTrees(c, actual(b.host), strip2(b.before), 'the other rendering');
    await a.root.unmount({ flushSync: true }).finished;
    c.eq(actual(a.host), [], 'after unmounting');
    compareTrees(c, actual(b.host), strip2(b.before), 'the other rendering');
    // A wrong number of values.
    if (c.bool(3)) {
      const wrong = f.elements.slice();
      if (c.bool() && wrong.length) wrong.pop(); else wrong.push(createBind(null));
      const strings = t.strings.slice();
      const host = document.createElement('div');
      let rejected = false;
      try { await new DOMRoot(host, rt).render(createTemplate(mode, strings, wrong), { flushSync: true }).finished; } catch { rejected = true; }
      c.ok(rejected, `a template with ${t.holes} holes accepts ${wrong.length} values`);
      c.eq(actual(host), [], 'after a rejected template');
    }
  }, { bound: 'templates of depth 4 in html, svg and math mode, 3 renderings' });

  await h.cases('texts', 200, async (c) => {
    const { Runtime, DOMRoot, text } = c.B;
    const rt = new Runtime(new HostAdapter(c));
    const n = c.int(5);
    const strings = Array.from({ length: n + 1 }, () => c.pick(['', 'a', '<b>', '</i>', ' x ', '\n y', 'z\n', '<!-- c -->', '&amp;', '<div id="x">', '?', '$']));
    const values = Array.from({ length: n }, () => c.pick(['', 'v', '<b>', '&lt;', 0, 17, true, '\n']));
    c.log(strings, values);
    const host = document.createElement('div');
    const root = new DOMRoot(host, rt);
    const decode = (s) => s.replaceAll('&amp;', '&');
    const trim = (s, i) => strip(decode(s));
    let want = '';
    strings.forEach((s, i) => { want += trim(s, i); if (i < n) want += String(values[i]); });
    await root.render(text(strings, ...values), { flushSync: true }).finished;
    c.eq(host.textContent, want, 'the text');
    c.ok(host.querySelector('*') === null, 'a text template contains elements');
    const next = values.map((v) => (c.bool() ? v : c.pick(['p', 'q', null])));
    want = '';
    strings.forEach((s, i) => { want += trim(s, i); if (i < n) want += next[i] === null ? '' : String(next[i]); });
    await root.render(text(strings, ...next), { flushSync: true }).finished;
    c.eq(host.textContent, want, 'the updated text');
  }, { bound: 'text templates of up to 4 holes' });

  await h.cases('rejections', 40, async (c, i) => {
    const { Runtime, DOMRoot, html } = c.B;
    const bad = [
      () => html`<div id=${1} id=${2}></div>`, // duplicate attribute
      () => html`<div id="x" id=${2}></div>`,
      () => html`<div id=${1} ID="${2}"></div>`,
      () => html`<div><!-- ${1} x --></div>`,
      () => html`<${1} ${2}>`,
      () => html`<div id="a ${1}"></div>`,
      () => html`<div id="${1} b"></div>`,
      () => html`<div a${1}="x"></div>`,
      () => html`<div ${1} ${2}></div>`,
      () => html`<x${1}></x>`,
    ];
    const f = bad[(i >> 1) % bad.length];
    c.log(String(f));
    const host = document.createElement('div');
    let rejected = false;
    try { await new DOMRoot(host, new Runtime(new HostAdapter(c))).render(f(), { flushSync: true }).finished; } catch { rejected = true; }
    c.ok(rejected, 'a malformed template is accepted');
    c.eq(host.innerHTML, '', 'after a rejected template');
  }, { fixed: true, bound: '10 malformed templates in both builds' });
}
const strip2 = (l) => l.map((x) => (typeof x === 'string' || x.comment !== undefined ? x : { ...x, kids: strip2(x.kids) }));
