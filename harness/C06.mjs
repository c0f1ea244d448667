// Bounded stand-in for C06: rendered DOM against a fresh rendering.
import { HostAdapter, norm } from './host.mjs';

const KEYS = ['a', 'b', 'c', 'd', 'e'];
// Trees of templates, lists, components and text, as plain specifications.
export function gen(c, d) {
  const r = c.int(11);
  if (d <= 0 || r < 2) return c.int(4) ? (c.bool(4) ? { t: 'str', v: c.pick(['', 'x', 'y']) } : { t: 'tpl1', v: c.int(4) }) : { t: 'nul' };
  if (r < 4) return { t: 'tpl2', x: gen(c, d - 1) };
  if (r < 5) return { t: 'tpl3', x: gen(c, d - 1), y: gen(c, d - 1) };
  if (r < 8) return genList(c, d);
  if (r < 9) return { t: 'memo', x: gen(c, d - 1) };
  if (r < 10) return { t: 'tpl4', x: gen(c, d - 1), v: c.int(3) };
  return { t: 'plain', x: gen(c, d - 1) };
}
function genList(c, d) {
  const mode = c.int(3);
  const ch = [];
  const ks = KEYS.slice();
  for (let i = c.int(5); i > 0; i--) {
    const k = mode === 0 ? undefined : mode === 1 ? ks.splice(c.int(ks.length), 1)[0] : c.bool() ? ks.splice(c.int(ks.length), 1)[0] : undefined;
    ch.push({ k, x: gen(c, d - 1) });
  }
  return { t: 'list', ch };
}
export function mutate(c, s, d) {
  if (c.int(6) === 0) return gen(c, d);
  switch (s.t) {
    case 'tpl2':
    case 'memo':
    case 'plain':
    case 'tpl4':
      return c.int(3) ? { ...s, x: mutate(c, s.x, d - 1) } : s;
    case 'tpl3':
      return { ...s, x: mutate(c, s.x, d - 1), y: mutate(c, s.y, d - 1) };
    case 'list': {
      let ch = s.ch.map((x) => (c.bool() ? x : { k: x.k, x: mutate(c, x.x, d - 1) }));
      const op = c.int(5);
      if (op < 3) {
        ch = c.shuffle(ch);
        if (op === 1) ch = ch.slice(0, c.int(ch.length + 1));
        if (op === 2) {
          const used = new Set(ch.map((x) => x.k));
          for (const k of KEYS) if (!used.has(k) && c.int(3) === 0) ch.splice(c.int(ch.length + 1), 0, { k, x: gen(c, d - 1) });
        }
      }
      return { t: 'list', ch };
    }
    case 'tpl1':
      return { t: 'tpl1', v: c.int(4) };
  }
  return s;
}
export function builder(B) {
  const { html, createComponent, createFragment, createBind } = B;
  const Memo = createComponent(function Memo(p) { return p.f(); }, { arePropsEqual: (a, b) => a.id === b.id });
  const Plain = createComponent(function Plain(p) { return p.f(); });
  return () => {
    const cache = new WeakMap();
    const build = (s, hoist) => {
      if (hoist && cache.has(s)) return cache.get(s);
      let e;
      switch (s.t) {
        case 'nul': e = null; break;
        case 'str': e = s.v; break;
        case 'tpl1': e = html`<i>${s.v}</i>`; break;
        case 'tpl2': e = html`<u><${build(s.x, hoist)}></u>`; break;
        case 'tpl3': e = html`<${build(s.x, hoist)}><hr><${build(s.y, hoist)}>`; break;
        case 'tpl4': e = html`<p id=${s.v}>${s.v}</p><${build(s.x, hoist)}>`; break;
        case 'list': e = createFragment(s.ch.map((x) => { const w = build(x.x, hoist); const el = w === null || typeof w !== 'object' ? createBind(w) : w; return x.k === undefined ? el : el.withKey(x.k); })); break;
        case 'memo': e = Memo({ id: s, f: () => build(s.x, hoist) }); break;
        case 'plain': e = Plain({ f: () => build(s.x, hoist) }); break;
      }
      if (hoist && e !== null && typeof e === 'object') cache.set(s, e);
      return e;
    };
    return build;
  };
}
export default async function (h) {
  // The container is a root, an element hole or the head of a template.
  const place = {
    root: (html, x) => x,
    element: (html, x) => html`<div><${x}></div>`,
    after: (html, x) => html`<b>1</b><${x}><b>2</b><${x === null ? null : 'z'}>`,
  };
  await h.cases('renders', 700, async (c) => {
    const { Runtime, DOMRoot, DOMAdapter, html } = c.B;
    const newBuild = builder(c.B);
    const rt = new Runtime(new HostAdapter(c));
    const build = newBuild(), fresh = newBuild();
    const where = c.pick(Object.keys(place));
    const hoist = !c.bool(4);
    const container = document.createElement('div');
    const root = new DOMRoot(container, rt);
    let s = gen(c, 4);
    for (let st = 0; st < 6; st++) {
      c.log(where, JSON.stringify(s));
      await root.render(place[where](html, build(s, hoist)), { flushSync: true }).finished;
      const f = document.createElement('div');
      await new DOMRoot(f, rt).render(place[where](html, fresh(s, false)), { flushSync: true }).finished;
      c.eq(norm(container.innerHTML), norm(f.innerHTML), `content after render ${st}`);
      s = mutate(c, s, 4);
    }
  }, { bound: 'trees of depth 4, 6 renders' });

  // A chain of distinct renders batched together; the last one decides.
  await h.cases('batched renders', 200, async (c) => {
    const { Runtime, DOMRoot, html } = c.B;
    const newBuild = builder(c.B);
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    const build = newBuild(), fresh = newBuild();
    const container = document.createElement('div');
    const root = new DOMRoot(container, rt);
    let s = gen(c, 3);
    for (let st = 0; st < 4; st++) {
      const n = 1 + c.int(3);
      for (let i = 0; i < n; i++) {
        c.log(JSON.stringify(s));
        root.render(build(s, true), { priority: 'user-visible' }).finished.catch((e) => c.async.push(e));
        if (i < n - 1) s = mutate(c, s, 3);
        if (c.bool(4)) await h.tick();
      }
      await ad.drain();
      const f = document.createElement('div');
      const last = new DOMRoot(f, new Runtime(ad)).render(fresh(s, false), { flushSync: true });
      await last.finished;
      c.eq(norm(container.innerHTML), norm(f.innerHTML), 'content after a batch of renders');
      s = mutate(c, s, 3);
    }
  }, { bound: 'trees of depth 3, up to 3 renders per batch, 4 batches' });

  // Components with state, keyed lists, arbitrary schedules.
  const hash = (...a) => { let x = 7; for (const ch of a.join('|')) x = (x * 31 + ch.charCodeAt(0)) & 0xffffff; return ((x * 2654435761) >>> 7) & 0xffff; };
  const layout = (name, s, p) => {
    const d = name.split('/').length;
    if (d >= 4) return { kind: hash(name, s, p) % 3, kids: [] };
    const x = hash(name, s, p);
    const perm = [0, 1, 2, 3];
    let g = x;
    for (let i = 3; i > 0; i--) { g = (g * 1103515245 + 12345) & 0x7fffffff; const j = (g >> 8) % (i + 1); [perm[i], perm[j]] = [perm[j], perm[i]]; }
    return { kind: (x >> 4) % 4, kids: perm.slice(0, x % 4).map((q, i) => ({ name: `${name}/${q}`, p: hash(name, s, i) % 3, memo: q % 2 })) };
  };
  await h.cases('schedules', 500, async (c) => {
    const { Runtime, DOMRoot, createComponent, createFragment, html } = c.B;
    const ad = new HostAdapter(c, { priority: () => c.pick(['background', 'user-visible', 'user-blocking']) });
    const rt = new Runtime(ad);
    const reg = new Map();
    const body = (name, s, p, rec) => {
      const { kind, kids } = layout(name, s, p);
      const ch = createFragment(kids.map(rec));
      switch (kind) {
        case 0: return html`<b id=${name}>${s}</b><${ch}>`;
        case 1: return ch;
        case 2: return html`<u><${ch}></u>`;
        default: return html`<${ch}><i>${name}:${s}:${p}</i>`;
      }
    };
    const mk = (opts) => createComponent(function C({ name, p }) {
      const [s, set] = this.useState(0);
      const r = this.useMemo(() => ({ s: 0, mounted: 0 }), []);
      this.useEffect(() => { reg.set(name, r); r.set = set; r.mounted++; return () => { r.mounted--; }; }, []);
      return body(name, s, p, (k) => (k.memo ? Memo : Plain)({ name: k.name, p: k.p }).withKey(k.name));
    }, opts);
    const Memo = mk({ arePropsEqual: (a, b) => a.name === b.name && a.p === b.p }), Plain = mk({});
    const Fresh = createComponent(function F({ name, p }) {
      const r = reg.get(name);
      c.ok(r, `no component ${name} has been mounted`);
      return body(name, r.s, p, (k) => Fresh({ name: k.name, p: k.p }).withKey(k.name));
    });
    const container = document.createElement('div');
    const root = new DOMRoot(container, rt);
    let rp = c.int(3);
    const el = () => html`<main><${Plain({ name: 'r', p: rp })}></main>`;
    await root.render(el(), { flushSync: true }).finished;
    for (let st = 0; st < 25; st++) {
      const k = c.int(10);
      if (k < 5) {
        const live = [...reg].filter(([, r]) => r.mounted > 0);
        if (live.length) {
          const [n, r] = c.pick(live);
          const m = c.int(4) + 2, a = c.int(50);
          const f = (x) => (x * m + a) % 997;
          const o = c.pick([{ priority: 'user-blocking' }, { priority: 'user-visible' }, { priority: 'background' }, { flushSync: true }, {}, { transition: c.int(3), priority: 'background' }, { priority: 'user-blocking', transition: c.int(2) }, { handler: (cb) => { cb(); } }]);
          c.log('set', n, m, a, { ...o, handler: !!o.handler });
          r.set(f, o).finished.catch((e) => c.async.push(e));
          r.s = f(r.s);
        }
      } else if (k < 6) {
        rp = c.int(3);
        c.log('root', rp);
        root.render(el(), { priority: 'user-blocking' }).finished.catch((e) => c.async.push(e));
      } else if (k < 8) { if (ad.run('callback')) c.log('callback'); if (c.bool()) await h.tick(); }
      else if (k < 9) { if (ad.run('commit')) c.log('commit'); if (c.bool()) await h.tick(); }
      else await h.tick();
      if (c.async.length) throw c.async[0];
    }
    await ad.drain();
    if (c.async.length) throw c.async[0];
    const f = document.createElement('div');
    await new DOMRoot(f, new Runtime(new HostAdapter(c))).render(html`<main><${Fresh({ name: 'r', p: rp })}></main>`, { flushSync: true }).finished;
    c.eq(norm(container.innerHTML), norm(f.innerHTML), 'content at the end');
  }, { bound: 'trees of depth 4, 25 steps' });

  // The history of the known finding, exactly.
  await h.cases('hoisted element rendered again', 1, async (c) => {
    const { Runtime, DOMRoot, createComponent, html } = c.B;
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    let set;
    const C = createComponent(function C() { const [s, f] = this.useState(0); set = f; return html`<i>${s}</i>`; });
    const container = document.createElement('div');
    const root = new DOMRoot(container, rt);
    const tpl = (x) => html`<div><${x}></div>`;
    const el0 = tpl(C({}));
    await root.render(el0, { flushSync: true }).finished;
    const o = { priority: 'user-blocking' };
    set(1, o);
    root.render(tpl(C({})), o);
    root.render(el0, o);
    await ad.drain();
    c.known = 'hoisted-rerender-in-batch';
    c.eq(norm(container.innerHTML), '<div><i>1</i></div>', 'content');
    c.known = undefined;
  }, { fixed: true, bound: 'one history' });
}
