// Bounded stand-in for C05: keyed lists of stateful components and templates.
import { HostAdapter } from './host.mjs';
export default async function (h) {
  const OBJ = [{}, {}, Symbol('k')];
  const KEYS = ['a', 'b', 'c', 'd', 'e', 'f', 1, 2, NaN, null, undefined, '', true, '1', ...OBJ];
  const scenario = (big) => async (c) => {
    const { Runtime, DOMRoot, createComponent, html, createFragment, createPortal } = c.B;
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    const container = document.createElement('div');
    const root = new DOMRoot(container, rt);
    const insts = [];
    let renders = [];
    const errs = [];
    const mk = (tag, opts) => createComponent(function K({ k, v }) {
      const inst = this.useMemo(() => { const i = { mounts: 0, unmounts: 0, node: null }; insts.push(i); return i; }, []);
      inst.k = k;
      renders.push(inst);
      this.useEffect(() => { inst.mounts++; return () => { inst.unmounts++; }; }, []);
      this.useEffect(() => { inst.v = v; inst.tag = tag; });
      return tag === 'none' ? null : tag === 'list' ? createFragment([html`<b ${(e) => { inst.node = e; }}>${v}</b>`, html`<s>${v}</s>`]) : tpl(inst, v);
    }, opts);
    const tpl = (inst, v) => html`<i ${inst.setNode ??= (e) => { inst.node = e; }}>${v}</i>`;
    const TYPES = [mk('i', {}), mk('list', {}), mk('memo', { arePropsEqual: (a, b) => a.v === b.v && Object.is(a.k, b.k) })];
    const tpls = [(k, v) => html`<u id=${'t'}>${v}</u>`, (k, v) => html`<p>${v}</p>`];
    const pool = big ? Array.from({ length: 14 }, (_, i) => `k${i}`) : c.shuffle(KEYS).slice(0, 3 + c.int(6));
    const ntypes = c.pick([1, 2, 5]);
    const typeOf = new Map();
    const nested = c.int(3);
    // items: {k, t, v}
    const next = (old) => {
      let items;
      const how = c.int(10);
      if (how < 2) items = c.shuffle(pool).slice(0, c.int(pool.length + 1)).map((k) => ({ k }));
      else if (how === 2) items = old.toReversed();
      else if (how === 3) items = [...old.slice(1), ...old.slice(0, 1)];
      else if (how === 4) items = [...old.slice(-1), ...old.slice(0, -1)];
      else if (how === 5) { items = [...old]; if (items.length > 1) { const i = c.int(items.length), j = c.int(items.length); [items[i], items[j]] = [items[j], items[i]]; } }
      else if (how === 6) items = c.sub(old);
      else {
        items = c.bool() ? c.sub(old) : [...old];
        for (const k of pool) if (!items.some((x) => Object.is(x.k, k)) && c.bool(3)) items.splice(c.int(items.length + 1), 0, { k });
        if (c.bool(3)) items = c.shuffle(items);
      }
      return items.map(({ k }) => {
        const o = old.find((x) => Object.is(x.k, k));
        return { k, t: o && !c.bool(6) ? o.t : c.int(ntypes), v: o && c.bool(3) ? o.v : `v${c.int(100)}` };
      });
    };
    const element = (x) => (x.t < 3 ? TYPES[x.t]({ k: x.k, v: x.v }) : tpls[x.t - 3](x.k, x.v)).withKey(x.k);
    const tree = (items) => { const f = createFragment(items.map(element)); return nested === 0 ? f : nested === 1 ? html`<div><${f}></div>` : html`<hr><${f}><hr>`; };
    let old = [];
    let oldInst = new Map(), oldNodes = new Map();
    let items = next([]);
    const rounds = big ? 4 : 6;
    for (let r = 0; r < rounds; r++) {
      c.log('list', items.map((x) => `${h.show(x.k)}:${x.t}=${x.v}`).join(' '));
      renders = [];
      await root.render(tree(items), c.bool(3) ? { priority: 'background' } : { flushSync: true }).finished.catch((e) => { throw e; }).constructor;
      await ad.drain();
      // who is there now
      const live = insts.filter((i) => i.mounts > 0 && i.unmounts === 0);
      for (const i of insts) {
        c.ok(i.mounts === 1, `the child ${h.show(i.k)} was mounted ${i.mounts} times`);
        c.ok(i.unmounts <= 1, `the child ${h.show(i.k)} was unmounted ${i.unmounts} times`);
      }
      for (const i of insts) c.ok(renders.filter((x) => x === i).length <= 1, `the child ${h.show(i.k)} was rendered ${renders.filter((x) => x === i).length} times`);
      const comps = items.filter((x) => x.t < 3);
      c.eq(live.length, comps.length, 'number of mounted components');
      const inst = new Map();
      for (const x of comps) {
        const i = live.find((i) => Object.is(i.k, x.k));
        c.ok(i, `no component for the key ${h.show(x.k)}`);
        c.eq(i.v, x.v, `props of the child ${h.show(x.k)}`);
        inst.set(x, i);
        const o = old.find((y) => Object.is(y.k, x.k) && y.t === x.t);
        if (o) {
          c.ok(oldInst.get(o) === i, `the child ${h.show(x.k)} lost its state`);
          if (x.t !== 1) c.ok(i.node === oldNodes.get(o), `the child ${h.show(x.k)} lost its node`);
        } else c.ok(![...oldInst.values()].includes(i), `the child ${h.show(x.k)} took over the state of another one`);
      }
      // templates: node identity, found by position in document order
      const els = [...container.querySelectorAll('i,b,u,p')];
      c.eq(els.map((e) => e.textContent), items.map((x) => x.v), 'displayed children');
      const nodes = new Map();
      items.forEach((x, j) => nodes.set(x, els[j]));
      for (const x of items) {
        const o = old.find((y) => Object.is(y.k, x.k) && y.t === x.t);
        if (o) c.ok(nodes.get(x) === oldNodes.get(o), `the node of the child ${h.show(x.k)} did not survive`);
        else c.ok(![...oldNodes.values()].includes(nodes.get(x)), `the child ${h.show(x.k)} took over the node of another one`);
      }
      for (const [o, e] of oldNodes) if (!items.some((x) => Object.is(x.k, o.k) && x.t === o.t)) c.ok(!container.contains(e), `the node of the removed child ${h.show(o.k)} is still there`);
      old = items;
      oldInst = inst;
      oldNodes = nodes;
      items = next(items);
    }
  };
  await h.cases('small lists', 500, scenario(false), { bound: 'up to 8 keys, 6 renders' });
  await h.cases('long lists', 120, scenario(true), { bound: 'up to 14 keys, 4 renders' });

  // All pairs of arrangements of up to 4 keys.
  const perms = (a, n) => (n === 0 ? [[]] : a.flatMap((x) => perms(a.filter((y) => y !== x), n - 1).map((p) => [x, ...p])));
  const all = [0, 1, 2, 3, 4].flatMap((n) => perms(['a', 'b', 'c', 'd'], n));
  await h.cases('all pairs', all.length, async (c, i) => {
    const { Runtime, DOMRoot, createComponent, html, createFragment } = c.B;
    const rt = new Runtime(new HostAdapter(c));
    const from = all[i];
    c.log('from', from);
    for (const to of all) {
      if (h.tier !== 'thorough' && (i + all.indexOf(to)) % 4 !== 0) continue;
      const log = [];
      const K = createComponent(function K({ k }) {
        this.useEffect(() => { log.push(`+${k}`); return () => { log.push(`-${k}`); }; }, []);
        return html`<i>${k}</i>`;
      });
      const div = document.createElement('div');
      const root = new DOMRoot(div, rt);
      const el = (ks) => createFragment(ks.map((k) => K({ k }).withKey(k)));
      await root.render(el(from), { flushSync: true }).finished;
      const nodes = new Map([...div.children].map((e) => [e.textContent, e]));
      log.length = 0;
      await root.render(el(to), { flushSync: true }).finished;
      c.eq([...div.children].map((e) => e.textContent), to, `children after ${from} -> ${to}`);
      for (const k of to) if (from.includes(k)) c.ok([...div.children][to.indexOf(k)] === nodes.get(k), `node of ${k} in ${from} -> ${to}`);
      c.eq(log.toSorted(), [...to.filter((k) => !from.includes(k)).map((k) => `+${k}`), ...from.filter((k) => !to.includes(k)).map((k) => `-${k}`)].toSorted(), `effects in ${from} -> ${to}`);
    }
  }, { fixed: true, bound: 'all arrangements of up to 4 keys' });
}
