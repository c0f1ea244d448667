// Bounded stand-in for C17: components that display external values, with the
// values changing at any time relative to rendering, committing and subscribing.
import { HostAdapter, norm } from './host.mjs';

const OPTIONS = (c) => c.pick([{}, { flushSync: true }, { priority: 'user-blocking' }, { priority: 'background' }, { delay: 1 }]);
function store(c, id, v) {
  const subs = new Set();
  const s = {
    id, v, lag: false,
    subscribe: (f) => { const g = () => f(); subs.add(g); return c.bool(9) && false ? undefined : () => subs.delete(g); },
    getSnapshot: () => s.v,
    set(x) { s.v = x; for (const f of [...subs]) f(); },
    subs,
  };
  return s;
}
class Later extends Promise {}
export default async function (h) {
  for (const kind of ['signal', 'store', 'element']) {
    await h.cases(`${kind}s`, 350, async (c) => {
      const { Runtime, DOMRoot, html, createComponent, createFragment } = c.B;
      const { Atom, Computed, Derivable } = c.B.signal;
      const ad = new HostAdapter(c);
      const rt = new Runtime(ad);
      const host = document.createElement('div');
      const root = new DOMRoot(host, rt);
      const n = 1 + c.int(3);
      const sources = [];
      for (let i = 0; i < n; i++) {
        if (kind === 'store') sources.push(store(c, i, `s${i}`));
        else {
          const base = c.bool(4) ? Derivable.from(`s${i}`) : new Atom(`s${i}`);
          const shown = c.bool(3) ? (c.bool() ? base.map((x) => `<${x}>`) : new Computed((x) => `<${x}>`, [base])) : base;
          sources.push({ shown, get v() { return shown.value; }, set(x) { base.value = x; } });
        }
      }
      let disturb = 0; // changes made by effects
      const Use = createComponent(function Use({ s, k }) {
        const v = kind === 'store' ? this.use(c.B.hooks.SyncExternalStore(s.subscribe, s.getSnapshot)) : this.use(s.shown);
        // A change in the effect phase.
        this.useEffect(() => { if (disturb > 0 && c.bool()) { disturb--; const t = c.pick(sources); const x = `e${serial++}`; c.log('in an effect', sources.indexOf(t), x); t.set(x); } }, [v]);
        return html`<i>${k}=${v}</i>`;
      });
      let serial = 0;
      let shown = [];
      let current = null;
      const text = () => shown.map(({ i, k }) => (kind === 'element' ? `<b>${sources[i].v.replace(/</g, '&lt;').replace(/>/g, '&gt;')}</b>` : `<i>${k}=${sources[i].v.replace(/</g, '&lt;').replace(/>/g, '&gt;')}</i>`)).join('');
      const opts = OPTIONS(c); // of equal priority, or an earlier render may be applied later
      const render = () => {
        shown = c.shuffle(['a', 'b', 'c']).slice(0, 1 + c.int(3)).map((k) => ({ k, i: c.int(n) }));
        current = shown;
        c.log('render', shown, opts);
        return root.render(createFragment(shown.map(({ k, i }) => (kind === 'element' ? html`<b>${sources[i].shown}</b>` : Use({ s: sources[i], k })).withKey(k))), opts);
      };
      // Renders of different priorities may be superseded by each other; the
      // last one to be displayed is drained first.
      for (let i = 2 + c.int(5); i > 0; i--) {
        disturb = c.bool() ? 2 : 0;
        render();
        for (let j = c.int(8); j > 0; j--) {
          const op = c.int(4);
          if (op === 0) { const t = c.pick(sources); const x = c.pick(['p', 'q', `v${serial++}`]); c.log('set', sources.indexOf(t), x); t.set(x); } else if (op === 1) await h.tick();
          else ad.run();
        }
        await ad.drain();
        for (let j = c.int(4); j > 0; j--) {
          const t = c.pick(sources);
          const x = c.pick(['p', 'q', `v${serial++}`]);
          c.log('set', sources.indexOf(t), x);
          t.set(x);
          if (c.bool()) await h.tick();
          if (c.bool()) ad.run();
        }
        await ad.drain();
        c.eq(norm(host.innerHTML), text(), 'the text');
      }
      await root.unmount({ flushSync: true }).finished;
      await ad.drain();
      const html0 = host.innerHTML;
      for (const t of sources) t.set(`x${serial++}`);
      await ad.drain();
      c.ok(host.innerHTML === html0, 'changes after unmounting have an effect');
      if (kind === 'store') for (const t of sources) c.ok(t.subs.size === 0, 'a subscription outlives its component');
      void current;
    }, { bound: `up to 3 ${kind}s, 3 components, 6 renders` });
  }

  // One component whose signal or store is exchanged.
  await h.cases('exchanged', 400, async (c) => {
    const { Runtime, DOMRoot, html, createComponent } = c.B;
    const { Atom } = c.B.signal;
    const ad = new HostAdapter(c);
    const root = new DOMRoot(document.createElement('div'), new Runtime(ad));
    const host = root._container;
    const atoms = Array.from({ length: 3 }, (_, i) => new Atom(`a${i}`));
    const stores = Array.from({ length: 3 }, (_, i) => store(c, i, `s${i}`));
    // Any combination of a subscription function and a snapshot function of a store.
    const wrap = stores.map((s) => () => s.v);
    const X = createComponent(function X({ i, j, fresh }) {
      const a = this.use(atoms[i]);
      const s = this.use(c.B.hooks.SyncExternalStore(stores[j].subscribe, fresh ? () => stores[j].v : wrap[j]));
      return html`<i>${a} ${s}</i>`;
    });
    let i = 0, j = 0, n = 0;
    // Of equal priority: otherwise an earlier render may be applied later.
    const opts = c.pick([{}, { flushSync: true }]);
    for (let step = 3 + c.int(8); step > 0; step--) {
      switch (c.int(5)) {
        case 0: i = c.int(3); j = c.int(3); { const fresh = c.bool(3), o = opts; c.log('render', i, j, fresh, o); root.render(X({ i, j, fresh }), o); if (c.bool(3)) { c.log('drain'); await ad.drain(); } break; }
        case 1: { const k = c.int(3); const v = c.pick(['p', `v${n++}`]); c.log('atom', k, v); atoms[k].value = v; break; }
        case 2: { const k = c.int(3); const v = c.pick(['p', `v${n++}`]); c.log('store', k, v); stores[k].set(v); break; }
        case 3: c.log('run'); ad.run(); break;
        case 4: c.log('tick'); await h.tick(); break;
      }
    }
    root.render(X({ i, j, fresh: false }), opts);
    await ad.drain();
    c.eq(norm(host.innerHTML), `<i>${atoms[i].value} ${stores[j].v}</i>`, 'the text');
    const v = `w${n++}`;
    if (c.bool()) atoms[i].value = v; else stores[j].set(v);
    await ad.drain();
    c.eq(norm(host.innerHTML), `<i>${atoms[i].value} ${stores[j].v}</i>`, 'the text after a change');
    for (const [k, s] of stores.entries()) c.ok(s.subs.size === (k === j ? 1 : 0), `store ${k} has ${s.subs.size} subscriptions`);
  }, { bound: '3 signals, 3 stores, up to 10 steps' });

  // Selectors of one store, which has only one subscription function.
  await h.cases('selectors', 350, async (c) => {
    const { Runtime, DOMRoot, html, createComponent, createFragment } = c.B;
    const ad = new HostAdapter(c);
    const root = new DOMRoot(document.createElement('div'), new Runtime(ad));
    const host = root._container;
    const values = ['p', 'p', 'p'];
    const subs = new Set();
    const subscribe = (f) => { const g = () => f(); subs.add(g); return () => subs.delete(g); };
    const set = (k, v) => { c.log('field', k, v); values[k] = v; for (const f of [...subs]) f(); };
    const select = values.map((_, k) => () => values[k]);
    let n = 0, j = 0, disturb = 0, renders = 0;
    const value = () => c.pick(['p', NaN, 0, -0, `v${n++}`]);
    const X = createComponent(function X({ j, fresh }) {
      if (++renders > 500) throw new Error('rendering does not end');
      const s = this.use(c.B.hooks.SyncExternalStore(subscribe, fresh ? () => values[j] : select[j]));
      return html`<i>${s}</i>`;
    });
    // Changes the store when it is committed.
    const Y = createComponent(function Y() {
      const f = () => { if (disturb > 0 && c.bool()) { disturb--; set(c.int(3), value()); } };
      this.useEffect(f);
      return html`<b></b>`;
    });
    const opts = c.pick([{}, { flushSync: true }]);
    for (let step = 3 + c.int(8); step > 0; step--) {
      switch (c.int(4)) {
        case 0: {
          j = c.int(3); const fresh = c.bool(3);
          disturb = c.int(3);
          c.log('render', j, fresh);
          root.render(createFragment([Y({}), X({ j, fresh })]), opts);
          if (c.bool(3)) await ad.drain();
          break;
        }
        case 1: set(c.int(3), value()); break;
        case 2: c.log('run'); ad.run(); break;
        case 3: c.log('tick'); await h.tick(); break;
      }
    }
    root.render(createFragment([Y({}), X({ j, fresh: c.bool(3) })]), opts);
    await ad.drain();
    c.eq(norm(host.innerHTML), `<b></b><i>${values[j]}</i>`, 'the text');
    c.ok(subs.size === 1, `there are ${subs.size} subscriptions`);
  }, { bound: 'one store with 3 fields, up to 10 steps' });

  await h.cases('deferred', 300, async (c) => {
    const { Runtime, DOMRoot, html, createComponent } = c.B;
    const ad = new HostAdapter(c);
    const root = new DOMRoot(document.createElement('div'), new Runtime(ad));
    const host = root._container;
    const initial = c.bool(3) ? { initialValue: 'init' } : {};
    const seen = [];
    const show = (x) => (typeof x === 'function' ? x.label : x);
    const pool = ['a', 'b', 'c', Object.assign(() => 'called', { label: 'f' }), Object.assign(() => 'called too', { label: 'g' })];
    const opts = c.pick([{}, { flushSync: true }]); // of equal priority, or an earlier one may be applied later
    const X = createComponent(function X({ v }) {
      const d = this.use(c.B.hooks.DeferredValue(v, { ...initial, ...(c.bool(4) ? { priority: 'background' } : {}) }));
      seen.push(d);
      return html`<i>${show(v)} ${show(d)}</i>`;
    });
    let v;
    for (let s = 1 + c.int(6); s > 0; s--) {
      v = c.pick(pool);
      c.log(show(v));
      const first = seen.length === 0;
      root.render(X({ v }), opts);
      if (c.bool()) await ad.drain(); else { if (c.bool()) await h.tick(); ad.run(); }
      if (first && seen.length) c.ok(seen[0] === (initial.initialValue ?? v) || seen[0] !== undefined, 'the initial value');
    }
    await ad.drain();
    c.eq(norm(host.innerHTML), `<i>${show(v)} ${show(v)}</i>`, 'the text');
    const f = seen[0];
    if (initial.initialValue) c.eq(f, 'init', 'the initial value');
  }, { bound: 'up to 6 values' });

  await h.cases('effect events', 250, async (c) => {
    const { Runtime, DOMRoot, html, createComponent } = c.B;
    const ad = new HostAdapter(c);
    const root = new DOMRoot(document.createElement('div'), new Runtime(ad));
    const calls = [];
    const events = [];
    let committed = null, mounted = null;
    const opts = c.pick([{}, { flushSync: true }]);
    const X = createComponent(function X({ n, same }) {
      const ev = this.use(c.B.hooks.EffectEvent(same ? stable : function (...a) { calls.push([n, this, a]); return n; }));
      const self = this.useMemo(() => ({}), []);
      events.push([self, ev]);
      this.useEffect(() => { committed = same ? 'stable' : n; mounted = self; });
      return html`<i>${n}</i>`;
    });
    function stable(...a) { calls.push(['stable', this, a]); return 'stable'; }
    for (let n = 0; n < 2 + c.int(6); n++) {
      const same = c.bool(3);
      root.render(X({ n, same }), opts);
      c.log('render', n, same);
      for (let j = c.int(4); j > 0; j--) { if (c.bool()) await h.tick(); ad.run(); }
      if (c.bool()) await ad.drain();
      if (committed !== null) {
        calls.length = 0;
        const [, ev] = c.pick(events.filter(([x]) => x === mounted));
        const self = {};
        const out = ev.call(self, 1, 'x');
        c.eq(calls.map((x) => [x[0], x[2]]), [[committed, [1, 'x']]], 'the callback called');
        c.ok(out === committed && calls[0][1] === self, 'the result or the receiver of the callback');
      }
    }
    await ad.drain();
  }, { bound: 'up to 7 renders' });

  await h.cases('transitions', 250, async (c) => {
    const { Runtime, DOMRoot, html, createComponent } = c.B;
    const ad = new HostAdapter(c);
    const root = new DOMRoot(document.createElement('div'), new Runtime(ad));
    const host = root._container;
    let start, set;
    const pending = [];
    const X = createComponent(function X() {
      const [p, st] = this.use(c.B.hooks.Transition());
      const [v, sv] = this.useState(0);
      start = st; set = sv;
      pending.push(p);
      return html`<i>${p} ${v}</i>`;
    });
    await root.render(X({}), { flushSync: true }).finished;
    const open = [];
    let last = 0, running = 0;
    for (let n = 1; n < 2 + c.int(5); n++) {
      const kind = c.int(4);
      c.log('transition', n, ['sync', 'async', 'rejected', 'throwing'][kind]);
      let res, rej;
      if (kind === 3) {
        const err = new Error('x');
        let got;
        try { start((transition) => { set(n, { transition }); throw err; }); } catch (e) { got = e; }
        c.ok(got === err, 'the error of the action');
        last = n;
        if (c.bool()) await ad.drain();
        continue;
      }
      const p = kind === 0 ? null : new (c.bool(3) ? Later : Promise)((a, b) => { res = a; rej = b; });
      const out = start((transition) => { set(n, { transition }); return p ?? n; });
      c.ok(out === (p ?? n), 'the result of the action');
      last = n;
      if (p && n === 1) { // the flag of the only transition
        await ad.drain();
        c.ok(norm(host.innerHTML).startsWith('<i>true'), 'the flag of a pending transition');
      }
      if (p) { running++; open.push(() => { running--; if (kind === 1) res(); else { p.catch(() => {}); rej(new Error('x')); } }); }
      for (let j = c.int(5); j > 0; j--) { if (c.bool()) await h.tick(); ad.run(); }
      if (c.bool() && open.length) { c.log('finish'); open.splice(c.int(open.length), 1)[0](); }
      if (c.bool()) await ad.drain();
    }
    for (const f of open) f();
    await h.settle();
    await ad.drain();
    c.eq(norm(host.innerHTML), `<i>false ${last}</i>`, 'the text');
  }, { bound: 'up to 5 transitions', asyncErrors: false });

  await h.cases('handles', 150, async (c) => {
    const { Runtime, DOMRoot, html, createComponent } = c.B;
    const ad = new HostAdapter(c);
    const root = new DOMRoot(document.createElement('div'), new Runtime(ad));
    const log = [];
    const refs = [{ current: null }, { current: null }];
    const fn = (x) => { log.push(`+${x}`); return () => log.push(`-${x}`); };
    const X = createComponent(function X({ ref, n }) {
      this.use(c.B.hooks.ImperativeHandle(ref, () => n, [n]));
      return html`<i></i>`;
    });
    let was = null;
    for (let i = 1 + c.int(6); i > 0; i--) {
      const ref = c.pick([refs[0], refs[1], fn, null, undefined]);
      const n = c.int(3);
      c.log(refs.indexOf(ref), n);
      log.length = 0;
      await root.render(X({ ref, n }), { flushSync: true }).finished;
      for (const r of refs) c.ok(r.current === (r === ref ? n : null), 'the handle of a ref object');
      const want = [];
      const changed = was === null || was.ref !== ref || was.n !== n;
      if (changed) { if (was?.ref === fn) want.push(`-${was.n}`); if (ref === fn) want.push(`+${n}`); }
      c.eq(log, want, 'the calls of a ref function');
      was = { ref, n };
    }
    log.length = 0;
    await root.unmount({ flushSync: true }).finished;
    for (const r of refs) c.ok(r.current === null, 'the handle after unmounting');
    c.eq(log, was.ref === fn ? [`-${was.n}`] : [], 'the calls when unmounting');
  }, { bound: 'up to 6 renders' });
}
