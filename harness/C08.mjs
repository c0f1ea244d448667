// Bounded stand-in for C08: effects of components in changing trees.
import { HostAdapter } from './host.mjs';
export default async function (h) {
  const DEPS = [undefined, null, [], [1], [2], [1, 2], [NaN], [0], [-0], ['1']];
  const depsChanged = (a, b) => a == null || b == null || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]));
  await h.cases('trees', 350, async (c) => {
    const { Runtime, DOMRoot, createComponent, html, createFragment, createPortal } = c.B;
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    const insts = new Map(); // instance object -> record
    const all = [];
    let committing = false; // effects may run only while a commit runs
    const X = createComponent(function X({ spec }) {
      const inst = this.useMemo(() => ({}), []);
      let rec = insts.get(inst);
      if (!rec) {
        rec = { spec, effects: spec.deps.map(() => ({ live: 0, setups: 0, cleanups: 0, last: undefined, withCleanup: false })), mounted: false };
        insts.set(inst, rec);
        all.push(rec);
      }
      const gen = {};
      rec.rendered = { spec, gen };
      spec.deps.forEach((d, i) => {
        const e = rec.effects[i];
        const has = spec.cleanup[i];
        this.useEffect(() => {
          if (!committing) c.fail(`effect ${i} of ${spec.name} runs outside a commit`);
          if (e.live) c.fail(`effect ${i} of ${spec.name} is set up again before its cleanup`);
          e.setups++;
          e.gen = gen;
          e.live = has ? 1 : 0;
          c.log('setup', spec.name, i);
          if (has) return () => { c.log('cleanup', spec.name, i); e.cleanups++; if (e.live !== 1) c.fail(`cleanup ${i} of ${spec.name} runs twice`); e.live = 0; };
        }, d);
      });
      return body(spec);
    });
    const body = (spec) => {
      const kids = spec.kids.map(el);
      switch (spec.shape) {
        case 0: return html`<b>${spec.name}<${createFragment(kids)}></b>`;
        case 1: return kids;
        case 2: return html`<${createFragment(kids)}><i></i>`;
        default: return createPortal(createFragment(kids), document.createElement('p'));
      }
    };
    const el = (spec) => X({ spec }).withKey(spec.key);
    let uid = 0;
    const gen = (d) => ({ name: `x${uid++}`, key: c.pick(['a', 'b', 'c']), shape: c.int(4), deps: Array.from({ length: 2 }, () => c.pick(DEPS)), cleanup: [c.bool(), true], kids: d > 0 ? genKids(d - 1) : [] });
    const genKids = (d) => { const ks = c.sub(['a', 'b', 'c', 'd']); return c.shuffle(ks).map((k) => ({ ...gen(d), key: k })); };
    const vary = (s) => (c.bool(8) ? gen(2) : { ...s, deps: s.deps.map((d) => (c.bool(3) ? c.pick(DEPS) : Array.isArray(d) && c.bool() ? [...d] : d)), shape: c.bool(10) ? c.int(4) : s.shape, kids: c.shuffle(s.kids.map(vary)).slice(0, c.bool(3) ? c.int(s.kids.length + 1) : s.kids.length) });
    const container = document.createElement('div');
    const root = new DOMRoot(container, rt);
    let spec = gen(2);
    spec.key = undefined;
    const flushMode = c.int(3);
    // live(spec): the instances that should be mounted after the commit
    const names = (s) => [s, ...s.kids.flatMap(names)];
    for (let r = 0; r < 6; r++) {
      const before = all.map((x) => ({ x, n: x.effects.map((e) => e.setups), spec: x.committed }));
      for (const x of all) x.rendered = null;
      c.log('render', r, JSON.stringify(names(spec).map((s) => [s.name, s.key, s.shape, s.deps.map(String)])));
      if (flushMode === 0) {
        committing = true;
        await root.render(el(spec), { flushSync: true }).finished;
        committing = false;
      } else {
        const hd = root.render(el(spec), flushMode === 1 ? { priority: 'user-visible' } : { handler: async (commit) => { await h.tick(); committing = true; commit(); committing = false; } });
        hd.finished.catch((e) => c.async.push(e));
        await h.tick();
        ad.q.shift()?.();
        await h.settle(3);
        if (flushMode === 1) {
          committing = true;
          ad.commits.shift()();
          committing = false;
        }
        await h.settle(2);
      }
      if (c.async.length) throw c.async[0];
      for (const x of all) {
        const b = before.find((y) => y.x === x);
        const shown = x.rendered !== null;
        x.effects.forEach((e, i) => {
          const ran = e.setups - (b ? b.n[i] : 0);
          if (shown) {
            const must = !b || !x.mounted || depsChanged(b.spec.deps[i], x.rendered.spec.deps[i]);
            c.ok(ran === (must ? 1 : 0), `effect ${i} of ${x.rendered.spec.name} (dependencies ${b ? h.show(b.spec?.deps[i]) : 'none'} -> ${h.show(x.rendered.spec.deps[i])}) ran ${ran} times`);
            if (ran) c.ok(e.gen === x.rendered.gen, `effect ${i} of ${x.rendered.spec.name} ran the setup of an earlier render`);
          } else {
            c.ok(ran === 0, `effect ${i} of the unmounted ${x.spec.name} ran`);
            c.ok(e.live === 0, `effect ${i} of the unmounted ${x.spec.name} has not been cleaned up`);
          }
        });
        x.mounted = shown;
        x.committed = shown ? x.rendered.spec : null;
      }
      spec = vary(spec);
      spec.key = undefined;
    }
    committing = true;
    await root.unmount({ flushSync: true }).finished;
    committing = false;
    for (const x of all) x.effects.forEach((e, i) => c.ok(e.live === 0, `effect ${i} of ${x.spec.name} outlives the root`));
  }, { bound: 'trees of depth 3, 6 renders' });

  // Own updates of components, together with updates of the parent.
  await h.cases('own updates', 300, async (c) => {
    const { Runtime, DOMRoot, createComponent, html, createFragment } = c.B;
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    const recs = new Map();
    const X = createComponent(function X({ name, v }) {
      const [s, set] = this.useState(0);
      const inst = this.useMemo(() => ({ name, log: [], live: 0, mounts: 0 }), []);
      inst.set = set;
      recs.set(inst, inst);
      const dep = c.B.velement ? Math.floor(s / 2) : 0;
      this.useEffect(() => { inst.mounts++; if (inst.mounts !== 1) c.fail(`${name} mounted twice`); return () => { inst.mounts--; inst.dead = true; }; }, []);
      this.useEffect(() => {
        if (inst.dead) c.fail(`effect of ${name} after unmounting`);
        if (inst.live !== 0) c.fail(`effect of ${name} without a cleanup in between`);
        inst.live++;
        inst.log.push(`${dep}/${v}`);
        return () => { inst.live--; };
      }, [dep, v]);
      this.useEffect(() => { inst.shown = s; });
      return html`<i>${name}:${s}:${v}</i>`;
    }, c.bool() ? { arePropsEqual: (a, b) => a.name === b.name && a.v === b.v } : {});
    const container = document.createElement('div');
    const root = new DOMRoot(container, rt);
    let list = ['a', 'b', 'c'];
    let v = 0;
    const render = (o) => root.render(createFragment(list.map((n) => X({ name: n, v }).withKey(n))), o).finished.catch((e) => c.async.push(e));
    await render({ flushSync: true });
    for (let i = 0; i < 15; i++) {
      const k = c.int(6);
      const live = [...recs.values()].filter((x) => x.mounts === 1);
      const o = c.pick([{ flushSync: true }, { priority: 'user-blocking' }, { priority: 'background' }, { transition: 1 }]);
      if (k < 3 && live.length) { const x = c.pick(live); c.log('set', x.name, o); x.set((s) => s + 1, o).finished.catch((e) => c.async.push(e)); x.want = (x.want ?? 0) + 1; }
      else if (k === 3) { list = c.shuffle(c.sub(['a', 'b', 'c', 'd'])); v = c.int(2); c.log('list', list, v); const p = render({ priority: 'user-blocking' }); if (c.bool()) { await ad.drain(); await p; } }
      else if (k === 4) ad.run();
      else await h.tick();
      if (c.async.length) throw c.async[0];
    }
    await ad.drain();
    await render({ flushSync: true });
    await ad.drain();
    const live = [...recs.values()].filter((x) => x.mounts === 1);
    c.eq(live.map((x) => x.name).toSorted(), list.toSorted(), 'mounted components');
    for (const x of live) {
      c.eq(x.shown, x.want ?? 0, `state seen by the last effect of ${x.name}`);
      c.eq(x.log.at(-1), `${Math.floor((x.want ?? 0) / 2)}/${v}`, `last setup of ${x.name}`);
      c.eq(x.live, 1, `live setups of ${x.name}`);
    }
    for (const x of recs.values()) if (x.mounts === 0) c.eq(x.live, 0, `effect of the unmounted ${x.name}`);
    await root.unmount({ flushSync: true }).finished;
    for (const x of recs.values()) c.eq([x.live, x.mounts], [0, 0], `effects of ${x.name} after unmounting`);
  }, { bound: '15 steps on up to 4 components' });

  // Rendering without committing runs nothing.
  await h.cases('uncommitted', 100, async (c) => {
    const { Runtime, DOMRoot, createComponent, html } = c.B;
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    let runs = 0, cleanups = 0, boom = false;
    const Bad = createComponent(function Bad() { if (boom) throw new Error('boom'); return 'ok'; });
    const X = createComponent(function X({ n }) {
      this.useEffect(() => { runs++; return () => { cleanups++; }; }, [n]);
      return html`<i>${n}<${Bad({ n })}></i>`;
    });
    const root = new DOMRoot(document.createElement('div'), rt);
    const fails = c.bool();
    let n = 0, want = 0;
    for (let r = 0; r < 5; r++) {
      boom = fails && r > 0 && c.bool();
      n++;
      const hd = root.render(X({ n }), { priority: 'background' });
      let err = null;
      hd.finished.catch((e) => { err = e; });
      ad.q.shift()();
      await h.settle(2);
      c.eq([runs, cleanups], [want, Math.max(0, want - 1)], 'effects run before the commit');
      if (!boom) {
        ad.commits.shift()();
        want++;
      }
      await h.settle(2);
      c.log('render', n, boom ? 'fails' : '');
      c.eq([runs, cleanups], [want, Math.max(0, want - 1)], 'effects run after the commit');
      c.ok(boom === (err !== null), 'outcome');
      if (boom) { boom = false; break; }
    }
  });
}
