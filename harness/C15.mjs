// Bounded stand-in for C15: sequences of values in element holes.
import { HostAdapter } from './host.mjs';
let serial = 0;
export default async function (h) {
  await h.cases('holes', 600, async (c) => {
    const { Runtime, DOMRoot, html, createComponent, createFragment } = c.B;
    const host = document.createElement('div');
    const root = new DOMRoot(host, new Runtime(new HostAdapter(c)));
    const log = [];
    const fn = () => {
      const id = serial++;
      const cleanup = c.bool(3) ? undefined : () => { log.push(`-${id}`); };
      return { id, cleanup: cleanup !== undefined, value: (e) => { log.push(`+${id}`); els.set(id, e); return cleanup; } };
    };
    const els = new Map();
    const next = (old) => (c.bool(4) ? null : c.bool(3) ? old : fn());
    const Row = createComponent(function Row({ f, k }) { return html`<i id=${k} ${f}></i>`; });
    let first = null;
    const rows = new Map();
    const set = (f) => (f ? f.value : c.pick([null, undefined]));
    for (let i = 2 + c.int(6); i > 0; i--) {
      log.length = 0;
      const want = []; // pairs of what has to happen, per hole
      const n = next(first);
      want.push([first, n]);
      const keys = c.shuffle(['a', 'b', 'c']).slice(0, c.int(4));
      const after = new Map();
      for (const k of keys) after.set(k, next(rows.get(k) ?? null));
      for (const k of new Set([...rows.keys(), ...after.keys()])) want.push([rows.get(k) ?? null, after.get(k) ?? null, k]);
      const moved = want.filter(([a, b]) => a !== b);
      c.log(want.map(([a, b]) => [a?.id, b?.id]));
      await root.render(html`<p ${set(n)}></p><${createFragment([...after].map(([k, f]) => Row({ f: set(f), k }).withKey(k)))}>`, { flushSync: true }).finished;
      const expected = [];
      for (const [a, b] of moved) {
        if (a?.cleanup) expected.push(`-${a.id}`);
        if (b) expected.push(`+${b.id}`);
        if (a?.cleanup && b) c.ok(log.indexOf(`-${a.id}`) < log.indexOf(`+${b.id}`), `the cleanup of ${a.id} runs after the next function: ${log}`);
      }
      c.eq(log.slice().sort(), expected.sort(), 'the calls');
      for (const [, b, k] of moved) if (b) c.ok(els.get(b.id) === host.querySelector(k ? `#${k}` : 'p'), 'the function is called with another element');
      first = n;
      rows.clear();
      for (const [k, f] of after) rows.set(k, f);
    }
    log.length = 0;
    await root.unmount({ flushSync: true }).finished;
    c.eq(log.slice().sort(), [first, ...rows.values()].filter((f) => f?.cleanup).map((f) => `-${f.id}`).sort(), 'the cleanups when unmounting');
  }, { bound: 'up to 4 holes, 7 renders' });

  await h.cases('parts', 200, async (c) => {
    const e = document.createElement('p');
    const p = new c.B.domPart.ElementPart(e);
    const log = [];
    const mk = () => { const id = serial++; const f = (x) => { log.push(x === e ? `+${id}` : 'wrong'); return c.bool(3) ? undefined : () => { log.push(`-${id}`); }; }; f.id = id; return f; };
    let prev = null;
    let open = null;
    const pool = [null, undefined];
    for (let i = 2 + c.int(8), first = true; i > 0; i--, first = false) {
      let v = c.bool(3) ? c.pick(pool) : mk();
      pool.push(v);
      log.length = 0;
      const g = v;
      let cl;
      const w = v && Object.assign((x) => { const r = v(x); cl = r; return r; }, { id: v.id });
      const value = first || v !== prev?.raw ? w && Object.assign(w, { raw: v }) : prev;
      const same = !first && (value ?? null) === (prev ?? null) && value === prev;
      c.log(value?.id, same ? 'same' : '');
      if (first) p.commitMount(value ?? g); else p.commitUpdate(prev, value ?? g);
      const want = [];
      if (!same) { if (open) want.push(open); if (value) want.push(`+${value.id}`); open = value && cl ? `-${value.id}` : null; }
      c.eq(log, want, 'the calls');
      prev = value ?? g;
    }
    log.length = 0;
    p.commitUnmount(prev, c.bool());
    c.eq(log, open ? [open] : [], 'the cleanup');
    p.commitUnmount(prev, c.bool());
    c.eq(log, open ? [open] : [], 'the cleanup a second time');
  }, { bound: 'up to 9 values' });

  await h.cases('refs', 300, async (c) => {
    const { Runtime, DOMRoot, html, createComponent } = c.B;
    const host = document.createElement('div');
    const root = new DOMRoot(host, new Runtime(new HostAdapter(c)));
    let ref;
    const X = createComponent(function X({ on, tag }) {
      ref = this.useRef(null);
      return on ? (tag ? html`<p ${ref}></p>` : html`<b ${ref}></b>`) : html`<i ${c.B.createBind(null)}></i>`;
    });
    let stable, own = null;
    for (let i = 2 + c.int(6); i > 0; i--) {
      const on = c.bool(3) ? false : true, tag = c.bool();
      c.log(on, tag, own !== null);
      await root.render(X({ on, tag }), { flushSync: true }).finished;
      c.ok(stable === undefined || stable === ref, 'the ref changes its identity');
      stable = ref;
      const e = on ? host.querySelector('p, b') : null;
      if (on) own = null; // it is set up again by every render
      c.ok(ref.current === (own ?? e), () => `the ref holds ${h.show(ref.current)} instead of ${h.show(own ?? e)}`);
      if (c.bool(5)) { own = { own: 1 }; ref.current = own; c.log('assigned'); }
    }
    await root.unmount({ flushSync: true }).finished;
    c.ok(ref.current === own, `the ref holds ${h.show(ref.current)} after unmounting`);
  }, { bound: 'up to 7 renders of three templates' });

  await h.cases('rejected', 20, async (c) => {
    const e = document.createElement('p');
    for (const v of [0, 'a', {}, true, { current: null }]) {
      const p = new c.B.domPart.ElementPart(e);
      c.throws(() => p.commitMount(v), `the element value ${h.show(v)}`);
    }
  }, { fixed: true, bound: '5 values' });
}
