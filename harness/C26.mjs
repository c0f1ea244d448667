// Bounded stand-in for C26.
import { HostAdapter } from './host.mjs';
export default async function (h) {
  await h.cases('identifiers', 300, (c, i) => {
    const { DOMAdapter, Runtime } = c.B;
    const id = new DOMAdapter().getIdentifier();
    c.log(id);
    c.ok(/^[a-z][a-z0-9]{7}$/.test(id), `host identifier ${h.show(id)}`);
    const ad = new DOMAdapter();
    c.eq(ad.getIdentifier(), ad.getIdentifier(), 'identifier of one adapter');
    // every byte value must be mapped into the alphabet
    const real = crypto.getRandomValues;
    const bytes = Array.from({ length: 8 }, () => c.pick([0, 25, 26, 35, 36, 51, 52, 71, 72, 255, 251, c.int(256)]));
    Object.defineProperty(crypto, 'getRandomValues', { value: (a) => { for (let j = 0; j < a.length; j++) a[j] = bytes[j % 8]; return a; }, configurable: true });
    try {
      const x = new DOMAdapter().getIdentifier();
      c.ok(/^[a-z][a-z0-9]{7}$/.test(x), `host identifier ${h.show(x)} for the random bytes ${bytes}`);
    } finally {
      delete crypto.getRandomValues;
      if (crypto.getRandomValues !== real) Object.defineProperty(crypto, 'getRandomValues', { value: real, configurable: true, writable: true });
    }
  });
  await h.cases('counters', 200, async (c) => {
    const { Runtime } = c.B;
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad), rt2 = new Runtime(ad);
    const ids = new Set();
    let lastUpdate = -Infinity, lastTransition = -Infinity;
    const scope = c.B.base.Scope.root({});
    for (let i = 0; i < 40; i++) {
      const k = c.int(5);
      if (k === 0) {
        const x = rt.nextIdentifier();
        c.log('identifier', x);
        c.ok(typeof x === 'string' && x.startsWith(ad.getIdentifier()), `identifier ${x} does not start with the host's`);
        c.ok(!ids.has(x), `identifier ${x} was generated twice`);
        ids.add(x);
      } else if (k === 1) {
        const n = rt.nextTransition();
        c.log('transition', n);
        c.ok(n > lastTransition, `transition ${n} after ${lastTransition}`);
        lastTransition = n;
      } else if (k === 2 || k === 3) {
        const hd = rt.schedule({ scope, pendingLanes: c.pick([-1, 0]), prepare: () => { if (c.bool(5)) throw new Error('x'); return () => {}; } }, c.pick([{}, { flushSync: true }, { priority: 'background' }, { transition: Math.max(0, lastTransition) }, { delay: 3 }]));
        hd.finished.catch(() => {});
        c.log('update', hd.id);
        c.ok(hd.id > lastUpdate, `update ${hd.id} after ${lastUpdate}`);
        lastUpdate = hd.id;
      } else {
        ad.run();
        if (c.bool()) await h.tick();
      }
    }
  });
  await h.cases('hooks', 60, async (c) => {
    const { Runtime, DOMRoot, createComponent, html, createFragment } = c.B;
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    const root = new DOMRoot(document.createElement('div'), rt);
    const ids = new Map();
    let last = -1;
    const X = createComponent(function X({ name, n }) {
      for (let i = 0; i < n; i++) {
        const id = this.useId();
        const key = `${name}/${i}`;
        c.ok(id.startsWith(ad.getIdentifier()), 'id does not start with the identifier of the host');
        if (ids.has(key)) c.eq(id, ids.get(key), `id of ${key} changed`);
        else {
          c.ok(![...ids.values()].includes(id), `id ${id} was generated twice`);
          ids.set(key, id);
        }
      }
      const t = this.startTransition((t) => t);
      c.ok(t > last, `transition ${t} after ${last}`);
      last = t;
      return html`<i>${name}</i>`;
    });
    let live = [];
    let k = 0;
    for (let r = 0; r < 5; r++) {
      live = c.sub(live);
      for (let j = c.int(4); j > 0; j--) live.push({ name: `n${k++}`, n: c.int(3) });
      c.log(live);
      await root.render(createFragment(c.shuffle(live).map((p) => X(p).withKey(p.name))), { flushSync: true }).finished;
    }
  });
}
