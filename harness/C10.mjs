// Bounded stand-in for C10: provide and inject in component trees.
import { HostAdapter } from './host.mjs';
export default async function (h) {
  await h.cases('trees', 600, async (c) => {
    const { Runtime, DOMRoot, createComponent, html, createFragment } = c.B;
    class A {}
    class A1 extends A {}
    class A2 extends A1 { static getDefault() { return DEF; } }
    class D { static getDefault() { return DEF; } }
    class U { static getDefault() { return undefined; } }
    class N {}
    const DEF = { def: 1 };
    const CLASSES = [A, A1, A2, D, N, U];
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    const root = new DOMRoot(document.createElement('div'), rt);
    const provided = new Map(); // id -> instances of the latest render
    const setters = new Map();
    let checks = 0;
    const X = createComponent(function Tree({ spec, chain, up }) {
      const [, set] = this.useState(0);
      setters.set(spec.id, { set, spec, chain });
      const mine = [];
      provided.set(spec.id, mine);
      const self = { list: mine, next: up };
      const lookup = (K) => {
        // `up` links to what the ancestors provided when they last rendered
        // this component (a memoized one may be skipped).
        for (let { list, next } = self; ; { list, next } = next) {
          for (let i = list.length - 1; i >= 0; i--) if (list[i] instanceof K) return list[i];
          if (next === null) break;
        }
        return 'getDefault' in K ? K.getDefault() : MISSING;
      };
      const check = (K) => {
        checks++;
        const want = lookup(K);
        let got;
        try { got = this.inject(K); } catch (e) { if (!(e instanceof ReferenceError)) throw e; got = MISSING; }
        c.ok(got === want, `injecting ${K.name} into ${spec.id} below ${chain}: got ${tell(got)}, expected ${tell(want)}`);
      };
      for (const op of spec.ops) {
        if (op.p) { const o = new op.p(); this.provide(o); mine.push(o); o.from = spec.id; } else check(op.i);
      }
      for (const K of CLASSES) check(K);
      return html`<i><${createFragment(spec.kids.map((k) => X({ spec: k, chain: [spec.id, ...chain], up: self }).withKey(k.id)))}></i>`;
    }, c.bool() ? { arePropsEqual: (a, b) => a.spec === b.spec } : {});
    const MISSING = { missing: 1 };
    const tell = (x) => (x === MISSING ? 'a reference error' : x === DEF ? 'the default' : x === undefined ? 'undefined' : `${x.constructor.name} of ${x.from}`);
    let uid = 0;
    const mk = (d) => ({ id: `n${uid++}`, ops: Array.from({ length: c.int(4) }, () => (c.bool() ? { p: c.pick(CLASSES) } : { i: c.pick(CLASSES) })), kids: d > 0 ? Array.from({ length: c.int(3) }, () => mk(d - 1)) : [] });
    let spec = mk(3);
    c.log(JSON.stringify(spec, (k, v) => (typeof v === 'function' ? v.name : v)));
    await root.render(X({ spec, chain: [], up: null }), { flushSync: true }).finished;
    for (let r = 0; r < 4; r++) {
      if (c.bool()) {
        // A component of its own: its whole subtree sees the latest instances.
        const s = c.pick([...setters.values()].filter((s) => provided.has(s.spec.id)));
        c.log('update', s.spec.id);
        await s.set((x) => x + 1, { flushSync: true }).finished;
      } else {
        const re = (s) => ({ ...s, ops: c.bool(3) ? Array.from({ length: c.int(4) }, () => (c.bool() ? { p: c.pick(CLASSES) } : { i: c.pick(CLASSES) })) : s.ops, kids: c.shuffle(s.kids.map(re)) });
        spec = re(spec);
        setters.clear();
        c.log('render', JSON.stringify(spec, (k, v) => (typeof v === 'function' ? v.name : v)));
        await root.render(X({ spec, chain: [], up: null }), { flushSync: true }).finished;
      }
    }
  }, { bound: 'trees of depth 4, 5 renders' });
}
