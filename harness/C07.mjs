// Bounded stand-in for C07.
import { HostAdapter, norm } from './host.mjs';
export default async function (h) {
  const BITS = [1, 2, 4, 8, 16, 32, 64, 1 << 29, 1 << 30];
  // The hook alone, rendered with arbitrary lanes.
  await h.cases('renders', 1200, (c) => {
    const { createComponent } = c.B;
    const scope = c.B.base.Scope.root({});
    let scheduled = 0, nextLanes = 4;
    const dispatcher = { nextIdentifier: () => 'x', nextTransition: () => 0, schedule: (t, o) => { scheduled++; return { id: scheduled, lanes: nextLanes, finished: Promise.resolve() }; } };
    const kind = c.int(4);
    const reducers = [(s, a) => s + '|' + a, (s, a) => (a % 3 === 0 ? s : (s * 7 + a) % 1009), (s, a) => (a % 4 === 0 ? undefined : a % 4 === 1 ? null : a), (s, a) => Math.max(s ?? 0, a % 5)];
    const inits = ['', 1, undefined, 0];
    const reducer = reducers[kind];
    const lazy = c.bool();
    let api = null;
    const dispatches = new Set();
    let inits_ = 0;
    const init = lazy ? () => { inits_++; return inits[kind]; } : inits[kind];
    const useState = c.bool(3) && kind !== 2;
    const C = createComponent(function C() {
      api = useState ? this.useState(init) : this.useReducer(reducer, init);
      dispatches.add(api[1]);
    });
    const inst = C.createInstance(dispatcher);
    inst.render({}, scope, 1);
    // model
    let applied = []; // actions in dispatch order: {a, lanes, done}
    let state = inits[kind];
    const fold = (as) => as.reduce((s, x) => reducer(s, x.a), inits[kind]);
    const n = 5 + c.int(25);
    c.log('reducer', kind, 'useState', useState);
    c.ok(Object.is(api[0], state), `initial state ${h.show(api[0])}`);
    for (let i = 0; i < n; i++) {
      if (c.int(5) < 3) {
        const a = c.int(12);
        nextLanes = c.pick([c.pick(BITS), c.pick(BITS) | c.pick(BITS)]);
        const before = scheduled;
        const quiet = applied.every((x) => x.done);
        const eq = c.bool(6) ? (x, y) => typeof x === typeof y : undefined;
        const hd = api[1](useState ? (s) => reducer(s, a) : a, eq ? { areStatesEqual: eq } : c.bool() ? {} : undefined);
        const unchanged = quiet && (eq ?? Object.is)(reducer(state, a), state);
        c.log('dispatch', a, 'lanes', nextLanes, unchanged ? 'unchanged' : '');
        if (unchanged) {
          c.ok(scheduled === before && hd.lanes === 0, 'a dispatch that changes nothing causes a render');
        } else {
          c.ok(scheduled === before + 1, `a dispatch scheduled ${scheduled - before} updates`);
          applied.push({ a, lanes: nextLanes, done: false });
        }
      } else {
        const lanes = c.pick([-1, c.pick(BITS), c.pick(BITS) | c.pick(BITS), c.pick(BITS) | c.pick(BITS) | c.pick(BITS), ...applied.filter((x) => !x.done).map((x) => x.lanes)]);
        for (const x of applied) if ((x.lanes & lanes) === x.lanes) x.done = true;
        state = fold(applied.filter((x) => x.done));
        inst.render({}, scope, lanes);
        c.log('render', lanes, api[0]);
        c.ok(Object.is(api[0], state), `state after a render with lanes ${lanes}: got ${h.show(api[0])}, expected ${h.show(state)}`);
      }
    }
    inst.render({}, scope, -1);
    const want = fold(applied);
    c.ok(Object.is(api[0], want), `final state: got ${h.show(api[0])}, expected ${h.show(want)}`);
    c.ok(dispatches.size === 1, 'the dispatch function changed its identity');
    if (lazy) c.ok(inits_ === 1, `the initial state was computed ${inits_} times`);
  }, { bound: 'up to 30 steps' });

  // Whole components in a runtime: the displayed state at quiescence.
  await h.cases('components', 250, async (c) => {
    const { Runtime, DOMRoot, createComponent, html, createFragment } = c.B;
    const ad = new HostAdapter(c, { priority: () => c.pick(['background', 'user-visible', 'user-blocking']) });
    const rt = new Runtime(ad);
    const cells = new Map();
    const kinds = c.int(2);
    const mk = (opts) => createComponent(function S({ name, kids }) {
      const [a, setA] = this.useState(0);
      const [b, dispB] = this.useReducer((s, x) => (s * x.m + x.k) % 997, 1);
      if (!cells.has(name)) cells.set(name, { a: 0, b: 1, setA, dispB });
      const m = cells.get(name);
      if (m.setA !== setA || m.dispB !== dispB) c.fail(`the dispatch function of ${name} changed`);
      return html`<i id=${name}>${a}:${b}<${createFragment(kids.map((k) => (k.memo ? M : S_)(k).withKey(k.name)))}></i>`;
    }, opts);
    const S_ = mk({});
    const M = mk({ arePropsEqual: (x, y) => x.name === y.name });
    const tree = (name, d) => ({ name, memo: c.bool(), kids: d > 0 ? Array.from({ length: 1 + c.int(2) }, (_, i) => tree(name + i, d - 1)) : [] });
    const t = tree('r', 2);
    const container = document.createElement('div');
    const root = new DOMRoot(container, rt);
    const el = () => html`<main><${S_(t)}></main>`;
    await root.render(el(), { flushSync: true }).finished;
    const names = [...cells.keys()];
    for (let i = 0; i < 30; i++) {
      const k = c.int(10);
      if (k < 5) {
        const name = c.pick(names), m = cells.get(name);
        const o = c.pick([{ priority: 'user-blocking' }, { priority: 'user-visible' }, { priority: 'background' }, { flushSync: true }, {}, { transition: c.int(3), priority: 'background' }, { transition: c.int(3) }, { priority: 'user-blocking', transition: c.int(2) }, { delay: 5 }, { handler: (cb) => { cb(); } }]);
        let hd;
        if (c.bool()) {
          const mm = c.int(4) + 1, kk = c.int(50);
          hd = m.setA(((mm, kk) => (s) => (s * mm + kk) % 997)(mm, kk), o);
          m.a = (m.a * mm + kk) % 997;
          c.log('set', name, mm, kk, { ...o, handler: !!o.handler });
        } else {
          const x = { m: c.int(4) + 1, k: c.int(50) };
          hd = m.dispB(x, o);
          m.b = (m.b * x.m + x.k) % 997;
          c.log('dispatch', name, x, { ...o, handler: !!o.handler });
        }
        hd.finished.catch((e) => c.async.push(e));
      } else if (k < 6) { c.log('root'); root.render(el(), { priority: c.pick(['user-blocking', 'background']) }).finished.catch((e) => c.async.push(e)); }
      else if (k < 8) { c.log('host'); ad.run(); }
      else await h.tick();
    }
    await ad.drain();
    for (const [name, m] of cells) {
      const node = [...container.querySelectorAll('i')].find((x) => x.id === name);
      c.eq([...node.childNodes].filter((x) => x.nodeType === 3).map((x) => x.data).join(''), `${m.a}:${m.b}`, `displayed state of ${name}`);
    }
  }, { bound: 'trees of depth 2, 30 steps' });
}
