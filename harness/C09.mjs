// Bounded stand-in for C09: hook slots of a component rendered directly.
import { HostAdapter } from './host.mjs';
export default async function (h) {
  const DEPS = [[], [1], [2], [1, 2], [NaN], [0], [-0], ['1'], [undefined], [null], [1, undefined]];
  const changed = (a, b) => a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]));
  await h.cases('slots', 1000, (c) => {
    const { createComponent, Ref } = c.B;
    const scope = c.B.base.Scope.root({});
    let next = 0;
    const dispatcher = { nextIdentifier: () => `id${next++}`, nextTransition: () => 0, schedule: () => ({ id: 0, lanes: 4, finished: Promise.resolve() }) };
    const KINDS = ['memo', 'callback', 'ref', 'id', 'state', 'effect'];
    const kinds = Array.from({ length: c.int(6) }, () => c.pick(KINDS));
    let plan = null;
    const C = createComponent(function C() {
      return plan(this);
    });
    const inst = C.createInstance(dispatcher);
    const slots = kinds.map(() => ({}));
    c.log(kinds);
    const broken = c.bool(3) && kinds.length > 0;
    const renders = 2 + c.int(4);
    for (let r = 0; r < renders; r++) {
      let seq = kinds;
      let bad = false;
      if (broken && r === renders - 1) {
        const how = c.int(3);
        if (how === 0) seq = kinds.slice(0, c.int(kinds.length));
        else if (how === 1) seq = [...kinds, c.pick(KINDS)];
        else {
          const at = c.int(kinds.length);
          const cls = (k) => (k === 'memo' || k === 'callback' || k === 'ref' ? 'memo' : k);
          seq = kinds.map((k, i) => (i === at ? c.pick(KINDS.filter((x) => cls(x) !== cls(k))) : k));
        }
        bad = true;
      }
      c.log('render', seq);
      const go = () => inst.render({}, scope, -1);
      plan = (ctx) => {
        seq.forEach((k, i) => {
          const s = slots[i] ?? {};
          const first = r === 0;
          const deps = c.bool(3) && s.deps ? [...s.deps] : c.pick(DEPS);
          switch (k) {
            case 'memo': {
              let runs = 0;
              const fresh = c.pick([{}, undefined, null, 0]);
              const v = ctx.useMemo(() => { runs++; return fresh; }, deps);
              if (bad) break;
              const must = first || changed(s.deps, deps);
              c.eq(runs, must ? 1 : 0, `computations of memo ${i} for dependencies ${h.show(s.deps)} -> ${h.show(deps)}`);
              c.ok(v === (must ? fresh : s.v), `value of memo ${i}`);
              s.v = v;
              s.deps = deps;
              break;
            }
            case 'callback': {
              const f = () => {};
              const v = ctx.useCallback(f, deps);
              if (bad) break;
              c.ok(v === (first || changed(s.deps, deps) ? f : s.v), `callback ${i} for dependencies ${h.show(s.deps)} -> ${h.show(deps)}`);
              s.v = v;
              s.deps = deps;
              break;
            }
            case 'ref': {
              const init = c.int(100);
              const v = ctx.useRef(init);
              if (bad) break;
              c.ok(v instanceof Ref, 'no ref');
              if (first) c.eq(v.current, init, 'initial value of the ref');
              else { c.ok(v === s.v, 'the ref changed its identity'); c.eq(v.current, s.cur, 'value of the ref'); }
              v.current = s.cur = c.int(100);
              s.v = v;
              break;
            }
            case 'id': {
              const v = ctx.useId();
              if (bad) break;
              if (first) { c.ok(slots.every((x) => x.v !== v), 'id used twice'); s.v = v; } else c.eq(v, s.v, 'id');
              break;
            }
            case 'state': {
              const [v, set] = ctx.useState(first ? (s.v = { i }) : { other: 1 });
              if (bad) break;
              c.ok(v === s.v, 'state of another slot');
              if (first) s.set = set;
              c.ok(set === s.set, 'setter of another slot');
              break;
            }
            case 'effect':
              ctx.useEffect(() => {}, deps);
              break;
          }
        });
        return null;
      };
      if (bad) {
        const e = c.throws(go, `a render with the hooks ${seq} instead of ${kinds} is accepted`);
        c.ok(e instanceof Error, 'no error');
      } else go();
    }
  }, { bound: 'up to 6 hooks, 6 renders' });

  // In a runtime: a broken render is rejected through the update's promise.
  await h.cases('rejection', 60, async (c) => {
    const { Runtime, DOMRoot, createComponent } = c.B;
    const ad = new HostAdapter(c);
    const root = new DOMRoot(document.createElement('div'), new Runtime(ad));
    const seqs = [['useId'], ['useRef'], ['useId', 'useRef'], ['useRef', 'useId'], ['useState'], []];
    const a = c.pick(seqs), b = c.pick(seqs);
    let seq = a;
    const X = createComponent(function X() { for (const k of seq) this[k](1); return 'x'; });
    await root.render(X({}), { flushSync: true }).finished;
    seq = b;
    c.log(a, b);
    let err = null;
    await root.render(X({}), { flushSync: true }).finished.catch((e) => { err = e; });
    c.ok((err !== null) === (a !== b), `a render with the hooks ${b} after ${a} was ${err ? 'rejected' : 'accepted'}`);
  });
}
