// Assumed contracts on the host: promises and scheduling facilities. Ghosts:
//   promiseOf[f]   the promise resolved by calling the function f
//   resolved[p]    p has been resolved
//   scheduled[f]   how often f has been handed to a host facility that calls it
//                  exactly once, later
//   thenOf[q], cbOf[q]   q is the promise of p.then(cb)
export const hostGhosts = {
  promiseOf: '(Array Int Int)', resolverOf: '(Array Int Int)', resolved: '(Array Int Bool)', scheduled: '(Array Int Int)', thenOf: '(Array Int Int)', cbOf: '(Array Int Int)', cancelled: '(Array Int Bool)',
};
const once = (what, extra = {}) => ({
  assumed: `${what} calls its function exactly once, later, unless cancelled`,
  params: ['f', 'arg'], paramTypes: { f: 'Ref!' }, returns: 'Ref!', freshResult: true,
  modifies: ['$scheduled'],
  ensures: { a: '$scheduled === store(old($scheduled), f, old($scheduled[f]) + 1)' },
  ...extra,
});
export const hostContracts = {
  'new Promise': {
    assumed: 'the Promise constructor calls its executor at once with a function that resolves the promise',
    params: ['executor'],
    hook: (v, { args, st, cx, n }) => {
      const p = v.alloc(st, 'promise', 'Promise');
      st.assume(`(not (isFn ${p}))`);
      const f = v.alloc(st, 'resolve');
      st.assume(`(isFn ${f})`);
      const set = (g, k, x) => {
        const h = v.heap(st, `g:${g}`);
        v.hset(st, `g:${g}`, v.newConst(g, v.keySort(`g:${g}`), `(store ${h.name} ${k} ${x})`));
        v.onWrite?.(`g:${g}`, 'ghost', st);
      };
      set('promiseOf', f, p);
      set('resolverOf', p, f);
      set('resolved', p, 'false');
      set('scheduled', f, '0');
      const fn = { s: 'Ref', t: f, h: { k: 'fn' }, nn: true };
      const self = { s: 'Ref', t: p, h: { k: 'class', name: 'Promise' }, nn: true };
      return v.callValue(args[0], [fn], st, cx, n).map((o) => (o.k === 'val' ? { ...o, v: self } : o));
    },
  },
  '*.then': {
    assumed: 'p.then(f) calls f exactly once when p is resolved, never synchronously, and settles with its outcome',
    params: ['f'], paramTypes: { f: 'Ref!' }, returns: 'Ref!', freshResult: true,
    modifies: ['$thenOf', '$cbOf'],
    ensures: { a: '$thenOf === store(old($thenOf), result, this) && $cbOf === store(old($cbOf), result, f)' },
  },
  'ext setTimeout': once('setTimeout', { defers: 'timer' }),
  'ext requestIdleCallback': once('requestIdleCallback', { defers: 'idle' }),
  'ext requestAnimationFrame': { ...once('requestAnimationFrame', { defers: 'frame' }), assumed: 'requestAnimationFrame calls its function at most once, later' },
  'ext queueMicrotask': once('queueMicrotask', { defers: 'microtask', returns: 'Val', freshResult: undefined, allocates: true }),
  'ext clearTimeout': { assumed: 'clearTimeout cancels the timer', params: ['h'], paramTypes: { h: 'Ref' }, modifies: ['$cancelled'], ensures: { a: '$cancelled === store(old($cancelled), h, true)' } },
  'ext cancelAnimationFrame': { assumed: 'cancelAnimationFrame cancels the frame', params: ['h'], paramTypes: { h: 'Ref' }, modifies: ['$cancelled'], ensures: { a: '$cancelled === store(old($cancelled), h, true)' } },
};
// Calling a function that resolves a promise.
export const resolveCall = {
  argNames: ['$v'], requires: { 'a function that resolves a promise': '$promiseOf[callee] !== 0' },
  modifies: ['$resolved'], ensures: { a: '$resolved === store(old($resolved), $promiseOf[callee], true)' }, returns: 'Val',
};
