import { UNDEF } from '../tool/engine.mjs';
import { flushSorts, flushGhosts, flushDecls, flushAxioms, flushSpecFns, ri, rely, relyRendered, relyGhosts, queueContracts, prefix } from './lib-runtime.mjs';
const opts = {
  fieldSorts: flushSorts, ghosts: flushGhosts, decls: flushDecls, axioms: flushAxioms, specFns: { ...flushSpecFns, idxAt: { smt: 'idxOf', args: [null, 'Int', 'Ref'], ret: 'Int' }, isInt: { smt: '(_ is VInt)', args: ['Val'], ret: 'Bool' } },
  onObject: (v, o, names, st) => {
    if (names.length === 0) for (const f of ['handler', 'priority', 'transition', 'delay', 'flushSync']) v.writeField(o, f, UNDEF, st, {}, null);
  },
};
export const orderContracts = {
  compareLevels: {
    requires: { a: 'isPtr(update1.transaction) && isPtr(update1.transaction.scope) && isPtr(update2.transaction) && isPtr(update2.transaction.scope)' },
    returns: 'Int',
    ensures: { 'compares the depths': 'result === lvl(update1) - lvl(update2)' },
  },
  compareUpdates: {
    requires: { a: 'isPtr(update1.transaction) && isPtr(update1.transaction.scope) && isPtr(update2.transaction) && isPtr(update2.transaction.scope)' },
    returns: 'Int',
    ensures: {
      'negative exactly when the first comes before': 'iff(result < 0, prec(update1, update2))',
      'positive exactly when the second comes before': 'iff(result > 0, prec(update2, update1))',
    },
  },
};
export const hostLite = {
  '*.getTaskPriority': { assumed: 'returns one of the three priorities', returns: 'Val', ensures: { a: "asVal(result) === asVal('user-blocking') || asVal(result) === asVal('user-visible') || asVal(result) === asVal('background')" } },
  'ext Promise.withResolvers': { assumed: 'a new promise with its resolvers', returns: 'Controller', freshResult: true, fresh: ['promise'], allocates: true, ensures: { a: 'isPtr(result.promise)' } },
  '*.requestCallback': { assumed: 'runs the callback exactly once, later (C28 for DOMAdapter)', params: ['f', 'o'], paramTypes: { f: 'Ref!' }, returns: 'Ref!', allocates: true, modifies: ['$handed'], ensures: { a: '$handed === old($handed) + 1' }, defers: 'callback' },
  'ext queueMicrotask': { assumed: 'runs the callback exactly once, later', params: ['f'], paramTypes: { f: 'Ref!' }, returns: 'Val', allocates: true, modifies: ['$handed'], ensures: { a: '$handed === old($handed) + 1' }, defers: 'callback' },
};

const B = 'this._updateBatch';
const D = 'deferredUpdates';
const during = ri(`member(${B}, u)`);
const wfBatch = {
  'the batch is an array': `isPtr(${B}) && allocated(${B}) && isArr(${B})`,
  'batched updates are requested, unsettled and out of the queue': `forall((k: Int) => implies(0 <= k && k < ${B}.length, isPtr(${B}[k]) && $known[${B}[k]] && $open[${B}[k]] && !$bag[${B}[k]]), [${B}[k]])`,
  'batched updates differ': `forall((a: Int, b: Int) => implies(0 <= a && a < b && b < ${B}.length, asRef(${B}[a]) !== asRef(${B}[b])), [[${B}[a], ${B}[b]]])`,
};
// A step in which other code runs: staging is possible only while waiting.
const step = (waiting) => ({
  modifies: waiting ? ['this._stagedLanes', ...relyGhosts] : relyGhosts,
  fresh: ['id', 'lanes', 'handler', 'controller', 'transaction', 'promise', 'scope', 'level', 'len', 'elems:Ref'],
  allocates: true,
  ensures: { ...rely, ...relyRendered, ...during },
});
const awaitHook = (v, s, value, cx, n) => {
  const spec = step(true);
  const sc = { ...cx, spec: true, env: undefined, old: s.clone() };
  v.oblige(s, 'await: the flush is marked as running', v.specBool('this._flushLanes !== bits(0)', s, sc), 'assertion');
  for (const [nm, e] of Object.entries({ ...during })) v.oblige(s, `await: ${nm}`, v.specBool(e, s, sc), 'assertion');
  v.havocModifies(spec, s, sc);
  for (const e of Object.values(spec.ensures)) s.assume(v.specBool(e, s, sc));
  const t = s.clone();
  return [{ k: 'val', st: s, v: UNDEF }, { k: 'throw', st: t, v: v.freshVal('err', { s: 'Val' }, t) }];
};
const setGhost = (v, st, g, x) => {
  const h = v.heap(st, `g:${g}`);
  v.hset(st, `g:${g}`, typeof x === 'string' ? x : x(h.name));
  v.onWrite?.(`g:${g}`, 'ghost', st);
};
// A host facility that runs the commit it is given exactly once.
const commitVia = (mode) => ({ args, st, cx, n }, v) => {
  setGhost(v, st, 'commitMode', mode);
  return v.callValue(args[0], [], st, cx, n).map((o) => (o.k === 'val' ? { ...o, v: v.freshVal('res', { s: 'Ref', nn: true }, o.st) } : o));
};
const preps = {
  'the commit functions are the prepared ones': `commitBatch.length >= 0 && isPtr(commitBatch) && allocated(commitBatch) && isArr(commitBatch) && forall((k: Int) => implies(0 <= k && k < commitBatch.length, isPtr(commitBatch[k]) && isFn(commitBatch[k]) && asRef($prepOf[commitBatch[k]]) === asRef(${B})), [commitBatch[k]])`,
};
preps['the commit functions differ'] = `forall((a: Int, b: Int) => implies(0 <= a && a < b && b < commitBatch.length, asRef(commitBatch[a]) !== asRef(commitBatch[b])), [[commitBatch[a], commitBatch[b]]])`;
const prepared = `forall((f: Ref) => implies(asRef($prepOf[f]) === asRef(${B}), inArr(elems(commitBatch), commitBatch.length, f)), [$prepOf[f]])`;
const idle = {
  'no flush is running': `this._flushLanes === bits(0) && ${B}.length === 0 && isPtr(${B}) && allocated(${B}) && isArr(${B})`,
  'nothing is prepared or committed for the empty batch': `allocated(typed($committed, 'Ref')) && typed($committed, 'Ref') !== asRef(${B}) && forall((f: Ref) => asRef($prepOf[f]) !== asRef(${B}) && allocated(asRef($prepOf[f])), [$prepOf[f]])`,
};
export const runPipelineContract = {
  params: ['update', 'middlewares', 'flushLanes', 'renderer'],
  paramTypes: { update: 'Update', renderer: 'Runtime' },
  returns: 'Ref!', throws: true,
  assumed: 'calls prepare of the transaction of the update exactly once unless a middleware intervenes (C23)',
  requires: {
    'an update of the running batch': '$known[update] && !$bag[update] && inArr(elems(renderer._updateBatch), renderer._updateBatch.length, update)',
    'the update has not been rendered': '$rendered[update] === 0',
    'nothing of the batch has been committed': "typed($committed, 'Ref') !== asRef(renderer._updateBatch)",
    'the lanes of the batch are passed': 'flushLanes === renderer._flushLanes && sub(update.lanes, flushLanes)',
  },
};
const settle = (what) => ({
  assumed: `${what} settles the promise of the controller`, params: ['value'], returns: 'Val', modifies: ['$open'],
  requires: { 'the promise is unsettled': "$open[typed($updOf[this], 'Ref')] && typed($updOf[this], 'Update').controller === asRef(this)" },
  ensures: { a: "$open === store(old($open), typed($updOf[this], 'Ref'), false)" },
});
export const sortedContract = {
  'Array.toSorted': {
    assumed: 'Array.prototype.toSorted sorts stably by its comparator',
    params: ['f'],
    hook: (v, { self, args, st, cx, n }) => {
      // The comparator must order by depth.
      const probe = st.clone();
      const a = v.freshVal('cmpa', v.parseType('Update!'), probe);
      const b = v.freshVal('cmpb', v.parseType('Update!'), probe);
      const bound = new Map([['a', a], ['b', b]]);
      const sc = { ...cx, spec: true, env: undefined, bound, old: probe };
      probe.assume(v.specBool('isPtr(a) && isPtr(b) && isPtr(a.transaction) && isPtr(b.transaction) && isPtr(a.transaction.scope) && isPtr(b.transaction.scope)', probe, sc));
      for (const o of v.callValue(args[0], [a, b], probe, cx, n)) {
        bound.set('r', o.v);
        v.oblige(o.st, 'the batch is sorted by depth', v.specBool('iff(r < 0, lvl(a) < lvl(b)) && iff(r > 0, lvl(a) > lvl(b))', o.st, sc), 'assertion');
      }
      const len = v.newConst('slen', 'Int', v.hread(st, 'len', self.t).term);
      const src = v.newConst('ssrc', '(Array Int Int)', v.hread(st, 'el:Ref', self.t).term);
      const dst = v.newConst('sorted', '(Array Int Int)');
      const perm = v.newConst('perm', '(Array Int Int)');
      const inv = v.newConst('pinv', '(Array Int Int)');
      const lv = (t) => v.specEval('lvl(typed(x, "Update"))', st, { ...cx, spec: true, env: undefined, bound: new Map([['x', { s: 'Ref', t }]]) }).t;
      st.assume(`(forall ((i Int)) (! (=> (and (<= 0 i) (< i ${len})) (and (<= 0 (select ${perm} i)) (< (select ${perm} i) ${len}) (= (select ${dst} i) (select ${src} (select ${perm} i))) (= (select ${inv} (select ${perm} i)) i))) :pattern ((select ${dst} i)) :pattern ((select ${perm} i))))`);
      st.assume(`(forall ((i Int)) (! (=> (and (<= 0 i) (< i ${len})) (and (<= 0 (select ${inv} i)) (< (select ${inv} i) ${len}) (= (select ${dst} (select ${inv} i)) (select ${src} i)))) :pattern ((select ${src} i))))`);
      st.assume(`(forall ((i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j ${len})) (and (<= ${lv(`(select ${dst} i)`)} ${lv(`(select ${dst} j)`)}) (=> (= ${lv(`(select ${dst} i)`)} ${lv(`(select ${dst} j)`)}) (< (select ${perm} i) (select ${perm} j))))) :pattern ((select ${dst} i) (select ${dst} j))))`);
      const r = v.newArray(st, self.h.el, len, dst, 'sortedArr');
      return [{ k: 'val', st, v: r }];
    },
  },
};
const flushSpecOf = (order) => ({
  returns: 'Val',
  requires: { ...idle, ...ri() },
  modifies: ['this._stagedLanes', 'this._flushLanes', 'this._updateBatch', 'this._pendingLanes', 'this._updateCount', '*elems:Ref', '$known', '$bag', '$open', '$rendered', '$updOf', '$txLanes', '$committed', '$prepOf', '$ran', '$handed', '$commitMode'],
  allocates: true,
  fresh: ['id', 'lanes', 'handler', 'controller', 'transaction', 'promise', 'scope', 'level'],
  await: awaitHook,
  callbacks: {
    commit: {
      argNames: [], throws: true, returns: 'Val',
      requires: {
        'a commit function prepared for this batch, not yet called': `typed($prepOf[callee], 'Ref') === asRef(${B}) && $ran[callee] === 0`,
        'committed directly only with a sync update': `implies($commitMode === 0, exists((k: Int) => 0 <= k && k < ${B}.length && anyOf(${B}[k].lanes, 1), [${B}[k]]))`,
      },
      ...step(false),
      modifies: [...relyGhosts, '$ran', '$committed'],
      ensures: { ...rely, ...relyRendered, ...during, a: '$ran === store(old($ran), callee, 1)', b: `typed($committed, 'Ref') === asRef(${B})` },
      throwsEnsures: { ...rely, ...relyRendered, ...during, a: '$ran === store(old($ran), callee, 1)', b: `typed($committed, 'Ref') === asRef(${B})` },
    },
    handler: {
      argNames: ['$cb'],
      requires: {
        'no sync update is batched': `forall((k: Int) => implies(0 <= k && k < ${B}.length, !anyOf(${B}[k].lanes, 1)), [${B}[k]])`,
        'the handler of a handler update of the batch': `exists((k: Int) => 0 <= k && k < ${B}.length && anyOf(${B}[k].lanes, 2) && asRef(${B}[k].handler) === asRef(callee), [${B}[k]])`,
      },
      hook: (v, a) => commitVia('2')(a, v),
    },
  },
  loops: [
    { name: 'batches', inv: { ...idle, ...ri() } },
    {
      name: 'batch formation',
      inv: {
        ...prefix('', wfBatch),
        ...ri(`member(${B}, u) || member(${D}, u)`),
        'lanes flushed exactly with a batch': `iff(this._flushLanes === bits(0), ${B}.length === 0) && low(this._flushLanes)`,
        'the flushed lanes are those of the batch': `forall((k: Int) => implies(0 <= k && k < ${B}.length, sub(${B}[k].lanes, this._flushLanes)), [${B}[k]])`,
        'batched updates are not rendered': `forall((k: Int) => implies(0 <= k && k < ${B}.length, $rendered[${B}[k]] === 0), [${B}[k]])`,
        'deferred updates are requested, unsettled and out of the queue': `isPtr(${D}) && allocated(${D}) && isArr(${D}) && asRef(${D}) !== asRef(${B}) && forall((j: Int) => implies(0 <= j && j < ${D}.length, isPtr(${D}[j]) && $known[${D}[j]] && $open[${D}[j]] && !$bag[${D}[j]] && $rendered[${D}[j]] === 0), [${D}[j]])`,
        'deferred updates wait for pending lanes': `forall((j: Int) => implies(0 <= j && j < ${D}.length, sub(${D}[j].lanes, this._pendingLanes)), [${D}[j]])`,
        'deferred updates differ': `forall((a: Int, b: Int) => implies(0 <= a && a < b && b < ${D}.length, asRef(${D}[a]) !== asRef(${D}[b])), [[${D}[a], ${D}[b]]])`,
        'deferred updates are not batched': `forall((a: Int, b: Int) => implies(0 <= a && a < ${B}.length && 0 <= b && b < ${D}.length, asRef(${B}[a]) !== asRef(${D}[b])), [[${B}[a], ${D}[b]]])`,
        'the first update precedes the queue': `implies(${B}.length > 0, forall((v: Update) => implies($bag[v], prec(${B}[0], v)), [$bag[v]]))`,
        'a sync update comes first': `implies(anyOf(this._flushLanes, 1), ${B}.length > 0 && anyOf(${B}[0].lanes, 1))`,
        ...order.formation,
        'a handler update comes last': `implies(anyOf(this._flushLanes, 2), ${B}.length > 0 && anyOf(${B}[${B}.length - 1].lanes, 2))`,
        'nothing is prepared or committed': `allocated(typed($committed, 'Ref')) && typed($committed, 'Ref') !== asRef(${B}) && forall((f: Ref) => asRef($prepOf[f]) !== asRef(${B}) && allocated(asRef($prepOf[f])), [$prepOf[f]])`,
        'at first': `implies($first, ${B}.length === 0 && ${D}.length === 0)`,
        'an empty batch with nothing left': `true`,
      },
    },
    {
      name: 'requeue',
      entry: order.requeue,
      inv: {
        ...wfBatch,
        ...ri(`member(${B}, u) || member(${D}, u)`),
        'requeued so far': `forall((j: Int) => implies(0 <= j && j < ${D}.length, isPtr(${D}[j]) && $known[${D}[j]] && $open[${D}[j]] && (j < $i ? $bag[${D}[j]] : !$bag[${D}[j]]) && $rendered[${D}[j]] === 0), [${D}[j]])`,
        'batched updates are not rendered': `forall((k: Int) => implies(0 <= k && k < ${B}.length, $rendered[${B}[k]] === 0), [${B}[k]])`,
        'empty queue without a batch': `implies(this._flushLanes === bits(0), forall((u: Update) => implies($bag[u], sub(u.lanes, this._pendingLanes)), [$bag[u]]))`,
      },
      dec: '$arr.length - $i',
    },
    {
      name: 'render',
      entry: order.render,
      inv: {
        ...wfBatch, ...during, ...preps, 'every prepared commit is kept': prepared,
        'not rendered yet': 'forall((k: Int) => implies($i <= k && k < $arr.length, $rendered[$arr[k]] === 0), [$arr[k]])',
        'commits have not run': `forall((f: Ref) => implies(asRef($prepOf[f]) === asRef(${B}), $ran[f] === 0), [$ran[f]])`,
        'nothing is committed': `allocated(typed($committed, 'Ref')) && typed($committed, 'Ref') !== asRef(${B})`,
        'prepared batches exist': "forall((f: Ref) => allocated(typed($prepOf[f], 'Ref')), [$prepOf[f]])",
      },
      dec: '$arr.length - $i',
    },
    {
      name: 'commit',
      inv: {
        ...wfBatch, ...during,
        'commits so far': `allocated(typed($committed, 'Ref'))`,
        'each commit function runs once': 'forall((k: Int) => implies(0 <= k && k < $arr.length, $ran[$arr[k]] === (k < $i ? 1 : 0)), [$arr[k]])',
      },
      dec: '$arr.length - $i',
    },
    { name: 'resolve', entry: { 'every prepared commit has run exactly once': `forall((f: Ref) => implies(asRef($prepOf[f]) === asRef(${B}), $ran[f] === 1), [$prepOf[f]])` }, inv: { ...ri(`(member(${B}, u) && idxAt(elems(${B}), ${B}.length, u) >= $i)`), 'not settled yet': `forall((k: Int) => implies(0 <= k && k < ${B}.length, $open[${B}[k]] === (k >= $i) && !$bag[${B}[k]] && $known[${B}[k]]), [${B}[k]])` }, dec: '$arr.length - $i' },
    { name: 'reject', inv: { ...ri(`(member(${B}, u) && idxAt(elems(${B}), ${B}.length, u) >= $i)`), 'not settled yet': `forall((k: Int) => implies(0 <= k && k < ${B}.length, $open[${B}[k]] === (k >= $i) && !$bag[${B}[k]] && $known[${B}[k]]), [${B}[k]])` }, dec: '$arr.length - $i' },
  ],
  ensures: {
    ...prefix('afterwards ', ri()), ...idle,
    'nothing stays staged': 'this._stagedLanes === bits(0)',
  },
});
// The order of batches and within batches (C04).
export const order = {
  formation: {
    'the batch precedes the queue': `forall((k: Int, v: Update) => implies(0 <= k && k < ${B}.length && $bag[v], prec(${B}[k], v)), [[${B}[k], $bag[v]]])`,
    'the batch is in order': `forall((a: Int, b: Int) => implies(0 <= a && a < b && b < ${B}.length, prec(${B}[a], ${B}[b])), [[${B}[a], ${B}[b]]])`,
    'deferred updates are not staged': `forall((j: Int) => implies(0 <= j && j < ${D}.length, !anyOf(${D}[j].lanes, this._stagedLanes)), [${D}[j]])`,
    'a batched update is staged or nothing is deferred': `forall((k: Int) => implies(0 <= k && k < ${B}.length, anyOf(${B}[k].lanes, this._stagedLanes) || ${D}.length === 0), [${B}[k]])`,
    'the first batched update is staged': `implies(${B}.length > 0, anyOf(${B}[0].lanes, this._stagedLanes))`,
  },
  requeue: {
    'the batch contains the first of the ready updates': `implies(${B}.length > 0, anyOf(${B}[0].lanes, this._stagedLanes) && forall((v: Update) => implies($bag[v], prec(${B}[0], v)), [$bag[v]]) && forall((j: Int) => implies(0 <= j && j < ${D}.length, !anyOf(${D}[j].lanes, this._stagedLanes)), [${D}[j]]))`,
    'no older update of equal lanes and depth stays in the queue': `forall((k: Int, v: Update) => implies(0 <= k && k < ${B}.length && $bag[v] && v.lanes === ${B}[k].lanes && lvl(v) === lvl(${B}[k]), ${B}[k].id < v.id), [[${B}[k], $bag[v]]])`,
    'no update of equal lanes is deferred': `forall((k: Int, j: Int) => implies(0 <= k && k < ${B}.length && 0 <= j && j < ${D}.length, ${D}[j].lanes !== ${B}[k].lanes), [[${B}[k], ${D}[j]]])`,
  },
  render: {
    'parents come first': 'forall((a: Int, b: Int) => implies(0 <= a && a < b && b < $arr.length, lvl($arr[a]) <= lvl($arr[b])), [[$arr[a], $arr[b]]])',
    'older updates of equal lanes and depth come first': 'forall((a: Int, b: Int) => implies(0 <= a && a < b && b < $arr.length && $arr[a].lanes === $arr[b].lanes && lvl($arr[a]) === lvl($arr[b]), $arr[a].id < $arr[b].id), [[$arr[a], $arr[b]]])',
    'every batched update has its turn': `$arr.length === ${B}.length && forall((k: Int) => implies(0 <= k && k < ${B}.length, inArr(elems($arr), $arr.length, ${B}[k])), [${B}[k]])`,
  },
};
const none = { formation: {}, requeue: {}, requeueInv: {}, render: {} };
export const flushSpec = flushSpecOf(none);
export const flushSpecOrdered = flushSpecOf(order);
export const flushHost = {
  runPipeline: {
    ...runPipelineContract,
    ...step(false),
    modifies: [...relyGhosts.map((m) => m.replace('this.', 'renderer.')), '$prepOf', '$ran', '$commitMode'],
    ensures: Object.fromEntries(Object.entries({
      ...rely, ...during,
      'others are not rendered': 'forall((u: Update) => implies(old($known[u]) && asRef(u) !== asRef(update), $rendered[u] === old($rendered[u])), [$rendered[u]])',
      rendered: '$rendered[update] === 1',
      commit: 'isFn(result) && fresh(result) && $prepOf === store(old($prepOf), result, renderer._updateBatch) && $ran === store(old($ran), result, 0) && $commitMode === 0',
    }).map(([k, e]) => [k, e.replaceAll('this.', 'renderer.')])),
    throwsEnsures: Object.fromEntries(Object.entries({ ...rely, ...during, p: '$prepOf === old($prepOf)' }).map(([k, e]) => [k, e.replaceAll('this.', 'renderer.')])),
  },
  '*.requestCommit': {
    assumed: 'runs the commit exactly once (C28 for DOMAdapter)', params: ['f'],
    requires: { 'no sync and no handler update is batched': `true` },
    hook: (v, a) => {
      const sc = { ...a.cx, spec: true, env: undefined, bound: new Map(), old: a.st };
      v.oblige(a.st, 'requestCommit: no sync and no handler update is batched', v.specBool(`forall((k: Int) => implies(0 <= k && k < ${B}.length, !anyOf(${B}[k].lanes, 3)), [${B}[k]])`, a.st, sc), 'precondition');
      return commitVia('3')(a, v);
    },
  },
  'get *.pendingLanes': { assumed: 'a transaction reports the lanes that are still to be rendered', get: '$txLanes[this]', type: 'BV' },
  '*.resolve': settle('resolve'),
  '*.reject': settle('reject'),
  ...sortedContract,
};
const prio = (x) => `asVal(${x}) === asVal('user-blocking') || asVal(${x}) === asVal('user-visible') || asVal(${x}) === asVal('background')`;
export const laneContracts = {
  getLaneFromPriority: { returns: 'BV', paramTypes: { priority: 'Val' }, requires: { 'a priority': prio('priority') }, ensures: { 'a lane': 'result !== bits(0) && low(result) && !anyOf(result, 3)' } },
  getRenderLanes: {
    returns: 'BV',
    requires: { 'a priority': `implies(options.priority !== undefined, ${prio('options.priority')})`, 'a transition number': 'implies(options.transition !== undefined, isInt(options.transition) && asInt(options.transition) >= 0)', 'a delay': 'implies(options.delay !== undefined, isInt(options.delay))' },
    ensures: { 'lanes within range': 'low(result)', 'the handler lane exactly with a handler': 'iff(anyOf(result, 2), options.handler !== undefined)' },
  },
};
export const scheduleContract = {
  'Runtime.schedule': {
    requires: {
      ...ri(),
      'the transaction has a scope': 'isPtr(transaction) && isPtr(transaction.scope)',
      'the options are in range': `implies(options !== undefined, implies(options.handler !== undefined, isPtr(options.handler) && isFn(options.handler)) && implies(options.priority !== undefined, ${prio('options.priority')}) && implies(options.transition !== undefined, isInt(options.transition) && asInt(options.transition) >= 0) && implies(options.delay !== undefined, isInt(options.delay)))`,
    },
    noFrame: true,
    allocates: true,
    fresh: ['id', 'lanes', 'handler', 'controller', 'transaction', 'promise', 'finished', 'priority', 'delay', 'flushSync', 'transition'],
    modifies: ['this._updateCount', 'this._pendingLanes', '$known', '$bag', '$open', '$rendered', '$updOf', '$handed'],
    ensures: {
      ...ri(), ...rely, ...relyRendered,
      'exactly one update is requested': 'exists((u: Update) => !old($known[u]) && $known === store(old($known), u, true) && $bag === store(old($bag), u, true) && u.id === old(this._updateCount) && u.lanes === result.lanes && asRef(u.transaction) === asRef(transaction) && asRef(u.controller.promise) === asRef(result.finished), [$known[u]])',
      'the handle has its id and lanes': 'asInt(result.id) === old(this._updateCount) && result.lanes !== bits(0)',
      'lanes that nothing waits for get a callback': 'implies(!sub(result.lanes, old(this._pendingLanes | this._stagedLanes)), $handed === old($handed) + 1 && this._pendingLanes === (old(this._pendingLanes) | result.lanes))',
      'otherwise one waits already': 'implies(sub(result.lanes, old(this._pendingLanes | this._stagedLanes)), $handed === old($handed) && this._pendingLanes === old(this._pendingLanes))',
    },
    deferred: {
      callback: {
        havoc: ['this._stagedLanes', 'this._flushLanes', 'this._updateBatch', '*elems:Ref', ...relyGhosts],
        requires: { ...ri('this._flushLanes !== bits(0)'), ...Object.fromEntries(Object.entries(idle).map(([k, e]) => [k, `implies(this._flushLanes === bits(0), ${e})`])) },
        ensures: {
          'while a flush is running the lanes are staged for it': 'implies(old(this._flushLanes) !== bits(0), this._pendingLanes === (old(this._pendingLanes) & ~outer.lanes) && this._stagedLanes === (old(this._stagedLanes) | outer.lanes) && $bag === old($bag) && $known === old($known) && $open === old($open) && $rendered === old($rendered) && this._flushLanes === old(this._flushLanes))',
          'otherwise a flush runs': 'implies(old(this._flushLanes) === bits(0), this._stagedLanes === bits(0) && this._flushLanes === bits(0))',
          ...ri('old(this._flushLanes) !== bits(0) && old($open[u])'),
        },
      },
    },
  },
};
export const shared = { opts, contracts: { ...orderContracts, ...laneContracts, ...hostLite, ...queueContracts, ...flushHost } };
export default {
  property: 'C03',
  units: [{
    opts, closed: ['Runtime._pendingLanes', '_stagedLanes', '_updateBatch', '_flushLanes', '_updateCount'],
    contracts: { ...shared.contracts, ...scheduleContract, 'Runtime._flush': flushSpec },
  }],
};
