// Contracts of the runtime shared by several properties.
export const runtimeSorts = {
  _updateQueue: 'PriorityQueue', _updateBatch: 'array:Update', _middlewares: 'array:Middleware',
  _identifierCount: 'Int', _transitionCount: 'Int', _updateCount: 'Int', id: 'Val', handler: 'Val', controller: 'Ref', transaction: 'Ref', promise: 'Ref', finished: 'Ref',
  _pendingLanes: 'BV', _stagedLanes: 'BV', _flushLanes: 'BV', lanes: 'BV', priority: 'Val', delay: 'Val', transition: 'Val', flushSync: 'Val',
};
export const runtimeDecls = `
(define-fun isPtr ((r Int)) Bool (> r 0))
(define-fun zero () (_ BitVec 32) #x00000000)`;
export const runtimeSpecFns = {
  isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' },
  bz: { smt: 'zero', args: [], ret: 'BV' },
};

// ------------------------------------------------------------------ scheduling
// Ghosts of one runtime (this):
//   known[u]     u is an update that was requested
//   bag[u]       u is held by the queue (the queue contracts are proved in C01)
//   open[u]      the promise of u has not been settled
//   rendered[u]  how often u was handed to its transaction
//   updOf[c]     the update whose controller is c
//   txLanes[t]   the value of the accessor t.pendingLanes
//   committed    the batch (array) whose commit was begun last
//   prepOf[f]    the batch for which the commit function f was prepared
//   ran[f]       how often the commit function f was called
//   handed       callbacks handed to the host
//   commitMode   how the last batch was committed: 1 sync, 2 handler, 3 host
export const flushGhosts = {
  known: '(Array Int Bool)', bag: '(Array Int Bool)', open: '(Array Int Bool)', rendered: '(Array Int Int)', updOf: '(Array Int Int)',
  txLanes: '(Array Int (_ BitVec 32))', committed: 'Int', prepOf: '(Array Int Int)', ran: '(Array Int Int)', handed: 'Int', commitMode: 'Int',
};
export const flushSorts = { ...runtimeSorts, id: 'Int', level: 'Int', scope: 'Scope', transaction: 'Transaction', handler: 'Ref', controller: 'Controller', promise: 'Ref' };
export const flushDecls = `${runtimeDecls}
(define-fun hp ((l (_ BitVec 32))) (_ BitVec 32) (bvand l (bvneg l)))
(declare-fun inArr ((Array Int Int) Int Int) Bool)
(declare-fun idxOf ((Array Int Int) Int Int) Int)`;
export const flushAxioms = [
  '(forall ((A (Array Int Int)) (n Int) (x Int)) (! (=> (inArr A n x) (and (<= 0 (idxOf A n x)) (< (idxOf A n x) n) (= (select A (idxOf A n x)) x))) :pattern ((inArr A n x))))',
  '(forall ((A (Array Int Int)) (n Int) (x Int) (k Int)) (! (=> (and (<= 0 k) (< k n) (= (select A k) x)) (inArr A n x)) :pattern ((inArr A n x) (select A k))))',
  '(forall ((A (Array Int Int)) (n Int) (m Int) (x Int) (v Int)) (! (=> (and (<= 0 n) (= m (+ n 1))) (= (inArr (store A n v) m x) (or (inArr A n x) (= x v)))) :pattern ((inArr (store A n v) m x))))',
];
export const flushSpecFns = {
  ...runtimeSpecFns,
  hp: { smt: 'hp', args: ['BV'], ret: 'BV' },
  inArr: { smt: 'inArr', args: [null, 'Int', 'Ref'], ret: 'Bool' },
  member: { params: ['a', 'u'], expr: 'inArr(elems(a), a.length, u)' },
  low: { params: ['l'], expr: '(bits(l) & bits(2147483648)) === bits(0)' },
  sub: { params: ['l', 'm'], expr: '(bits(l) & ~bits(m)) === bits(0)' },
  anyOf: { params: ['l', 'm'], expr: '(bits(l) & bits(m)) !== bits(0)' },
  lvl: { params: ['u'], expr: 'u.transaction.scope.level' },
  // u comes before v: by highest priority lane, then depth, then age
  prec: {
    params: ['u', 'v'],
    expr: 'hp(u.lanes) < hp(v.lanes) || (hp(u.lanes) === hp(v.lanes) && (lvl(u) < lvl(v) || (lvl(u) === lvl(v) && u.id < v.id)))',
  },
};
// The invariant of a runtime between its operations; `extra` says which
// updates other than those in the queue are unsettled.
export const ri = (extra = 'false') => ({
  'updates are well-formed': 'forall((u: Update) => implies($known[u], isPtr(u) && allocated(u) && isPtr(u.controller) && allocated(u.controller) && isPtr(u.transaction) && isPtr(u.transaction.scope) && $updOf[u.controller] === u && u.lanes !== bits(0) && low(u.lanes) && implies(anyOf(u.lanes, 2), isPtr(u.handler) && isFn(u.handler)) && u.id < this._updateCount), [$known[u]])',
  'ids are unique': 'forall((u: Update, v: Update) => implies($known[u] && $known[v] && u.id === v.id, asRef(u) === asRef(v)), [[$known[u], $known[v]]])',
  'queued updates are unsettled and not rendered': 'forall((u: Update) => implies($bag[u], $known[u] && $open[u] && $rendered[u] === 0), [$bag[u]])',
  'unsettled updates are accounted for': `forall((u: Update) => implies($known[u] && $open[u], $bag[u] || ${extra}), [[$known[u], $open[u]]])`,
  'an update is rendered at most once': 'forall((u: Update) => implies($known[u], $rendered[u] <= 1 && $rendered[u] >= 0), [$rendered[u]])',
  'lanes that wait are pending or staged': 'forall((u: Update) => implies($bag[u], sub(u.lanes, this._pendingLanes | this._stagedLanes)), [$bag[u]])',
  'lanes are within range': 'low(this._pendingLanes) && low(this._stagedLanes)',
});
export const prefix = (p, o) => Object.fromEntries(Object.entries(o).map(([k, v]) => [`${p}${k}`, v]));
// What other code may do between two steps of a flush: request updates, and,
// while the flush waits, run callbacks that stage lanes.
export const relyGhosts = ['this._pendingLanes', 'this._updateCount', '$known', '$bag', '$open', '$rendered', '$updOf', '$txLanes', '$handed'];
export const rely = {
  'requests are only added': 'forall((u: Update) => implies(old($known[u]), $known[u] && $bag[u] === old($bag[u]) && $open[u] === old($open[u])), [$known[u]], [$bag[u]], [$open[u]])',
  'new requests are queued': 'forall((u: Update) => implies($known[u] && !old($known[u]), $bag[u] && $open[u] && $rendered[u] === 0 && !old(allocated(u))), [$known[u]])',
  'only known updates are queued': 'forall((u: Update) => implies($bag[u], $known[u]), [$bag[u]])',
  'controllers are kept': 'forall((u: Update) => implies(old($known[u]), $updOf[u.controller] === old($updOf[u.controller])), [$known[u]])',
  'the count grows': 'this._updateCount >= old(this._updateCount)',
};
export const relyRendered = { 'rendered is kept': 'forall((u: Update) => implies(old($known[u]), $rendered[u] === old($rendered[u])), [$rendered[u]])' };
export const queueContracts = {
  'PriorityQueue.peek': {
    assumed: 'proved in C01 for any total order (compareUpdates is one: proved here)', returns: 'Update | undefined',
    ensures: {
      a: 'implies(result === undefined, forall((u: Update) => !$bag[u], [$bag[u]]))',
      b: 'implies(result !== undefined, isPtr(result) && $bag[result] && forall((v: Update) => implies($bag[v] && asRef(v) !== asRef(result), prec(result, v)), [$bag[v]]))',
    },
  },
  'PriorityQueue.dequeue': {
    assumed: 'proved in C01 for any total order (compareUpdates is one: proved here)', returns: 'Update | undefined', modifies: ['$bag'],
    ensures: {
      a: 'implies(result === undefined, forall((u: Update) => !$bag[u], [$bag[u]]) && $bag === old($bag))',
      b: 'implies(result !== undefined, isPtr(result) && old($bag[result]) && $bag === store(old($bag), result, false) && forall((v: Update) => implies($bag[v], prec(result, v)), [$bag[v]], [old($bag[v])]))',
    },
  },
  'PriorityQueue.enqueue': {
    assumed: 'proved in C01 (no other writer of the queue)', params: ['value'], paramTypes: { value: 'Update' }, modifies: ['$bag', '$known', '$open', '$rendered', '$updOf'],
    requires: { 'not held already': '!$bag[value]', 'a settled update is not queued again': 'implies($known[value], $open[value])' },
    ensures: {
      a: '$bag === store(old($bag), value, true)',
      // an update that was not known becomes a request
      b: 'implies(old($known[value]), $known === old($known) && $open === old($open) && $rendered === old($rendered) && $updOf === old($updOf))',
      c: 'implies(!old($known[value]), $known === store(old($known), value, true) && $open === store(old($open), value, true) && $rendered === store(old($rendered), value, 0) && $updOf === store(old($updOf), value.controller, value))',
    },
  },
};
