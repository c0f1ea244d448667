// C18: the linked list is the sequence of its nodes in the order of appending.
// Ghost state: for each list the sequence `seq` of its nodes and its length
// `cnt`; for each node its position `pos`.
export const listGhosts = { seq: '(Array Int (Array Int Int))', cnt: '(Array Int Int)', pos: '(Array Int Int)' };
export const listDecls = `
(declare-fun seqDel ((Array Int Int) Int) (Array Int Int))
(declare-fun posDel ((Array Int Int) (Array Int Int) Int Int) (Array Int Int))`;
export const listAxioms = [
  '(forall ((S (Array Int Int)) (p Int) (i Int)) (! (= (select (seqDel S p) i) (ite (< i p) (select S i) (select S (+ i 1)))) :pattern ((select (seqDel S p) i))))',
  // positions of the nodes of list l behind position p move by one
  '(forall ((P (Array Int Int)) (O (Array Int Int)) (l Int) (p Int) (r Int)) (! (= (select (posDel P O l p) r) (ite (and (= (select O r) l) (> (select P r) p)) (- (select P r) 1) (select P r))) :pattern ((select (posDel P O l p) r))))',
];
const N = (x) => `typed(${x}, 'InternalNode')`;
export const listSpecFns = {
  at_: { params: ['l', 'i'], expr: `${N('$seq[l][i]')}` },
  // The structural invariant of a list.
  wf: { params: ['l'], types: ['LinkedList'], expr: `$cnt[l] >= 0
    && l._head === ($cnt[l] > 0 ? at_(l, 0) : null)
    && l._tail === ($cnt[l] > 0 ? at_(l, $cnt[l] - 1) : null)
    && forall((i: Int) => implies(0 <= i && i < $cnt[l], $seq[l][i] > 0 && allocated(at_(l, i)) && at_(l, i).owner === l && $pos[at_(l, i)] === i
        && at_(l, i).next === (i + 1 < $cnt[l] ? at_(l, i + 1) : null)
        && at_(l, i).prev === (i > 0 ? at_(l, i - 1) : null)), [$seq[l][i]])
    && forall((r: InternalNode) => implies(isPtr(r) && allocated(r) && r.owner === l, 0 <= $pos[r] && $pos[r] < $cnt[l] && $seq[l][$pos[r]] === r), [r.owner])` },
  isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' },
  isIn: { params: ['n', 'l'], types: ['InternalNode', 'LinkedList'], expr: 'n.owner === l' },
  seqDel: { smt: 'seqDel', args: [null, 'Int'], ret: '(Array Int Int)' },
  posDel: { smt: 'posDel', args: [null, null, 'Ref', 'Int'], ret: '(Array Int Int)' },
  othersKept: { params: ['l'], expr: `forall((r: InternalNode) => implies(isPtr(r) && old(allocated(r) && r.owner !== l), r.next === old(r.next) && r.prev === old(r.prev) && r.owner === old(r.owner) && $pos[r] === old($pos[r])), [r.next], [r.owner])` },
};
export const listSorts = { next: '?InternalNode', prev: '?InternalNode', owner: '?LinkedList', _head: '?InternalNode', _tail: '?InternalNode', value: 'Val' };
const ghostMods = ['$seq', '$cnt', '$pos'];
export const listContracts = {
  'LinkedList.constructor': {
    ghosts: listGhosts,
    fresh: ['_head', '_tail'],
    modifies: ['this._head', 'this._tail', ...ghostMods],
    ghostExit: { cnt: 'store($cnt, this, 0)' },
    requires: { 'no node belongs to a list that does not exist': "forall((r: InternalNode) => implies(isPtr(r) && allocated(r), r.owner !== this), [r.owner])" },
    ensures: { 'well formed': 'wf(this)', 'empty': '$cnt[this] === 0', 'ghosts of others': '$seq === old($seq) && $pos === old($pos) && $cnt === store(old($cnt), this, 0)' },
  },
  'LinkedList.append': {
    returns: 'InternalNode',
    fresh: ['value', 'prev', 'next', 'owner'],
    freshResult: true,
    requires: { 'well formed': 'wf(this)' },
    modifies: ['this._head', 'this._tail', '*.next', '*.prev', '*.owner', ...ghostMods],
    ghostExit: {
      seq: 'store($seq, this, store($seq[this], $cnt[this], result))',
      cnt: 'store($cnt, this, $cnt[this] + 1)',
      pos: 'store($pos, result, $cnt[this])',
    },
    ensures: {
      'well formed': 'wf(this)',
      'the new node is the last one': '$cnt === store(old($cnt), this, old($cnt[this]) + 1) && $seq === store(old($seq), this, store(old($seq[this]), old($cnt[this]), result))',
      'it holds the value and belongs to the list': 'is(result.value, value) && result.owner === this && $pos === store(old($pos), result, old($cnt[this]))',
      'values of existing nodes are kept': "forall((r: InternalNode) => implies(isPtr(r) && old(allocated(r)), is(r.value, old(r.value))), [r.value])",
      'other lists are untouched': 'othersKept(this)',
    },
  },
  'LinkedList.delete': {
    paramTypes: { node: 'InternalNode' },
    requires: { 'well formed': 'wf(this)' },
    modifies: ['this._head', 'this._tail', '*.next', '*.prev', 'node.owner', ...ghostMods],
    ghostExit: {
      seq: 'result ? store($seq, this, seqDel($seq[this], $pos[node])) : $seq',
      cnt: 'result ? store($cnt, this, $cnt[this] - 1) : $cnt',
      pos: "result ? posDel($pos, old(heap('owner')), this, $pos[node]) : $pos",
    },
    ensures: {
      'true exactly for a node of the list': 'result === old(isIn(node, this))',
      'well formed': 'wf(this)',
      'exactly the node is removed': 'implies(result, $cnt === store(old($cnt), this, old($cnt[this]) - 1) && $seq === store(old($seq), this, seqDel(old($seq[this]), old($pos[node]))) && node.owner === null)',
      'nothing changes otherwise': "implies(!result, $cnt === old($cnt) && $seq === old($seq) && $pos === old($pos) && heap('next') === old(heap('next')) && heap('prev') === old(heap('prev')) && heap('owner') === old(heap('owner')) && this._head === old(this._head) && this._tail === old(this._tail))",
      'other lists are untouched': 'othersKept(this)',
    },
  },
  'LinkedList.[Symbol.iterator]': {
    requires: { 'well formed': 'wf(this)' },
    ghosts: { yielded: 'Int' },
    modifies: ['$yielded'],
    noResult: true,
    // Each yield: the value of the next node in the sequence.
    yield: (v, st, x, cx) => {
      v.oblige(st, 'yields the values in order', v.specBool('$yielded < $cnt[this] && is(y, at_(this, $yielded).value)', st, { ...cx, spec: true, bound: new Map([['y', x]]) }), 'postcondition');
      const h = v.heap(st, 'g:yielded');
      v.hset(st, 'g:yielded', v.newConst('yielded', 'Int', `(+ ${h.name} 1)`));
      v.onWrite?.('g:yielded', 'ghost', st);
      return v.val(st, { s: 'Undef' });
    },
    loops: [{
      name: 'iteration',
      inv: {
        'the cursor is the next node': '0 <= $yielded && $yielded <= $cnt[this] && node === ($yielded < $cnt[this] ? at_(this, $yielded) : null)',
      },
      dec: '$cnt[this] - $yielded',
    }],
    entry: { yielded: '0' },
    ensures: { 'every node is visited': '$yielded === $cnt[this]' },
  },
};
export const listOpts = {
  fieldSorts: listSorts,
  ghosts: listGhosts,
  decls: listDecls + '\n(define-fun isPtr ((r Int)) Bool (> r 0))',
  axioms: listAxioms,
  specFns: listSpecFns,
};
export default { property: 'C18', units: [{ opts: listOpts, contracts: listContracts }] };
