// C01: the priority queue is a heap; removals yield a minimum and the bag of
// elements changes by exactly one occurrence.
const decls = `
(declare-fun cmp (Int Val Val) Int)
(declare-fun bagf ((Array Int Val) Int) (Array Val Int))
(define-fun bagAdd ((b (Array Val Int)) (v Val)) (Array Val Int) (store b v (+ (select b v) 1)))
(define-fun bagDel ((b (Array Val Int)) (v Val)) (Array Val Int) (store b v (- (select b v) 1)))
(declare-fun isMin (Int (Array Int Val) Int) Bool)
`;
const bagDef = [
  '(forall ((A (Array Int Val))) (! (= (bagf A 0) ((as const (Array Val Int)) 0)) :pattern ((bagf A 0))))',
];
const bagUnfold = (A, n) => `(= (bagf ${A} (+ ${n} 1)) (bagAdd (bagf ${A} ${n}) (select ${A} ${n})))`;
// Facts proved below as lemmas, used as axioms by the functions.
const L_ext = '(forall ((A (Array Int Val)) (B (Array Int Val)) (n Int)) (! (=> (and (>= n 0) (forall ((i Int)) (=> (and (<= 0 i) (< i n)) (= (select A i) (select B i))))) (= (bagf A n) (bagf B n))) :pattern ((bagf A n) (bagf B n))))';
const L_upd = '(forall ((A (Array Int Val)) (n Int) (i Int) (v Val)) (! (=> (and (<= 0 i) (< i n)) (= (bagf (store A i v) n) (bagAdd (bagDel (bagf A n) (select A i)) v))) :pattern ((bagf (store A i v) n))))';
const L_push = '(forall ((A (Array Int Val)) (n Int) (v Val)) (! (=> (>= n 0) (= (bagf (store A n v) (+ n 1)) (bagAdd (bagf A n) v))) :pattern ((store A n v) (bagf A n))))';
const L_pop = '(forall ((A (Array Int Val)) (n Int)) (! (=> (> n 0) (= (bagf A n) (bagAdd (bagf A (- n 1)) (select A (- n 1))))) :pattern ((bagf A (- n 1)))))';
const order = (f) => `(and (forall ((x Val) (y Val)) (! (= (< (cmp ${f} x y) 0) (> (cmp ${f} y x) 0)) :pattern ((cmp ${f} x y)))) (forall ((x Val) (y Val) (z Val)) (! (=> (and (<= (cmp ${f} x y) 0) (<= (cmp ${f} y z) 0)) (<= (cmp ${f} x z) 0)) :pattern ((cmp ${f} x y) (cmp ${f} y z)))))`;
const isHeap = (f, A, n) => `(forall ((p Int) (c Int)) (=> (and (<= 0 p) (< c ${n}) (or (= c (+ (* 2 p) 1)) (= c (+ (* 2 p) 2)))) (<= (cmp ${f} (select ${A} p) (select ${A} c)) 0)))`;

const H = 'this._heap';
const cmpCall = { value: 'cmp(callee, $x, $y)', argNames: ['$x', '$y'], returns: 'Int', pure: true };
const orderReq = 'isOrder(this._compare)';
const heapOk = `forall((p: Int, c: Int) => implies(0 <= p && c < ${H}.length && (c === 2 * p + 1 || c === 2 * p + 2), cmp(this._compare, ${H}[p], ${H}[c]) <= 0), [[${H}[p], ${H}[c]]])`;
const holes = (idx) => `forall((p: Int, c: Int) => implies(0 <= p && c < ${H}.length && (c === 2 * p + 1 || c === 2 * p + 2) && EXC, cmp(this._compare, ${H}[p], ${H}[c]) <= 0), [[${H}[p], ${H}[c]]])`.replace('EXC', idx);
const bridge = `forall((g: Int, p: Int, c: Int) => implies(0 <= g && c < ${H}.length && (p === 2 * g + 1 || p === 2 * g + 2) && (c === 2 * p + 1 || c === 2 * p + 2) && p === index, cmp(this._compare, ${H}[g], ${H}[c]) <= 0), [[${H}[g], ${H}[c], ${H}[p]]])`;

export default {
  property: 'C01',
  units: [{
    opts: {
      fieldSorts: { _heap: 'array:Val', _compare: 'Ref!' },
      decls,
      axioms: [L_ext, L_upd, L_push, L_pop],
      specFns: {
        cmp: { smt: 'cmp', args: ['Ref', 'Val', 'Val'], ret: 'Int' },
        bagOf: { smt: 'bagf', args: [null, 'Int'], ret: '(Array Val Int)' },
        bagAdd: { smt: 'bagAdd', args: [null, 'Val'], ret: '(Array Val Int)' },
        isOrder: { params: ['f'], expr: 'forall((x: Val, y: Val) => iff(cmp(f, x, y) < 0, cmp(f, y, x) > 0), [cmp(f, x, y)]) && forall((x: Val, y: Val, z: Val) => implies(cmp(f, x, y) <= 0 && cmp(f, y, z) <= 0, cmp(f, x, z) <= 0), [[cmp(f, x, y), cmp(f, y, z)]])' },
      },
    },
    contracts: {
      'PriorityQueue.constructor': {
        fresh: ['len', 'elems:Val', '_heap', '_compare'],
        modifies: ['this._heap', 'this._compare'],
        ensures: { 'the queue is empty': `${H}.length === 0`, 'the order is the given one': 'this._compare === compare' },
      },
      swap: {
        paramTypes: { heap: 'array:Val' },
        requires: { 'indices in range': '0 <= i && i < heap.length && 0 <= j && j < heap.length' },
        modifies: ['elems(heap)'],
        ensures: {
          'the length is kept': 'heap.length === old(heap.length)',
          'exactly the two elements are exchanged': 'forall((k: Int) => heap[k] === (k === i ? old(heap[j]) : k === j ? old(heap[i]) : old(heap[k])), [heap[k]])',
          'the bag is kept': 'bagOf(elems(heap), heap.length) === old(bagOf(elems(heap), heap.length))',
        },
      },
      'PriorityQueue._shiftDown': {
        callbacks: { compare: cmpCall },
        requires: {
          'the order is a total preorder': orderReq,
          'the index is in range': `0 <= index && index < ${H}.length`,
          'heap except below the index': holes('p !== index'),
          'the parent of the index precedes its children': bridge,
        },
        modifies: [`elems(${H})`],
        loops: [{
          name: 'sift down',
          inv: {
            'index in range': `0 <= index && index < ${H}.length`,
            'length kept': `${H}.length === old(${H}.length) && length === ${H}.length`,
            'heap except below the index': holes('p !== index'),
            'the parent of the index precedes its children': bridge,
            'bag kept': `bagOf(elems(${H}), ${H}.length) === old(bagOf(elems(${H}), ${H}.length))`,
          },
          dec: `${H}.length - index`,
        }],
        ensures: {
          'length kept': `${H}.length === old(${H}.length)`,
          'heap order': heapOk,
          'bag kept': `bagOf(elems(${H}), ${H}.length) === old(bagOf(elems(${H}), ${H}.length))`,
        },
      },
      'PriorityQueue._shiftUp': {
        callbacks: { compare: cmpCall },
        requires: {
          'the order is a total preorder': orderReq,
          'the index is in range': `0 <= index && index < ${H}.length`,
          'heap except above the index': holes('c !== index'),
          'the parent of the index precedes its children': bridge,
        },
        modifies: [`elems(${H})`],
        loops: [{
          name: 'sift up',
          inv: {
            'index in range': `0 <= index && index < ${H}.length`,
            'length kept': `${H}.length === old(${H}.length)`,
            'heap except above the index': holes('c !== index'),
            'the parent of the index precedes its children': bridge,
            'bag kept': `bagOf(elems(${H}), ${H}.length) === old(bagOf(elems(${H}), ${H}.length))`,
          },
          dec: 'index',
        }],
        ensures: {
          'length kept': `${H}.length === old(${H}.length)`,
          'heap order': heapOk,
          'bag kept': `bagOf(elems(${H}), ${H}.length) === old(bagOf(elems(${H}), ${H}.length))`,
        },
      },
      'PriorityQueue.enqueue': {
        requires: { 'the order is a total preorder': orderReq, 'heap order': heapOk },
        modifies: [`elems(${H})`],
        ensures: {
          'one more element': `${H}.length === old(${H}.length) + 1`,
          'heap order': heapOk,
          'exactly one occurrence of the argument is added': `bagOf(elems(${H}), ${H}.length) === bagAdd(old(bagOf(elems(${H}), ${H}.length)), value)`,
        },
      },
      'PriorityQueue.dequeue': {
        returns: 'Val',
        axioms: ['(forall ((f Int) (A (Array Int Val)) (n Int) (i Int)) (! (=> (and (isMin f A n) (<= 0 i) (< i n)) (<= (cmp f (select A 0) (select A i)) 0)) :pattern ((isMin f A n) (select A i))))',
          `(forall ((f Int) (A (Array Int Val)) (n Int)) (! (=> (and ${order('f')} ${isHeap('f', 'A', 'n')}) (isMin f A n)) :pattern ((isMin f A n))))`],
        specFns: { isMin: { smt: 'isMin', args: ['Ref', null, 'Int'], ret: 'Bool' } },
        requires: { 'the order is a total preorder': orderReq, 'heap order': heapOk },
        modifies: [`elems(${H})`],
        ensures: {
          'nothing exactly when empty': `implies(old(${H}.length) === 0, result === undefined && ${H}.length === 0)`,
          'one element less': `implies(old(${H}.length) > 0, ${H}.length === old(${H}.length) - 1)`,
          'heap order': heapOk,
          'exactly one occurrence of the result is removed': `implies(old(${H}.length) > 0, bagAdd(bagOf(elems(${H}), ${H}.length), result) === old(bagOf(elems(${H}), ${H}.length)))`,
          'the result precedes every held element': `implies(old(${H}.length) > 0, old(isMin(this._compare, elems(${H}), ${H}.length) && forall((i: Int) => implies(0 <= i && i < ${H}.length, cmp(this._compare, ${H}[0], ${H}[i]) <= 0), [${H}[i]])) && result === old(${H}[0]))`,
        },
      },
      'PriorityQueue.peek': {
        returns: 'Val',
        requires: { 'heap order': heapOk },
        ensures: {
          'nothing exactly when empty': `implies(${H}.length === 0, result === undefined)`,
          'the first element, which a removal would return': `implies(${H}.length > 0, result === ${H}[0])`,
        },
      },
    },
    lemmas: [],
  }, {
    opts: { decls },
    contracts: {},
    lemmas: [
      { name: 'bag extensionality, induction base', facts: [...bagDef, '(= n 0)'], goal: '(= (bagf A 0) (bagf B 0))', consts: {} },
      { name: 'bag extensionality, induction step', facts: ['(>= n 0)', '(forall ((i Int)) (=> (and (<= 0 i) (< i (+ n 1))) (= (select A i) (select B i))))', '(=> (forall ((i Int)) (=> (and (<= 0 i) (< i n)) (= (select A i) (select B i)))) (= (bagf A n) (bagf B n)))', bagUnfold('A', 'n'), bagUnfold('B', 'n')], goal: '(= (bagf A (+ n 1)) (bagf B (+ n 1)))' },
      { name: 'bag of an update, step at the last index', facts: ['(>= n 0)', '(= i n)', L_ext, bagUnfold('A', 'n'), bagUnfold('(store A i v)', 'n'), '(= (bagf A n) (bagf (store A i v) n))'], goal: '(= (bagf (store A i v) (+ n 1)) (bagAdd (bagDel (bagf A (+ n 1)) (select A i)) v))' },
      { name: 'bag of an update outside is unchanged', facts: ['(>= n 0)', '(>= i n)', L_ext, '(= B (store A i v))', '(= b1 (bagf A n))', '(= b2 (bagf B n))'], goal: '(= b1 b2)' },
      { name: 'bag of an update, induction step', facts: ['(> n i)', '(>= i 0)', '(= (bagf (store A i v) n) (bagAdd (bagDel (bagf A n) (select A i)) v))', bagUnfold('A', 'n'), bagUnfold('(store A i v)', 'n')], goal: '(= (bagf (store A i v) (+ n 1)) (bagAdd (bagDel (bagf A (+ n 1)) (select A i)) v))' },
      { name: 'bag of an append', facts: ['(>= n 0)', bagUnfold('(store A n v)', 'n'), L_ext, '(= b1 (bagf A n))', '(= B (store A n v))', '(= b2 (bagf B n))'], goal: '(= (bagf (store A n v) (+ n 1)) (bagAdd (bagf A n) v))' },
      { name: 'bag without the last element', facts: ['(> n 0)', bagUnfold('A', '(- n 1)'), '(= (+ (- n 1) 1) n)'], goal: '(= (bagf A n) (bagAdd (bagf A (- n 1)) (select A (- n 1))))' },
      { name: 'the root of a heap is a minimum, induction step', facts: [order('f'), isHeap('f', 'A', 'n'), '(< 0 i)', '(< i n)', '(= p (div (- i 1) 2))', '(<= (cmp f (select A 0) (select A p)) 0)', '(forall ((q Int)) (=> (and (<= 0 q) (< q i)) (<= (cmp f (select A 0) (select A q)) 0)))'], goal: '(<= (cmp f (select A 0) (select A i)) 0)' },
      { name: 'the root of a heap is a minimum, induction base', facts: [order('f'), '(<= 0 n)'], goal: '(<= (cmp f (select A 0) (select A 0)) 0)' },
    ].map((l) => ({ ...l, decls: '(declare-const A (Array Int Val))(declare-const B (Array Int Val))(declare-const n Int)(declare-const i Int)(declare-const p Int)(declare-const f Int)(declare-const v Val)(declare-const b1 (Array Val Int))(declare-const b2 (Array Val Int))' })),
  }],
};
