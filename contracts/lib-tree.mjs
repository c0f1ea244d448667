// Contracts of the render tree: Runtime.render, Runtime.diff, _diffChildren.
//
// isEl(e): e is an element of the declared shape; child(e, k), nch(e): its
// children. isCm(n): n is a node of the committed tree; kid(n, k), nkid(n):
// its children. listed(a): the array a holds the children of an element or of
// a committed node. Elements and the fields of nodes named in `frozen` are
// written only when they are made, so these are functions of the object; the
// preconditions `trees` relate them to the arrays of the program.
// Ghost state
//   df[n][tup(o,e,s)]  n is what some call of diff made of the node o and the
//                element e in the scope s; o is nil for a call of render
//   ret[c][r]    the component instance c returned the element r from a render
//   mo[a][n]     the entry of the list of mutations a for the old node n
//   mn[a][i]     the entry of the list of mutations a for the new position i
import { UNDEF } from '../tool/engine.mjs';
export const treeSorts = {
  type: 'Val', props: 'Val', key: 'Val', children: 'array:VNode', index: 'Int', parent: 'Ref', part: 'Part', left: 'array:RenderNode', right: 'array:RenderNode', state: 'Ref',
  mutations: 'array:Mutation', instance: 'ComponentInstance', scope: 'Scope', block: 'Block', parts: 'array:Part', node: 'RenderNode', oldNode: 'RenderNode', newNode: 'RenderNode', afterNode: 'RenderNode',
  _flushLanes: 'BV', pendingLanes: 'BV', owner: 'Ref', level: 'Int', instances: 'array:Ref', _adapter: 'HostAdapter',
};
export const treeGhosts = {
  df: '(Array Int (Array Int Bool))', ret: '(Array Int (Array Int Bool))',
  mo: '(Array Int (Array Int Int))', mn: '(Array Int (Array Int Int))',
};
export const treeDecls = `(define-fun isPtr ((r Int)) Bool (> r 0))
(define-fun zero () (_ BitVec 32) #x00000000)
(declare-fun tup (Int Int Int) Int)
(declare-fun arity (Val) Int)
(define-fun nk ((v Val)) Val (ite (= v VNegZero) (VInt 0) v))
(define-fun same ((a Val) (b Val)) Bool (= (nk a) (nk b)))
(define-fun isKind ((v Val) (n Int)) Bool (= v (VInt n)))
(define-fun isInt ((v Val)) Bool ((_ is VInt) v))
(define-fun intOf ((v Val)) Int (vint v))
(define-fun nil () Int 0)
(declare-fun isEl (Int) Bool)
(declare-fun isCm (Int) Bool)
(declare-fun listed (Int) Bool)
(declare-fun llen (Int) Int)
(declare-fun lst (Int Int) Int)
(declare-fun ord (Int Int) Int)
(declare-fun eqProps (Int Val Val) Bool)`;
export const treeAxioms = [
];
export const treeSpecFns = {
  isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' },
  isEl: { smt: 'isEl', args: ['Ref'], ret: 'Bool' },
  isCm: { smt: 'isCm', args: ['Ref'], ret: 'Bool' },
  listed: { smt: 'listed', args: ['Ref'], ret: 'Bool' },
  llen: { smt: 'llen', args: ['Ref'], ret: 'Int' },
  elAt: { smt: 'lst', args: ['Ref', 'Int'], ret: 'Ref', h: 'VNode' },
  kidAt: { smt: 'lst', args: ['Ref', 'Int'], ret: 'Ref', h: 'RenderNode' },
  nil: { smt: 'nil', args: [], ret: 'Ref' },
  tup: { smt: 'tup', args: ['Ref', 'Ref', 'Ref'], ret: 'Int' },
  arity: { smt: 'arity', args: ['Val'], ret: 'Int' },
  nk: { smt: 'nk', args: ['Val'], ret: 'Val' },
  isInt: { smt: 'isInt', args: ['Val'], ret: 'Bool' },
  intOf: { smt: 'intOf', args: ['Val'], ret: 'Int' },
  // the position of a node in a list whose nodes are distinct
  ord: { smt: 'ord', args: ['Ref', 'Ref'], ret: 'Int' },
  // the new node n was made of the old node o (nil: none) and the element e in the scope s
  made: { params: ['n', 'o', 'e', 's'], types: ['RenderNode', 'RenderNode', 'VNode', 'Scope'], expr: '$df[n][tup(o, e, s)]' },
  isComp: { params: ['t'], types: ['Val'], expr: "isType(t, 'function')" },
  isBlock: { params: ['t'], types: ['Val'], expr: "t !== asVal(Bind) && t !== asVal(Fragment) && !isType(t, 'function')" },
  // kinds of mutations
  isIns: { params: ['m'], types: ['Mutation'], expr: 'isKind(m.type, 0)' },
  isUpd: { params: ['m'], types: ['Mutation'], expr: 'isKind(m.type, 1) || isKind(m.type, 2)' },
  isRem: { params: ['m'], types: ['Mutation'], expr: 'isKind(m.type, 3)' },
  same: { smt: 'same', args: ['Val', 'Val'], ret: 'Bool' },
  sameVal: { smt: '=', args: ['Val', 'Val'], ret: 'Bool' },
  eqProps: { smt: 'eqProps', args: ['Ref', 'Val', 'Val'], ret: 'Bool' },
  isKind: { smt: 'isKind', args: ['Val', 'Int'], ret: 'Bool' },
};
const F = 'forall';
// facts about frozen fields: they hold in every state or in none
const shapes = {
  'elements are trees': `${F}((e: VNode) => implies(isEl(e), isPtr(e) && isRef(e.props) && isPtr(e.children) && isArr(e.children) && listed(e.children) && llen(e.children) >= 0 && (e.type === asVal(Bind) || e.type === asVal(Fragment) || isRef(e.type)) && implies(isBlock(e.type), llen(e.children) === arity(e.type))), [isEl(e)])`,
  'children of elements are elements': `${F}((e: VNode, k: Int) => implies(isEl(e) && 0 <= k && k < llen(e.children), isEl(elAt(e.children, k))), [elAt(e.children, k)])`,
  'keys of lists are distinct': `${F}((e: VNode, a: Int, b: Int) => implies(isEl(e) && e.type === asVal(Fragment) && 0 <= a && a < b && b < llen(e.children), !same(elAt(e.children, a).key, elAt(e.children, b).key)), [[elAt(e.children, a), elAt(e.children, b)]])`,
  'committed nodes are trees': `${F}((n: RenderNode) => implies(isCm(n), isPtr(n) && isRef(n.props) && isPtr(n.right) && isArr(n.right) && listed(n.right) && llen(n.right) >= 0 && isPtr(n.part) && isPtr(n.state) === (n.type !== asVal(Bind))
      && implies(isComp(n.type), llen(n.right) === 1 && isPtr(n.state.instance)) && implies(isBlock(n.type), llen(n.right) === arity(n.type))), [isCm(n)])`,
  'children of committed nodes are committed': `${F}((n: RenderNode, k: Int) => implies(isCm(n) && 0 <= k && k < llen(n.right), isCm(kidAt(n.right, k))), [kidAt(n.right, k)])`,
  'keys of committed lists are distinct': `${F}((n: RenderNode, a: Int, b: Int) => implies(isCm(n) && n.type === asVal(Fragment) && 0 <= a && a < b && b < llen(n.right), !same(kidAt(n.right, a).key, kidAt(n.right, b).key)), [[kidAt(n.right, a), kidAt(n.right, b)]])`,
  // (nodes of a list have distinct keys, so each has one position)
  'positions in committed lists': `${F}((n: RenderNode, k: Int) => implies(isCm(n) && n.type === asVal(Fragment) && 0 <= k && k < llen(n.right), ord(n.right, kidAt(n.right, k)) === k), [kidAt(n.right, k)])`,
};
// facts about the current state
const kept = {
  'listed lists': `${F}((a: Ref) => implies(listed(a), isPtr(a) && isArr(a) && typed(a, 'array:VNode').length === llen(a)), [listed(a)])`,
  'each member of a list': `${F}((a: Ref, k: Int) => implies(listed(a) && 0 <= k && k < llen(a), asRef(typed(a, 'array:VNode')[k]) === asRef(elAt(a, k))), [elAt(a, k)], [typed(a, 'array:VNode')[k]])`,
  'committed nodes exist': `${F}((n: RenderNode) => implies(isCm(n), allocated(n) && allocated(n.right) && allocated(n.part) && allocated(n.state)), [isCm(n)])`,
};
export const trees = { ...shapes, ...kept };
const grows = {
  'earlier results stay': `${F}((n: Ref, t: Int) => implies(old($df)[n][t], $df[n][t]), [$df[n][t]], [old($df)[n][t]])`,
  'earlier returns stay': `${F}((c: Ref, e: Ref) => implies(old($ret)[c][e], $ret[c][e]), [$ret[c][e]], [old($ret)[c][e]])`,
  'mutations of other lists stay': `${F}((a: Ref) => implies(old(allocated(a)), $mo[a] === old($mo)[a] && $mn[a] === old($mn)[a]), [$mo[a]], [$mn[a]])`,
};
const ghostMods = ['$df', '$ret', '$mo', '$mn'];
const NODE = ['type', 'props', 'key', 'index', 'parent', 'part', 'left', 'right', 'state', 'mutations', 'instance', 'scope', 'block', 'node', 'oldNode', 'newNode', 'afterNode', 'len', 'elems:Ref', 'elems:Val', 'owner', 'level', 'instances', 'children', 'parts', 'pendingLanes', 'dom', 'mval'];
// ---------------------------------------------------------------- lists
const els = 'newElements';
const R = 'newParent.right';
const Lf = 'newParent.left';
const match = (i, j) => `same(elAt(${els}, ${i}).key, kidAt(${R}, ${j}).key)`;
const inOld = (n) => `0 <= ord(${R}, ${n}) && ord(${R}, ${n}) < llen(${R}) && asRef(kidAt(${R}, ord(${R}, ${n}))) === asRef(${n})`;
const entry = (M, k) => `isPtr(${M}[${k}]) && allocated(${M}[${k}])
   && implies(isIns(${M}[${k}]), 0 <= ${M}[${k}].node.index && ${M}[${k}].node.index < llen(${els}) && asRef(${Lf}[${M}[${k}].node.index]) === asRef(${M}[${k}].node) && made(${M}[${k}].node, nil(), elAt(${els}, ${M}[${k}].node.index), scope) && $mn[${M}][${M}[${k}].node.index] === ${k} + 1)
   && implies(isUpd(${M}[${k}]), 0 <= ${M}[${k}].index && ${M}[${k}].index < llen(${els}) && asRef(${Lf}[${M}[${k}].index]) === asRef(${M}[${k}].newNode) && made(${M}[${k}].newNode, ${M}[${k}].oldNode, elAt(${els}, ${M}[${k}].index), scope) && same(${M}[${k}].oldNode.key, elAt(${els}, ${M}[${k}].index).key) && ${inOld(`${M}[${k}].oldNode`)} && $mn[${M}][${M}[${k}].index] === ${k} + 1 && $mo[${M}][${M}[${k}].oldNode] === ${k} + 1)
   && implies(isRem(${M}[${k}]), ${inOld(`${M}[${k}].node`)} && $mo[${M}][${M}[${k}].node] === ${k} + 1)
   && (isIns(${M}[${k}]) || isUpd(${M}[${k}]) || isRem(${M}[${k}]))`;
const oldDone = (M, j) => `1 <= $mo[${M}][kidAt(${R}, ${j})] && $mo[${M}][kidAt(${R}, ${j})] <= ${M}.length && implies(isRem(${M}[$mo[${M}][kidAt(${R}, ${j})] - 1]), asRef(${M}[$mo[${M}][kidAt(${R}, ${j})] - 1].node) === asRef(kidAt(${R}, ${j}))) && implies(!isRem(${M}[$mo[${M}][kidAt(${R}, ${j})] - 1]), isUpd(${M}[$mo[${M}][kidAt(${R}, ${j})] - 1]) && asRef(${M}[$mo[${M}][kidAt(${R}, ${j})] - 1].oldNode) === asRef(kidAt(${R}, ${j})))`;
const newDone = (M, i) => `1 <= $mn[${M}][${i}] && $mn[${M}][${i}] <= ${M}.length && implies(isIns(${M}[$mn[${M}][${i}] - 1]), ${M}[$mn[${M}][${i}] - 1].node.index === ${i}) && implies(!isIns(${M}[$mn[${M}][${i}] - 1]), isUpd(${M}[$mn[${M}][${i}] - 1]) && ${M}[$mn[${M}][${i}] - 1].index === ${i})`;
const entriesOf = (M) => ({
  'each entry is right': `${F}((k: Int) => implies(0 <= k && k < ${M}.length, ${entry(M, 'k')}), [${M}[k]])`,
  'no old child has the key of an inserted one': `${F}((k: Int, j: Int) => implies(0 <= k && k < ${M}.length && isIns(${M}[k]) && 0 <= j && j < llen(${R}), !${match(`${M}[k].node.index`, 'j')}), [[${M}[k], kidAt(${R}, j)]])`,
  'no new child has the key of a removed one': `${F}((k: Int, i: Int) => implies(0 <= k && k < ${M}.length && isRem(${M}[k]) && 0 <= i && i < llen(${els}), !same(elAt(${els}, i).key, ${M}[k].node.key)), [[${M}[k], elAt(${els}, i)]])`,
});
export const listPost = (M) => ({
  ...entriesOf(M),
  'each old child has exactly one entry': `${F}((j: Int) => implies(0 <= j && j < llen(${R}), ${oldDone(M, 'j')}), [kidAt(${R}, j)])`,
  'each new child has exactly one entry': `${F}((i: Int) => implies(0 <= i && i < llen(${els}), ${newDone(M, 'i')}), [elAt(${els}, i)], [$mn[${M}][i]])`,
  'a new child with the key of an old one is made of it': `${F}((i: Int, j: Int) => implies(0 <= i && i < llen(${els}) && 0 <= j && j < llen(${R}) && ${match('i', 'j')}, made(${Lf}[i], kidAt(${R}, j), elAt(${els}, i), scope)), [[elAt(${els}, i), kidAt(${R}, j)]])`,
});
const M = 'newMutations';
const K = (name) => `implies(${name} !== undefined, ${F}((k: Int) => implies(LO <= k && k <= HI, has(${name}, nk(KEYS[k]))), [KEYS[k]]) && ${F}((v: Val) => implies(has(${name}, v), 0 <= at(${name}, v) && at(${name}, v) < KEYS.length && nk(KEYS[at(${name}, v)]) === v), [has(${name}, v)]))`;
const kmap = (name, keys, lo, hi) => K(name).replaceAll('KEYS', keys).replaceAll('LO', lo).replaceAll('HI', hi);
const todoOld = (j) => `oldHead <= ${j} && ${j} <= oldTail && oldChildren[${j}] !== undefined`;
const doneOld = (j) => `0 <= ${j} && ${j} < llen(${R}) && (${j} < oldHead || ${j} > oldTail || oldChildren[${j}] === undefined)`;
const todoNew = (i) => `newHead <= ${i} && ${i} <= newTail`;
const doneNew = (i) => `0 <= ${i} && ${i} < llen(${els}) && (${i} < newHead || ${i} > newTail)`;
const shape = {
  'the ranges': `0 <= oldHead && oldHead <= oldTail + 1 && oldTail < llen(${R}) && 0 <= newHead && newHead <= newTail + 1 && newTail < llen(${els})`,
  'the keys': `oldKeys.length === llen(${R}) && newKeys.length === llen(${els}) && ${F}((j: Int) => implies(0 <= j && j < llen(${R}), oldKeys[j] === kidAt(${R}, j).key), [oldKeys[j]], [kidAt(${R}, j)]) && ${F}((i: Int) => implies(0 <= i && i < llen(${els}), newKeys[i] === elAt(${els}, i).key), [newKeys[i]], [elAt(${els}, i)])`,
  'the old children': `oldChildren.length === llen(${R}) && ${F}((j: Int) => implies(0 <= j && j < llen(${R}), oldChildren[j] === undefined || asRef(oldChildren[j]) === asRef(kidAt(${R}, j))), [oldChildren[j]])`,
  'new lists': `fresh(oldChildren) && fresh(oldKeys) && fresh(newKeys) && fresh(${M}) && isArr(${M}) && isPtr(${M}) && newChildren === ${Lf} && allocated(${M}) && oldChildren !== ${M} && oldChildren !== ${Lf} && ${M} !== ${Lf}`,
  'entries are counted': `${M}.length >= 0`,
  'the lists are kept': `${Lf}.length === llen(${els})`,
};
const progress = {
  ...entriesOf(M),
  'finished old children have an entry': `${F}((j: Int) => implies(${doneOld('j')}, ${oldDone(M, 'j')}), [kidAt(${R}, j)])`,
  'finished new children have an entry': `${F}((i: Int) => implies(${doneNew('i')}, ${newDone(M, 'i')}), [elAt(${els}, i)], [$mn[${M}][i]])`,
  'other old children have none': `${F}((j: Int) => implies(${todoOld('j')}, $mo[${M}][kidAt(${R}, j)] === asRef(nil())), [kidAt(${R}, j)], [$mo[${M}][kidAt(${R}, j)]])`,
  'other new children have none': `${F}((i: Int) => implies(${todoNew('i')}, $mn[${M}][i] === asRef(nil())), [elAt(${els}, i)], [$mn[${M}][i]])`,
  'finished new and other old children do not match': `${F}((i: Int, j: Int) => implies(${doneNew('i')} && ${todoOld('j')}, !${match('i', 'j')}), [[elAt(${els}, i), kidAt(${R}, j)]])`,
  'other new and finished old children do not match': `${F}((i: Int, j: Int) => implies(${todoNew('i')} && ${doneOld('j')}, !${match('i', 'j')}), [[elAt(${els}, i), kidAt(${R}, j)]])`,
};
const maps = {
  'the map of new keys': kmap('newKeyToIndexMap', 'newKeys', 'newHead', 'newTail'),
  'the map of old keys': kmap('oldKeyToIndexMap', 'oldKeys', 'oldHead', 'oldTail'),
};
const keptTree = { ...kept, ...grows };
const listInv = { ...shape, ...progress, ...keptTree };
// Every entry of a list of mutations is recorded in ghost state when it is pushed.
const onPush = (v, self, args, st, cx) => {
  for (const m of args) {
    if (m.s !== 'Ref') continue;
    const sc = { spec: true, env: undefined, module: cx.module, self: cx.self, bound: new Map([['m', { s: 'Ref', t: m.t, h: { k: 'class', name: 'Mutation' } }]]), old: st };
    const len = `(select ${v.heap(st, 'len').name} ${self.t})`;
    const at = (g, key, when) => {
      const h = v.heap(st, `g:${g}`).name;
      const k = v.specEval(key, st, sc).t;
      const w = v.specBool(when, st, sc);
      v.hset(st, `g:${g}`, v.newConst(g, v.opts.ghosts[g], `(ite ${w} (store ${h} ${self.t} (store (select ${h} ${self.t}) ${k} ${len})) ${h})`));
      v.onWrite?.(`g:${g}`, 'ghost', st);
    };
    at('mo', 'isRem(m) ? asRef(m.node) : asRef(m.oldNode)', '!isIns(m)');
    at('mn', 'isIns(m) ? m.node.index : m.index', '!isRem(m)');
  }
};
export const listContracts = {
  buildKeyToIndexMap: {
    paramTypes: { keys: 'array:Val', head: 'Int', tail: 'Int' },
    returns: 'Map<unknown, number>', freshResult: true, fresh: ['dom', 'mval'],
    requires: { 'a range of the keys': '0 <= head && tail < keys.length' },
    loops: [{ name: 'range', inv: {
      'the cursor': 'head <= i && (i <= tail + 1 || i === head)',
      'keys so far': `${F}((k: Int) => implies(head <= k && k < i, has(keyToIndexMap, nk(keys[k]))), [keys[k]])`,
      'nothing else': `${F}((v: Val) => implies(has(keyToIndexMap, v), head <= at(keyToIndexMap, v) && at(keyToIndexMap, v) < i && nk(keys[at(keyToIndexMap, v)]) === v), [has(keyToIndexMap, v)])`,
      'a new map': 'fresh(keyToIndexMap) && allocated(keyToIndexMap)',
    }, dec: 'tail + 1 - i' }],
    ensures: {
      'every key of the range': `${F}((k: Int) => implies(head <= k && k <= tail, has(result, nk(keys[k]))), [keys[k]])`,
      'no other key, and the position': `${F}((v: Val) => implies(has(result, v), head <= at(result, v) && at(result, v) <= tail && nk(keys[at(result, v)]) === v), [has(result, v)])`,
    },
  },
  'Runtime._diffChildren': {
    paramTypes: { newParent: 'RenderNode', newElements: 'array:VNode', scope: 'Scope' },
    returns: 'array:Mutation', freshResult: true, allocates: true, fresh: NODE, split: 'statements',
    requires: {
      ...trees,
      'the lists': `isPtr(newParent) && allocated(newParent) && isPtr(scope) && allocated(scope) && isPtr(newParent.part) && isPtr(${R}) && isArr(${R}) && allocated(${R}) && isPtr(${els}) && isArr(${els}) && allocated(${els}) && isPtr(${Lf}) && isArr(${Lf}) && allocated(${Lf}) && ${Lf} !== ${R} && ${Lf} !== ${els} && ${Lf}.length === llen(${els})`,
      'the new children are in a list of their own': `!listed(${Lf})`,
      'the old children are committed': `${F}((j: Int) => implies(0 <= j && j < llen(${R}), isCm(kidAt(${R}, j))), [kidAt(${R}, j)])`,
      'the positions of the old children': `${F}((j: Int) => implies(0 <= j && j < llen(${R}), ord(${R}, kidAt(${R}, j)) === j), [kidAt(${R}, j)])`,
      'the elements': `${F}((i: Int) => implies(0 <= i && i < llen(${els}), isEl(elAt(${els}, i))), [elAt(${els}, i)])`,
      'the lists of a node and an element': `listed(${R}) && listed(${els})`,
      'old keys are distinct': `${F}((a: Int, b: Int) => implies(0 <= a && a < b && b < llen(${R}), !same(kidAt(${R}, a).key, kidAt(${R}, b).key)), [[kidAt(${R}, a), kidAt(${R}, b)]])`,
      'new keys are distinct': `${F}((a: Int, b: Int) => implies(0 <= a && a < b && b < llen(${els}), !same(elAt(${els}, a).key, elAt(${els}, b).key)), [[elAt(${els}, a), elAt(${els}, b)]])`,
    },
    modifies: [`elems(${Lf})`, '*.mutations', '*.scope', ...ghostMods],
    loops: [
      { name: 'old keys', outEl: 'Val', inv: { a: `$out.length === $i && fresh($out)`, b: `${F}((j: Int) => implies(0 <= j && j < $i, $out[j] === kidAt(${R}, j).key), [$out[j]])` } },
      { name: 'new keys', outEl: 'Val', inv: { a: `$out.length === $i && fresh($out)`, b: `${F}((j: Int) => implies(0 <= j && j < $i, $out[j] === elAt(${els}, j).key), [$out[j]])` } },
      { name: 'main', inv: { ...listInv, ...maps }, dec: '(oldTail + 1 - oldHead) + (newTail + 1 - newHead)' },
      { name: 'removals', inv: { ...listInv, 'no new child is left': 'newHead > newTail' }, dec: 'oldTail + 1 - oldHead' },
      { name: 'insertions', inv: { ...listInv, 'no old child is left': 'oldHead > oldTail' }, dec: 'newTail + 1 - newHead' },
    ],
    ensures: { ...listPost('result'), ...grows, ...kept },
  },
  '*.splitPart': { assumed: 'makes a part (proved with the parts)', returns: 'Part', allocates: true, ensures: { a: 'isPtr(result)' } },
};
// ---------------------------------------------------------------- nodes
const same = 'sameVal(oldNode.type, newElement.type) && sameVal(oldNode.key, newElement.key)';
const slots = (e, part) => ({
  'for its element': `result.type === ${e}.type && result.props === ${e}.props && sameVal(result.key, ${e}.key) && result.index === index && asRef(result.parent) === asRef(parent) && asRef(result.part) === asRef(${part})`,
});
export const nodeContracts = {
  'Scope.enter': {
    assumed: 'proved with C10 (Scope.enter, Scope.constructor)', returns: 'Scope', paramTypes: { owner: 'Ref' }, freshResult: true, allocates: true,
    ensures: { a: 'asRef(result.parent) === asRef(this) && asRef(result.owner) === owner && result.level === this.level + 1' },
  },
  '*.createInstance': {
    assumed: 'makes the instance of a component', returns: 'ComponentInstance', freshResult: true, allocates: true,
    ensures: { a: 'isPtr(result)' },
  },
  'ComponentInstance.render': {
    assumed: 'a component renders to an element tree; it neither commits nor writes committed nodes while it renders', returns: 'VNode', allocates: true, fresh: NODE,
    modifies: ghostMods,
    ensures: { a: 'isEl(result) && $ret[this][result]', ...grows, ...kept },
  },
  '*.arePropsEqual': { assumed: 'a pure comparison', paramTypes: { oldProps: 'Val', newProps: 'Val' }, params: ['oldProps', 'newProps'], returns: 'Bool', ensures: { a: 'result === eqProps(this, oldProps, newProps)' } },
  '*.renderTemplate': { assumed: 'HostAdapter: a block has a part for every child of its element (proved with the templates)', params: ['template'], paramTypes: { template: 'VNode' }, returns: 'Block', freshResult: true, allocates: true, ensures: { a: 'isPtr(result) && isPtr(result.parts) && allocated(result.parts) && result.parts.length === llen(template.children) && forall((i: Int) => implies(0 <= i && i < result.parts.length, isPtr(result.parts[i])), [result.parts[i]])' } },
  '*.renderPortal': { assumed: 'HostAdapter: a block has a part for every child of its element (proved with the portals)', params: ['portal'], paramTypes: { portal: 'VNode' }, returns: 'Block', freshResult: true, allocates: true, ensures: { a: 'isPtr(result) && isPtr(result.parts) && allocated(result.parts) && result.parts.length === llen(portal.children) && forall((i: Int) => implies(0 <= i && i < result.parts.length, isPtr(result.parts[i])), [result.parts[i]])' } },
  'Runtime.render': {
    paramTypes: { element: 'VNode', scope: 'Scope', parent: 'Ref', part: 'Part' }, split: 'statements',
    returns: 'RenderNode', freshResult: true, allocates: true, fresh: NODE,
    requires: { ...trees, 'an element': 'isEl(element) && isPtr(scope) && allocated(scope) && isPtr(part)' },
    modifies: ghostMods,
    ghostExit: { df: 'store($df, result, store($df[result], tup(nil(), element, scope), true))' },
    loops: [
      { name: 'children of a fragment', inv: { range: '0 <= i && l === llen(element.children)', 'a new node': 'fresh(node) && fresh(node.left) && node.left.length === l && !listed(node.left)', 'children so far': `${F}((k: Int) => implies(0 <= k && k < i, made(node.left[k], nil(), elAt(element.children, k), scope)), [node.left[k]])`, ...keptTree }, dec: 'l - i' },
      { name: 'children of a block', inv: { range: '0 <= i && l === llen(element.children)', 'a part for every child': 'isPtr(block) && isPtr(block.parts) && allocated(block.parts) && block.parts.length === l && forall((k: Int) => implies(0 <= k && k < l, isPtr(block.parts[k])), [block.parts[k]])', 'a new node': 'fresh(node) && fresh(node.left) && node.left.length === l && !listed(node.left)', 'children so far': `${F}((k: Int) => implies(0 <= k && k < i, made(node.left[k], nil(), elAt(element.children, k), scope)), [node.left[k]])`, ...keptTree }, dec: 'l - i' },
    ],
    ensures: {
      'made of the element': 'made(result, nil(), element, scope)',
      'at its position': 'result.index === index',
      ...grows, ...kept,
    },
    exits: {
      ...slots('element', 'part'),
      'nothing is committed': 'fresh(result.left) && fresh(result.right) && result.right.length === 0',
      'a value has no children': 'implies(element.type === asVal(Bind), result.left.length === 0)',
      'every child of a list is mounted': `implies(element.type === asVal(Fragment), result.left.length === llen(element.children) && fresh(result.state) && ${F}((k: Int) => implies(0 <= k && k < llen(element.children), made(result.left[k], nil(), elAt(element.children, k), scope)), [result.left[k]]))`,
      'every child of a block is mounted': `implies(isBlock(element.type), result.left.length === llen(element.children) && isPtr(result.state.block) && ${F}((k: Int) => implies(0 <= k && k < llen(element.children), made(result.left[k], nil(), elAt(element.children, k), scope)), [result.left[k]]))`,
      'a component is mounted with a new instance': 'implies(isComp(element.type), result.left.length === 1 && fresh(result.state) && fresh(result.state.instance) && asRef(result.state.scope) === asRef(scope) && exists((e: VNode, s: Scope) => $ret[result.state.instance][e] && made(result.left[0], nil(), e, s) && asRef(s.parent) === asRef(scope) && fresh(s) && s.level === scope.level + 1, [tup(nil(), e, s)]))',
    },
  },
  'Runtime.diff': {
    paramTypes: { oldNode: 'RenderNode', newElement: 'VNode', scope: 'Scope', parent: 'Ref' }, split: 'statements',
    returns: 'RenderNode', allocates: true, fresh: NODE,
    requires: { ...trees, 'a committed node, an element': 'isCm(oldNode) && isEl(newElement) && isPtr(scope) && allocated(scope)' },
    modifies: ['*.mutations', '*.scope', ...ghostMods],
    ghostExit: { df: 'store($df, result, store($df[result], tup(oldNode, newElement, scope), true))' },
    loops: [
      { name: 'children of a block', inv: { range: '0 <= i && l === llen(newElement.children)', 'a new node': 'fresh(newNode) && fresh(newNode.left) && newNode.left.length === l && !listed(newNode.left)', 'children so far': `${F}((k: Int) => implies(0 <= k && k < i, made(newNode.left[k], kidAt(oldNode.right, k), elAt(newElement.children, k), scope)), [newNode.left[k]])`, ...keptTree }, dec: 'l - i' },
    ],
    ensures: {
      'made of the node and the element': 'made(result, oldNode, newElement, scope)',
      ...grows, ...kept,
    },
    exits: {
      'another type or key: mounted anew': `implies(!(${same}), made(result, nil(), newElement, scope) && fresh(result))`,
      'the same element: nothing changes': `implies(${same} && oldNode.props === newElement.props, result === oldNode)`,
      'a node is reused only for the same props': `implies(${same} && result === oldNode && !isComp(newElement.type), oldNode.props === newElement.props)`,
      'a component is reused only for equal props and without pending updates': `implies(${same} && result === oldNode && isComp(newElement.type), oldNode.props === newElement.props || (old(oldNode.state.instance.pendingLanes) & this._flushLanes) === NoLanes && eqProps(newElement.type, oldNode.props, newElement.props))`,
      ...Object.fromEntries(Object.entries(slots('newElement', 'oldNode.part')).map(([k, e]) => [`updated ${k}`, `implies(${same} && result !== oldNode, fresh(result) && ${e})`])),
      'an updated node keeps its identity': `implies(${same} && result !== oldNode, asRef(result.state) === asRef(oldNode.state) && asRef(result.right) === asRef(oldNode.right) && fresh(result) )`,
      'every child of a block is updated': `implies(${same} && result !== oldNode && isBlock(newElement.type), result.left.length === llen(newElement.children) && ${F}((k: Int) => implies(0 <= k && k < llen(newElement.children), made(result.left[k], kidAt(oldNode.right, k), elAt(newElement.children, k), scope)), [result.left[k]]))`,
      'a component is rendered and its child updated': `implies(${same} && result !== oldNode && isComp(newElement.type), result.left.length === 1 && asRef(result.state.scope) === asRef(scope) && exists((e: VNode, s: Scope) => $ret[oldNode.state.instance][e] && made(result.left[0], kidAt(oldNode.right, 0), e, s) && asRef(s.parent) === asRef(scope) && fresh(s) && s.level === scope.level + 1, [tup(kidAt(oldNode.right, 0), e, s)]))`,
      ...Object.fromEntries(Object.entries(listPost('result.state.mutations')).map(([k, e]) => [`list: ${k}`, `implies(${same} && result !== oldNode && newElement.type === asVal(Fragment), ${e.replaceAll('newElements', 'newElement.children').replaceAll('newParent', 'result')})`])),
    },
  },
};
const setFacts = (v, r, st) => {
  st.assume(`(not (listed ${r}))`);
  for (const g of ['mo', 'mn']) st.assume(`(= (select ${v.heap(st, `g:${g}`).name} ${r}) ((as const (Array Int Int)) 0))`);
};
export const frozen = ['type', 'props', 'key', 'children', 'index', 'parent', 'part', 'left', 'right', 'state', 'instance', 'block', 'node', 'oldNode', 'newNode', 'afterNode', 'owner', 'level', 'instances', 'parts'];
export const treeOpts = { frozen, onArray: setFacts, onPush, fieldSorts: treeSorts, ghosts: treeGhosts, decls: treeDecls, axioms: treeAxioms, specFns: treeSpecFns };
