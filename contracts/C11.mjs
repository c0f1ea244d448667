// C11: every hole is bound to the node at its path.
//
// The tree of nodes, as long as it is not changed: first, next and up are the
// first child, the next sibling and the parent of a node (0: none), nth(n, i)
// is the i-th child of a node, at(r, P, k) the node which the first k steps of
// the path P lead to from r, and succ(n) the next node in document order, which
// is the first child or else follow(n), the next one behind the subtree.
const AI = '(Array Int Int)';
const decls = `(define-fun isPtr ((r Int)) Bool (> r 0))
(declare-fun first (Int) Int)
(declare-fun next (Int) Int)
(declare-fun up (Int) Int)
(declare-fun nth (Int Int) Int)
(declare-fun at (Int ${AI} Int) Int)
(declare-fun follow (Int) Int)
(declare-fun lower (Str) Str)
(declare-fun tail (Str) Str)
(define-fun succ ((n Int)) Int (ite (not (= (first n) 0)) (first n) (follow n)))`;
const defs = [
  '(forall ((n Int)) (! (>= (first n) 0) :pattern ((first n))))',
  '(forall ((n Int)) (! (>= (next n) 0) :pattern ((next n))))',
  '(forall ((n Int)) (! (>= (up n) 0) :pattern ((up n))))',
  '(forall ((n Int)) (! (= (nth n 0) (first n)) :pattern ((nth n 0)) :pattern ((first n))))',
  '(forall ((n Int) (i Int)) (! (=> (<= 0 i) (= (nth n (+ i 1)) (ite (= (nth n i) 0) 0 (next (nth n i))))) :pattern ((nth n (+ i 1))) :pattern ((next (nth n i)))))',
  '(forall ((n Int) (i Int)) (! (=> (and (<= 0 i) (not (= (nth n i) 0))) (= (up (nth n i)) n)) :pattern ((nth n i))))',
  '(forall ((i Int)) (! (= (nth 0 i) 0) :pattern ((nth 0 i))))',
  `(forall ((r Int) (P ${AI})) (! (= (at r P 0) r) :pattern ((at r P 0))))`,
  `(forall ((r Int) (P ${AI}) (k Int)) (! (=> (<= 0 k) (= (at r P (+ k 1)) (nth (at r P k) (select P k)))) :pattern ((at r P (+ k 1))) :pattern ((at r P k) (select P k))))`,
  '(forall ((n Int)) (! (= (follow n) (ite (not (= (next n) 0)) (next n) (ite (= (up n) 0) 0 (follow (up n))))) :pattern ((follow n))))',
];
// by induction (lemmas below)
const derived = [
  '(forall ((n Int) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (= (nth n i) 0)) (= (nth n j) 0)) :pattern ((nth n i) (nth n j))))',
  `(forall ((r Int) (P ${AI}) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (= (at r P i) 0)) (= (at r P j) 0)) :pattern ((at r P i) (at r P j))))`,
  `(forall ((r Int) (P ${AI}) (m Int) (x Int) (k Int)) (! (=> (and (<= 0 k) (<= k m)) (= (at r (store P m x) k) (at r P k))) :pattern ((at r (store P m x) k))))`,
];
const script = (axioms, facts, goal) => `(declare-sort Str 0)
${decls}
(declare-const n Int)
(declare-const r Int)
(declare-const i Int)
(declare-const j Int)
(declare-const k Int)
(declare-const m Int)
(declare-const x Int)
(declare-const P ${AI})
${[...axioms, ...facts].map((a) => `(assert ${a})`).join('\n')}
(assert (not ${goal}))
(check-sat)`;
const induct = (name, P, from, facts) => [
  { name: `${name} (beginning)`, script: script(defs, facts, P(from)) },
  { name: `${name} (step)`, script: script(defs, [...facts, `(<= ${from} j)`, P('j')], P('(+ j 1)')) },
];
const lemmas = [
  ...induct('there is no child behind the last one', (x) => `(= (nth n ${x}) 0)`, 'i', ['(<= 0 i)', '(= (nth n i) 0)']),
  ...induct('a path that leads nowhere ends nowhere', (x) => `(= (at r P ${x}) 0)`, 'i', ['(<= 0 i)', '(= (at r P i) 0)']),
  ...induct('a path is led by its own steps', (x) => `(=> (<= ${x} m) (= (at r (store P m x) ${x}) (at r P ${x})))`, '0', []),
];
const specFns = {
  isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' },
  ...Object.fromEntries(['first', 'next', 'up', 'follow', 'succ'].map((f) => [f, { smt: f, args: ['Ref'], ret: 'Ref' }])),
  nth: { smt: 'nth', args: ['Ref', 'Int'], ret: 'Ref' },
  at_: { smt: 'at', args: ['Ref', null, 'Int'], ret: 'Ref' },
  lower: { smt: 'lower', args: ['Str'], ret: 'Str' },
  root: { params: [], expr: "typed($root, 'Node')" },
  isKind: { params: ['hole'], types: ['Hole'], expr: 'hole.type === HoleType.ATTRIBUTE || hole.type === HoleType.CHILD_NODE || hole.type === HoleType.ELEMENT || hole.type === HoleType.EVENT || hole.type === HoleType.LIVE || hole.type === HoleType.PROPERTY || hole.type === HoleType.TEXT' },
  ends: { params: ['p'], types: ['array:Int'], expr: 'at_(root(), elems(p), p.length)' },
  steps: { params: ['p'], types: ['array:Int'], expr: 'isPtr(p) && p.length >= 0 && forall((i: Int) => implies(0 <= i && i < p.length, p[i] >= 0), [p[i]])' },
};
const opts = {
  decls, axioms: [...defs, ...derived], specFns, primitives: true, strings: true,
  ghosts: { root: 'Int', kids: 'Int', placed: 'Int' },
  fieldSorts: { path: 'array:Int', node: 'Ref!', type: 'Int', name: 'Str', _node: 'Ref!', _name: 'Str', _holes: 'array:Hole', _template: 'Ref!', _fragment: 'Ref', _parts: 'array:Ref', _staticNodes: 'array:Ref', ownerDocument: 'Ref!', childNodes: 'Nodes', length: 'Int' },
};
const dom = {
  'get *.firstChild': { assumed: 'the first child', get: 'first(this)', type: '?Node' },
  'get *.nextSibling': { assumed: 'the next sibling', get: 'next(this)', type: '?Node' },
  'get *.parentNode': { assumed: 'the parent', get: 'up(this)', type: '?Node' },
};
const strings = {
  'String.toLowerCase': { assumed: 'the text in lower case', params: [], value: 'lower(this)', returns: 'Str' },
};
const O = 'elems(oldPath)';
const N = 'elems(newPath)';
const navigateNode = {
  paramTypes: { initialNode: 'Node', oldPath: 'array:Int', newPath: 'array:Int' }, returns: '?Node',
  requires: {
    'paths': 'steps(oldPath) && steps(newPath)',
    'the node is at the old path': 'isPtr(initialNode) && asRef(initialNode) === ends(oldPath)',
  },
  loops: [
    { name: 'common steps', inv: {
      range: '0 <= prefixIndex && prefixIndex <= oldPath.length && prefixIndex <= newPath.length',
      'the paths agree': `at_(root(), ${O}, prefixIndex) === at_(root(), ${N}, prefixIndex)`,
    } },
    { name: 'up', inv: {
      range: 'prefixIndex - 1 <= i && i < oldPath.length',
      'the node of the old path': `isPtr(currentNode) && asRef(currentNode) === at_(root(), ${O}, i + 1)`,
      'the step that leads from there': `i === oldPath.length - 1 ? pivotNode === null : isPtr(pivotNode) && asRef(pivotNode) === at_(root(), ${O}, i + 2) && pivotIndex === oldPath[i + 1]`,
    } },
    { name: 'right', inv: {
      range: 'pivotIndex <= i && i <= targetIndex && isPtr(currentNode)',
      'the i-th child': `asRef(currentNode) === nth(at_(root(), ${N}, prefixIndex), i)`,
    } },
    { name: 'down', inv: {
      range: '0 <= i && i <= newPath.length && isPtr(currentNode)',
      'the node of the new path': `asRef(currentNode) === at_(root(), ${N}, i)`,
    } },
    { name: 'right in a deeper level', inv: {
      range: '0 <= j && j <= targetIndex && isPtr(currentNode)',
      'the j-th child': `asRef(currentNode) === nth(at_(root(), ${N}, i), j)`,
    } },
  ],
  ensures: { 'the node at the new path': 'result === ends(newPath) && (result === null || isPtr(result))' },
};
const advanceCursor = {
  paramTypes: { cursor: 'Cursor' }, returns: '?Node',
  requires: {
    'a root': 'isPtr(root()) && up(root()) === null && next(root()) === null',
    'the cursor': 'isPtr(cursor) && steps(cursor.path) && isPtr(cursor.node) && cursor.node === ends(cursor.path)',
  },
  modifies: ['cursor.node', 'elems(cursor.path)'],
  loops: [{ name: 'out', inv: {
    'the path': 'steps(cursor.path) && isPtr(currentNode) && asRef(currentNode) === ends(cursor.path)',
    'what follows': 'follow(currentNode) === follow(old($cursor.node))',
  } }],
  ensures: {
    'the next node in document order': 'result === succ(old(cursor.node))',
    'the cursor': 'implies(isPtr(result), steps(cursor.path) && cursor.node === asRef(result) && cursor.node === ends(cursor.path))',
  },
};
// const enum HoleType
const HOLES = 'this._holes';
const cls = (c, named = true) => `isClass(result, '${c}') && result._node === node${named ? ' && result._name === hole.name' : ''}`;
const kinds = [
  ['class', 'hole.type === HoleType.ATTRIBUTE && lower(hole.name) === "class"', cls('ClassPart')],
  ['style', 'hole.type === HoleType.ATTRIBUTE && lower(hole.name) === "style"', cls('StylePart')],
  ['attribute', 'hole.type === HoleType.ATTRIBUTE && lower(hole.name) !== "class" && lower(hole.name) !== "style"', cls('AttributePart')],
  ['child node', 'hole.type === HoleType.CHILD_NODE', cls('ChildNodePart', false)],
  ['element', 'hole.type === HoleType.ELEMENT', cls('ElementPart', false)],
  ['event', 'hole.type === HoleType.EVENT', cls('EventPart')],
  ['live', 'hole.type === HoleType.LIVE', cls('LivePart')],
  ['property', 'hole.type === HoleType.PROPERTY', cls('PropertyPart')],
  ['text', 'hole.type === HoleType.TEXT', cls('CharacterDataPart', false)],
];
const resolvePart = {
  paramTypes: { hole: 'Hole', node: 'Node' }, returns: 'Ref!', allocates: true, fresh: ['_node', '_name'],
  requires: { 'a kind of hole': 'isKind(hole)' },
  ensures: Object.fromEntries(kinds.map(([nm, c, e]) => [`${nm} hole`, `implies(${c}, ${e})`])),
};
// the k-th part made for the k-th hole
const nth_ = (e) => e.replaceAll('result', `${'PARTS'}[k]`).replaceAll('hole', 'this._holes[k]').replaceAll(/\bnode\b/g, 'ends(this._holes[k].path)');
const partOf = (parts, n) => Object.fromEntries(kinds.map(([nm, c, e]) => [`${nm} holes`,
  `forall((k: Int) => implies(0 <= k && k < ${n} && ${nth_(c)}, ${nth_(e)}), [this._holes[k]], [${parts}[k]])`.replaceAll('PARTS', parts)]));
const template = `isPtr(this._template) && isPtr(this._template.ownerDocument) && forall((k: Int) => implies(0 <= k && k < this._holes.length, isPtr(this._holes[k]) && isKind(this._holes[k]) && steps(this._holes[k].path)), [this._holes[k]])`;
const render = {
  returns: 'DOMBlock', freshResult: true, allocates: true, fresh: ['_node', '_name', '_fragment', '_parts', '_staticNodes', 'len', 'elems:Ref'],
  modifies: ['$root', '*.length', '$kids', '$placed'], entry: { placed: '0' },
  requires: { 'a parsed template': template },
  loops: [{ name: 'holes', inv: {
    range: '0 <= i && i <= $this._holes.length && fresh(parts) && (parts.length === $this._holes.length || parts.length === i)',
    'the holes': 'holes === $this._holes',
    'the paths': template.replaceAll('this.', '$this.'),
    'the current node': 'isPtr(currentNode) && steps(currentPath) && asRef(currentNode) === ends(currentPath)',
    'every hole so far leads to a node': 'forall((k: Int) => implies(0 <= k && k < i, isPtr(ends($this._holes[k].path))), [$this._holes[k]])',
    ...partOf('parts', 'i'),
  } }],
  throws: true,
  throwsEnsures: { 'some hole leads nowhere': '!forall((k: Int) => implies(0 <= k && k < this._holes.length, isPtr(ends(this._holes[k].path))), [this._holes[k]])' },
  ensures: {
    'one part for each hole': 'result._parts.length === this._holes.length',
    'a placeholder, if there is no child or the first one is a hole': `$placed === ($kids === 0 || this._holes.length > 0 && this._holes[0].type === HoleType.CHILD_NODE && this._holes[0].path.length === 1 && this._holes[0].path[0] === 0 ? 1 : 0)`,
    'made of a copy of the template': 'result._fragment === root() && fresh(root())',
    ...partOf('result._parts', 'this._holes.length'),
  },
};
const block = {
  paramTypes: { fragment: 'Ref!', parts: 'array:Ref' }, fresh: ['_fragment', '_parts', '_staticNodes', 'len', 'elems:Ref'], allocates: true,
  modifies: ['this._fragment', 'this._parts', 'this._staticNodes'], throws: 'fragment.childNodes.length === 0', requires: { 'a fragment': 'isPtr(fragment) && isPtr(fragment.childNodes)' },
  ensures: { 'the fragment and the parts': 'this._fragment === fragment && this._parts === parts' },
};
const host = {
  '*.importNode': { assumed: 'a deep copy of the template, which is a root without siblings', params: ['node', 'deep'], returns: 'Ref!', freshResult: true, modifies: ['$root', '$kids'],
    requires: { 'a deep copy': 'deep === true' },
    ensures: { a: 'root() === result && isPtr(result) && up(result) === null && next(result) === null && isPtr(result.childNodes) && $kids === result.childNodes.length' } },
  '*.createComment': { assumed: 'a new comment', params: ['data'], returns: 'Ref!', freshResult: true },
  '*.prepend': { assumed: 'inserts the placeholder (after the parts have been bound)', params: ['node'], modifies: ['*.length', '$placed'], requires: { 'into the copy': 'this === root()' }, ensures: { a: '$placed === old($placed) + 1 && this.childNodes.length > 0' } },
  'ext Array.from': { assumed: 'an array of the nodes', params: ['list'], returns: 'array:Ref', freshResult: true, fresh: ['len', 'elems:Ref'] },
  'DOMAdapterError.withNode': { assumed: 'makes an error', params: ['node', 'm'], returns: 'Ref!', allocates: true },
};
// Attribute holes: isHole(a, n, m)  the attribute n among the attributes a of an
// element is a hole (m: the marker), cnt(a, N, m, i)  how many of the first i
// names are
const AB = '(Array Str Str)';
const attrDecls = `(define-fun isPtr ((r Int)) Bool (> r 0))
(declare-fun attrName (Str) Str)
(declare-fun emptyStr (Int) Str)
(define-fun isHole ((a ${AB}) (n Str) (m Str)) Bool (or (and (= n m) (= (select a n) (emptyStr 0))) (= (select a n) m)))
(declare-fun cnt (${AB} (Array Int Str) Str Int) Int)
(define-fun holeAt ((a ${AB}) (N (Array Int Str)) (m Str) (i Int)) Bool (isHole a (select N i) m))`;
const attrAxioms = [
  `(forall ((a ${AB}) (N (Array Int Str)) (m Str)) (! (= (cnt a N m 0) 0) :pattern ((cnt a N m 0))))`,
  `(forall ((a ${AB}) (N (Array Int Str)) (m Str) (i Int)) (! (=> (<= 0 i) (= (cnt a N m (+ i 1)) (+ (cnt a N m i) (ite (holeAt a N m i) 1 0)))) :pattern ((cnt a N m (+ i 1))) :pattern ((cnt a N m i) (select N i))))`,
];
// by induction (lemmas below)
const attrDerived = `(forall ((a ${AB}) (N (Array Int Str)) (m Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (< i j)) (<= (+ (cnt a N m i) (ite (holeAt a N m i) 1 0)) (cnt a N m j))) :pattern ((cnt a N m i) (cnt a N m j))))`;
const attrScript = (facts, goal) => `(declare-sort Str 0)
${attrDecls}
(declare-const a ${AB})
(declare-const N (Array Int Str))
(declare-const m Str)
(declare-const i Int)
(declare-const j Int)
${[...attrAxioms, '(<= 0 i)', ...facts].map((x) => `(assert ${x})`).join('\n')}
(assert (not ${goal}))
(check-sat)`;
const grows = (x) => `(<= (+ (cnt a N m i) (ite (holeAt a N m i) 1 0)) (cnt a N m ${x}))`;
const attrLemmas = [
  { name: 'counting holes (beginning)', script: attrScript([], grows('(+ i 1)')) },
  { name: 'counting holes (step)', script: attrScript(['(< i j)', grows('j')], grows('(+ j 1)')) },
];
const C = (i) => `cnt($attr[$element], $names, $marker, ${i})`;
const el = (i) => `($names[${i}] === $marker && $attr[$element][$names[${i}]] === "")`;
const hole = (i) => `(${el(i)} || $attr[$element][$names[${i}]] === $marker)`;
const CS = `attrName($strings[old($holes.length) + ${C('k')}])`;
const H = `$holes[old($holes.length) + ${C('k')}]`;
const EL = el('k');
const attrHoles = (n) => Object.fromEntries([
  ['element', EL, `${H}.type === HoleType.ELEMENT`],
  ...[['event', '@', 'EVENT'], ['live', '$', 'LIVE'], ['property', '.', 'PROPERTY']].map(([nm, ch, t]) => [nm, `!${EL} && is(${CS}[0], '${ch}')`, `${H}.type === HoleType.${t} && ${H}.name === ${CS}.slice(1)`]),
  ['attribute', `!${EL} && !is(${CS}[0], '@') && !is(${CS}[0], '$') && !is(${CS}[0], '.')`, `${H}.type === HoleType.ATTRIBUTE && ${H}.name === ${CS}`],
].map(([nm, c, e]) => [`${nm} holes`, `forall((k: Int) => implies(0 <= k && k < ${n} && ${hole('k')} && ${c}, ${e}), [${C('k')}])`]));
const attrCommon = (n) => ({
  'as many as there are holes among the attributes': `$holes.length === old($holes.length) + ${C(n)} && ${C(n)} >= 0`,
  'earlier holes are kept': 'forall((j: Int) => implies(0 <= j && j < old($holes.length), $holes[j] === old($holes[j])), [$holes[j]])',
  'in order, on the element': `forall((k: Int) => implies(0 <= k && k < ${n} && ${hole('k')}, isPtr(${H}) && fresh(${H}) && fresh(${H}.path) && samePath(${H}.path, $path)), [${C('k')}])`,
  ...attrHoles(n),
});
const collectAttributeHoles = {
  paramTypes: { element: 'Element', strings: 'array:Str', marker: 'Str', holes: 'array:Hole', path: 'array:Int' },
  requires: {
    'distinct arrays': 'asRef(holes) !== asRef(path) && asRef(holes) !== asRef(strings) && isPtr(holes) && isPtr(path) && isPtr(strings) && isPtr(element) && holes.length >= 0 && path.length >= 0',
    'a string for each hole': 'holes.length + cnt($attr[element], $names, marker, $count) <= strings.length',
    'the empty string': 'emptyStr(0) === ""',
    'nothing removed yet': 'forall((j: Int) => implies(0 <= j && j < $count, !$removed[$names[j]]), [$names[j]])',
    'names of the attributes': '$count >= 0 && forall((i: Int, j: Int) => implies(0 <= i && i < j && j < $count, $names[i] !== $names[j]), [[$names[i], $names[j]]])',
  },
  modifies: ['elems(holes)', '$removed'], fresh: ['type', 'path', 'name', 'len', 'elems:Int', 'elems:Str'], allocates: true,
  loops: [{ name: 'attributes', inv: {
    range: '0 <= $i && $i <= $count && $arr.length === $count && elems($arr) === $names',
    'the path is kept': 'elems($path) === old(elems($path)) && $path.length === old($path.length)',
    ...attrCommon('$i'),
    'removed so far': `forall((j: Int) => implies(0 <= j && j < $count, $removed[$names[j]] === (j < $i && ${hole('j')})), [$names[j]])`,
  } }],
  ensures: {
    ...attrCommon('$count'),
    'exactly the holes are removed': `forall((j: Int) => implies(0 <= j && j < $count, $removed[$names[j]] === ${hole('j')}), [$names[j]])`,
  },
};
const attrFns = {
  isPtr: specFns.isPtr,
  cnt: { smt: 'cnt', args: [null, null, 'Str', 'Int'], ret: 'Int' },
  emptyStr: { smt: 'emptyStr', args: ['Int'], ret: 'Str' },
  attrName: { smt: 'attrName', args: ['Str'], ret: 'Str' },
  samePath: { params: ['a', 'b'], types: ['array:Int', 'array:Int'], expr: 'a.length === b.length && forall((q: Int) => implies(0 <= q && q < b.length, a[q] === b[q]), [a[q]])' },
};
const attrOpts = {
  decls: attrDecls, axioms: [...attrAxioms, attrDerived], specFns: attrFns, primitives: true,
  ghosts: { attr: `(Array Int ${AB})`, names: '(Array Int Str)', count: 'Int', removed: '(Array Str Bool)' },
  fieldSorts: { path: 'array:Int', type: 'Int', name: 'Str' },
};
const attrHost = {
  '*.getAttributeNames': { caller: true, assumed: 'a new array of the distinct names of the attributes in order', params: [], returns: 'array:Str', freshResult: true, fresh: ['len', 'elems:Str'], requires: { 'of the element': 'this === $element' }, ensures: { a: 'result.length === $count && elems(result) === $names' } },
  '*.getAttribute': { caller: true, assumed: 'the value of an attribute', params: ['name'], paramTypes: { name: 'Str' }, returns: 'Str', requires: { 'of the element': 'this === $element' }, ensures: { a: 'result === $attr[$element][name]' } },
  '*.removeAttribute': { caller: true, assumed: 'removes an attribute', params: ['name'], paramTypes: { name: 'Str' }, modifies: ['$removed'], requires: { 'of the element': 'this === $element' }, ensures: { a: '$removed === store(old($removed), name, true)' } },
  extractAttributeName: { assumed: 'the name of the attribute at the end of the string (a regular expression)', paramTypes: { s: 'Str' }, returns: 'Str', ensures: { a: 'result === attrName(s)' } },
};
export default {
  property: 'C11',
  units: [
    { opts, contracts: { ...dom, ...strings, ...host, navigateNode, resolvePart, 'DOMTemplate.render': render, 'DOMBlock.constructor': block, isFirstRootNodeHole: { inline: true } }, lemmas },
    { opts, contracts: { ...dom, advanceCursor, incrementCursor: { inline: true } } },
    { opts: attrOpts, contracts: { ...attrHost, collectAttributeHoles }, lemmas: attrLemmas },
  ],
};
