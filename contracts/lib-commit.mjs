// Contracts of the commit phase (commit.ts): what happens to each node of a
// tree. Trees are described by functions of the nodes: under(n, r): r is n or
// below n; way(n, r): the index of the child of n that holds r (so no node is
// below two children). They are definitional for trees.
// Ghost state, by node
//   acts[r]   how often r was unmounted (its part, its block or its instance)
//   casc[r]   it was unmounted together with a block that holds it
//   mnts[r]   how often r was mounted; where[r]: the DOM node it was mounted before (a block)
//   conns[r]  how often the component of r was connected
export const commitSorts = { type: 'Val', props: 'Val', key: 'Val', index: 'Int', parent: '?Ref', part: 'Part', left: 'array:RenderNode', right: 'array:RenderNode', state: 'NState', instance: 'ComponentInstance', block: 'Block', value: 'Val' };
export const commitGhosts = { acts: '(Array Int Int)', casc: '(Array Int Bool)', mnts: '(Array Int Int)', where: '(Array Int Int)', conns: '(Array Int Int)' };
export const commitDecls = `(define-fun isPtr ((r Int)) Bool (> r 0))
(declare-fun isN (Int) Bool)
(declare-fun under (Int Int) Bool)
(declare-fun way (Int Int) Int)
(declare-fun inBlk (Int Int) Bool)
(define-fun num ((r Int)) Int r)
(declare-fun com0 (Int) Bool)`;
export const commitSpecFns = {
  isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' },
  isN: { smt: 'isN', args: ['Ref'], ret: 'Bool' },
  under: { smt: 'under', args: ['Ref', 'Ref'], ret: 'Bool' },
  way: { smt: 'way', args: ['Ref', 'Ref'], ret: 'Int' },
  // some block at or below n holds r
  inBlk: { smt: 'inBlk', args: ['Ref', 'Ref'], ret: 'Bool' },
  com0: { smt: 'com0', args: ['Ref'], ret: 'Bool' },
  num: { smt: 'num', args: ['Ref'], ret: 'Int' },
  isComp: { params: ['t'], types: ['Val'], expr: "isType(t, 'function')" },
  isBlock: { params: ['t'], types: ['Val'], expr: "t !== asVal(Bind) && t !== asVal(Fragment) && !isType(t, 'function')" },
};
const F = 'forall';
// the trees over the lists `list` (left or right) of the nodes
const tree = (list, into = 'true') => ({
  'nodes': `${F}((n: RenderNode) => implies(isN(n), isPtr(n) && allocated(n) && isPtr(n.${list}) && isArr(n.${list}) && allocated(n.${list}) && isPtr(n.part) && isRef(n.props) && (n.type === asVal(Bind) || n.type === asVal(Fragment) || isRef(n.type)) && implies(n.type === asVal(Bind), n.${list}.length === 0) && implies(isComp(n.type), isPtr(n.state) && isPtr(n.state.instance)) && implies(isBlock(n.type), isPtr(n.state) && isPtr(n.state.block))), [isN(n)])`,
  'children are nodes': `${F}((n: RenderNode, k: Int) => implies(isN(n) && 0 <= k && k < n.${list}.length, isN(n.${list}[k])), [n.${list}[k]])`,
  'the root of a tree': `${F}((n: RenderNode) => implies(isN(n), under(n, n)), [isN(n)])`,
  'what is below a node is below one of its children': `${F}((n: RenderNode, r: RenderNode) => implies(isN(n) && under(n, r) && r !== n, 0 <= way(n, r) && way(n, r) < n.${list}.length && under(n.${list}[way(n, r)], r) && ${into.replaceAll('C', `n.${list}[way(n, r)]`)}), [under(n, r)])`,
  'and below no other one': `${F}((n: RenderNode, k: Int, r: RenderNode) => implies(isN(n) && 0 <= k && k < n.${list}.length && under(n.${list}[k], r) && ${into.replaceAll('C', `n.${list}[k]`)}, under(n, r) && r !== n && way(n, r) === k), [under(n.${list}[k], r)])`,
  'a child of what is below is below': `${F}((a: RenderNode, n: RenderNode, k: Int) => implies(isN(n) && under(a, n) && 0 <= k && k < n.${list}.length && ${into.replaceAll('C', `n.${list}[k]`)}, under(a, n.${list}[k])), [[under(a, n), n.${list}[k]]])`,
  'blocks hold what is below them': `${F}((n: RenderNode, r: RenderNode) => implies(isN(n) && under(n, r), inBlk(n, r) === (r !== n && (isBlock(n.type) || inBlk(n.${list}[way(n, r)], r)))), [inBlk(n, r)])`,
});
const logged = (c) => `$acts === store(old($acts), $child, old($acts)[$child] + 1) && $casc === store(old($casc), $child, ${c})`;
const at = { caller: true, allocates: true };
const N = "typed($child, 'RenderNode')";
const unmounted = (root, r, o) => `(under(${root}, ${r}) ? $acts[${r}] === ${o}($acts)[${r}] + (${r}.type === asVal(Fragment) ? 0 : 1) && implies(${r}.type !== asVal(Fragment), $casc[${r}] === (cascade || inBlk(${root}, ${r}))) && ${r}.parent === null : $acts[${r}] === ${o}($acts)[${r}] && $casc[${r}] === ${o}($casc)[${r}] && ${r}.parent === ${o}(${r}.parent))`;
const kids = {
  'children so far': `${F}((r: RenderNode) => implies(under(child, r) && r !== child && way(child, r) < $i, $acts[r] === entry($acts)[r] + (r.type === asVal(Fragment) ? 0 : 1) && implies(r.type !== asVal(Fragment), $casc[r] === (cascade || inBlk(child, r))) && r.parent === null), [under(child, r)], [$acts[r]], [$casc[r]], [r.parent])`,
  'other nodes': `${F}((r: RenderNode) => implies(!(under(child, r) && (r === child || way(child, r) < $i)), $acts[r] === entry($acts)[r] && $casc[r] === entry($casc)[r] && r.parent === entry(r.parent)), [under(child, r)], [$acts[r]], [$casc[r]], [r.parent])`,
  'the node itself': '$acts[child] === pre($acts)[child] && $casc[child] === pre($casc)[child] && $child.parent === entry($child.parent)',
  'the children': '$arr === child.right && $i <= child.right.length',
};
export const unmountChild = {
  params: ['child', 'cascade'], paramTypes: { child: 'RenderNode', cascade: 'Bool' }, allocates: true, split: true,
  requires: { ...tree('right'), 'a node': 'isN(child)' },
  modifies: ['*.parent', '$acts', '$casc'],
  loops: [{ name: 'children of a block', inv: kids, dec: '$arr.length - $i' }, { name: 'children', inv: kids, dec: '$arr.length - $i' }],
  ensures: { 'every node of the tree is unmounted once': `${F}((r: RenderNode) => ${unmounted('child', 'r', 'old')}, [under(child, r)], [$acts[r]], [$casc[r]], [r.parent])` },
};
export const unmountContracts = {
  '*.commitUnmount': { ...at, assumed: 'Part.commitUnmount (proved with the parts)', params: ['value', 'cascade'], paramTypes: { value: 'Val', cascade: 'Bool' }, modifies: ['$acts', '$casc'],
    requires: { 'the part and the value of the node': `asRef(this) === asRef(${N}.part) && ${N}.type === asVal(Bind) && value === typed(asRef(${N}.props), 'BindProps').value` }, ensures: { a: logged('cascade') } },
  '*.unmountBlock': { ...at, assumed: 'Part.unmountBlock (proved with the parts)', params: ['block', 'cascade'], paramTypes: { block: 'Ref', cascade: 'Bool' }, modifies: ['$acts', '$casc'],
    requires: { 'the part and the block of the node': `asRef(this) === asRef(${N}.part) && isBlock(${N}.type) && block === asRef(${N}.state.block)` }, ensures: { a: logged('cascade') } },
  '*.disconnect': { ...at, assumed: 'ComponentInstance.disconnect (proved above)', params: [], modifies: ['$acts', '$casc'],
    requires: { 'the component of the node': `isComp(${N}.type) && asRef(this) === asRef(${N}.state.instance)` }, ensures: { a: logged('$cascade') } },
  unmountChild,
};

// ---------------------------------------------------------------- mounting
const mounted = (r, o) => `$mnts[${r}] === ${o}($mnts)[${r}] + (under(child, ${r}) && (${r}.type === asVal(Bind) || isBlock(${r}.type)) ? 1 : 0) && $where[${r}] === (under(child, ${r}) && isBlock(${r}.type) ? (inBlk(child, ${r}) ? num(null) : num(afterNode)) : ${o}($where)[${r}])`;
const mkids = {
  'nodes so far': `${F}((r: RenderNode) => $mnts[r] === entry($mnts)[r] + (under(child, r) && r !== child && way(child, r) < $i && (r.type === asVal(Bind) || isBlock(r.type)) ? 1 : 0) && $where[r] === (under(child, r) && r !== child && way(child, r) < $i && isBlock(r.type) ? (inBlk(child, r) ? num(null) : num(afterNode)) : entry($where)[r]), [under(child, r)], [$mnts[r]], [$where[r]])`,
  'the children': '$arr === child.left && $i <= child.left.length',
};
export const mountContracts = {
  '*.commitMount': { ...at, assumed: 'Part.commitMount (proved with the parts)', params: ['value'], paramTypes: { value: 'Val' }, modifies: ['$mnts'],
    requires: { 'the part and the value of the node': `asRef(this) === asRef(${N}.part) && ${N}.type === asVal(Bind) && value === typed(asRef(${N}.props), 'BindProps').value` }, ensures: { a: '$mnts === store(old($mnts), $child, old($mnts)[$child] + 1)' } },
  '*.mountBlock': { ...at, assumed: 'Part.mountBlock (proved with the parts)', params: ['block', 'after'], paramTypes: { block: 'Ref', after: '?Ref' }, modifies: ['$mnts', '$where'],
    requires: {
      'the part and the block of the node': `asRef(this) === asRef(${N}.part) && isBlock(${N}.type) && block === asRef(${N}.state.block)`, 'before the given node': 'asRef(after) === asRef($afterNode)',
      'what it holds is in it': `${F}((r: RenderNode) => implies(under($child, r) && r !== $child, $mnts[r] === entry($mnts)[r] + (r.type === asVal(Bind) || isBlock(r.type) ? 1 : 0)), [under($child, r)])`,
    },
    ensures: { a: '$mnts === store(old($mnts), $child, old($mnts)[$child] + 1) && $where === store(old($where), $child, num(after))' } },
  mountChild: {
    params: ['child', 'afterNode'], paramTypes: { child: 'RenderNode', afterNode: '?Ref' }, allocates: true, split: true,
    requires: { ...tree('left'), 'a node': 'isN(child)' },
    modifies: ['$mnts', '$where'],
    loops: [{ name: 'children of a block', inv: mkids, dec: '$arr.length - $i' }, { name: 'children', inv: mkids, dec: '$arr.length - $i' }],
    ensures: { 'every value and block of the tree is mounted once': `${F}((r: RenderNode) => ${mounted('r', 'old')}, [under(child, r)], [$mnts[r]], [$where[r]])` },
  },
};
// ---------------------------------------------------------------- after the commit
// (under: through the children that were not committed when it began, com0 tells them apart)
const isCom = (n) => `(asRef(${n}.left) === asRef(${n}.right))`;
const committed = (r, o, cond) => `(${cond} ? asRef(${r}.right) === asRef(${r}.left) && $conns[${r}] === ${o}($conns)[${r}] + (isComp(${r}.type) ? 1 : 0) : asRef(${r}.right) === asRef(${o}(${r}.right)) && $conns[${r}] === ${o}($conns)[${r}])`;
export const afterContracts = {
  '*.connect': { ...at, assumed: 'ComponentInstance.connect (proved above)', params: ['n'], paramTypes: { n: 'Ref' }, modifies: ['$conns'],
    requires: {
      'the component of the node': `isComp(${N}.type) && asRef(this) === asRef(${N}.state.instance) && n === asRef($node)`.replaceAll('$child', '$node'),
      'after what it rendered': `${F}((r: RenderNode) => implies(under($node, r) && r !== $node && isComp(r.type), $conns[r] === entry($conns)[r] + 1), [under($node, r)])`,
    },
    ensures: { a: '$conns === store(old($conns), $node, old($conns)[$node] + 1)' } },
  afterCommit: {
    params: ['node'], paramTypes: { node: 'RenderNode' }, allocates: true, split: true,
    requires: {
      ...tree('left', '!com0(C)'), 'a node': 'isN(node)',
      'committed nodes are not entered': `${F}((a: RenderNode, r: RenderNode) => implies(under(a, r) && a !== r, !com0(r)), [under(a, r)])`,
      'nodes committed so far': `${F}((n: RenderNode, k: Int) => implies(isN(n) && under(node, n) && 0 <= k && k < n.left.length, com0(n.left[k]) === ${isCom('n.left[k]')}), [[under(node, n), n.left[k]]])`,
    },
    modifies: ['*.right', '$conns'],
    loops: [{ name: 'children', inv: {
      'nodes so far': `${F}((r: RenderNode) => ${committed('r', 'entry', 'under($node, r) && r !== $node && way($node, r) < $i')}, [under($node, r)], [$conns[r]], [r.right])`,
      'the children': '$arr === $node.left && $i <= $node.left.length',
    }, dec: '$arr.length - $i' }],
    ensures: { 'every node that was not committed is, and its component connected, once': `${F}((r: RenderNode) => ${committed('r', 'old', 'under(node, r)')}, [under(node, r)], [$conns[r]], [r.right])` },
  },
};
export const commitOpts = (list) => ({ fieldSorts: commitSorts, ghosts: commitGhosts, decls: commitDecls, specFns: commitSpecFns, frozen: [list, 'type', 'state', 'instance', 'block', 'part', 'props'] });
// ---------------------------------------------------------------- the phases
// done: 1 after the tree was mounted or patched, 2 after the commit
const step = (params, paramTypes, requires, from, to) => ({ assumed: 'proved in the other units', params, paramTypes, allocates: true, modifies: ['$done', '*.left', '*.right', '*.parent', '*.index'], requires: { 'in order': `$done === ${from} && (${requires})` }, ensures: { a: `$done === ${to}` }, caller: true });
export const phaseContracts = {
  mountChild: step(['child', 'afterNode'], { child: 'RenderNode', afterNode: '?Ref' }, 'asRef(child) === asRef($node) && afterNode === null', 0, 1),
  applyPatch: step(['o', 'n', 'index', 'parent'], { o: 'RenderNode', n: 'RenderNode', index: 'Int', parent: '?Ref' }, 'asRef(o) === asRef($old) && asRef(n) === asRef($node) && index === typed($node, "RenderNode").index && asRef(parent) === asRef(typed($node, "RenderNode").parent)', 0, 1),
  afterCommit: step(['node'], { node: 'RenderNode' }, 'asRef(node) === asRef($node)', 1, 2),
  unmountChild: step(['child', 'cascade'], { child: 'RenderNode', cascade: 'Bool' }, 'asRef(child) === asRef($node) && !cascade', 0, 3),
  mount: { params: ['node'], paramTypes: { node: 'RenderNode' }, entry: { done: '0' }, requires: { a: 'isPtr(node)' }, noFrame: true, ensures: { 'mounted, then committed': '$done === 2' } },
  patch: { params: ['old', 'node'], paramTypes: { old: 'RenderNode', node: 'RenderNode' }, entry: { done: '0' }, requires: { a: 'isPtr(node) && isPtr(old)' }, noFrame: true, ensures: { 'patched, then committed': '$done === 2' } },
  unmount: { params: ['node'], paramTypes: { node: 'RenderNode' }, entry: { done: '0' }, requires: { a: 'isPtr(node)' }, noFrame: true, ensures: { 'unmounted': '$done === 3' } },
};
export const phaseOpts = { fieldSorts: commitSorts, ghosts: { done: 'Int' }, decls: commitDecls, specFns: commitSpecFns };
