// Contracts of components and their hooks (component.ts).
//
// A context holds the hooks of one component; a hook call uses the slot
// `_hookIndex` and advances it. Ghost state
//   ran, made   how many times the computation of a hook ran, and its result
//   app, arg    (see C07)
export const hookSorts = {
  _hooks: 'array:Hook', _hookIndex: 'Int', _scope: 'Scope', _lanes: 'BV', _instance: 'FunctionComponent', _dispatcher: 'Dispatcher',
  type: 'Int', id: 'Str', result: 'Val', deps: 'array:Val', setup: 'Ref', cleanup: 'Ref', dirty: 'Bool', dispatcher: 'ActionDispatcher', memoizedState: 'Val', memoizedActions: 'array:Action',
  _pendingLanes: 'BV', _workingLanes: 'BV', _context: 'RenderContext', _connectedNode: 'Ref', _componentFn: 'Ref', current: 'Val', instances: 'array:Ref',
};
export const hookDecls = `(define-fun isPtr ((r Int)) Bool (> r 0))`;
export const hookSpecFns = {
  isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' },
  seqEq: { params: ['xs', 'ys'], types: ['array:Val', 'array:Val'], expr: 'xs === ys || xs.length === ys.length && forall((j: Int) => implies(0 <= j && j < xs.length, is(xs[j], ys[j])), [xs[j]], [ys[j]])' },
  changed: { params: ['a', 'b'], types: ['array:Val', 'array:Val'], expr: '!isPtr(a) || !isPtr(b) || !seqEq(a, b)' },
  // the slots of a context
  slots: { params: ['c'], types: ['RenderContext'], expr: 'isPtr(c._hooks) && isArr(c._hooks) && allocated(c._hooks) && 0 <= c._hookIndex && c._hookIndex <= c._hooks.length && forall((k: Int) => implies(0 <= k && k < c._hooks.length, isPtr(c._hooks[k]) && allocated(c._hooks[k])), [c._hooks[k]])' },
};
export const areDependenciesChanged = {
  assumed: 'proved with C24', paramTypes: { oldDeps: 'array:Val', newDeps: 'array:Val' }, returns: 'Bool',
  ensures: { a: 'result === changed(oldDeps, newDeps)' },
};
const i0 = 'old(this._hookIndex)';
export const first = '(old(this._hookIndex) === old(this._hooks.length))';
export const slot = `old(this._hooks[this._hookIndex])`;
export const hookRequires = { 'the slots of the context': 'slots(this)' };
export const slotPost = (type) => ({
  'it uses one slot': `this._hookIndex === ${i0} + 1`,
  'a first use adds the slot': `implies(${first}, this._hooks.length === ${i0} + 1 && fresh(this._hooks[${i0}]) && this._hooks[${i0}].type === ${type})`,
  'a later use keeps it': `implies(!${first}, this._hooks.length === old(this._hooks.length) && this._hooks[${i0}] === ${slot} && ${slot}.type === ${type})`,
  'the other slots are kept': `this._hooks === old(this._hooks) && forall((k: Int) => implies(0 <= k && k < old(this._hooks.length) && k !== ${i0}, this._hooks[k] === old(this._hooks)[k]), [this._hooks[k]])`,
  'the slots stay well-formed': 'slots(this)',
});
export const HOOKF = ['type', 'id', 'result', 'deps', 'setup', 'cleanup', 'dirty', 'dispatcher', 'memoizedState', 'memoizedActions', 'len', 'elems:Ref', 'elems:Val', 'current', 'reducer', 'currentState', 'pendingActions', 'skipLanes', 'dispatch'];
export const wrongKind = (type) => `this._hookIndex < this._hooks.length && this._hooks[this._hookIndex].type !== ${type}`;
export const ensureHookType = {
  paramTypes: { expectedType: 'Int', hook: 'Hook' }, requires: { 'a hook': 'isPtr(hook)' },
  throws: 'hook.type !== expectedType', ensures: { 'the expected kind': 'hook.type === expectedType' },
};
export const computation = { returns: 'Val', modifies: ['$ran', '$made'], ensures: { a: '$ran === old($ran) + 1 && $made === result' } };
const SLOT = 'this._hooks[this._hookIndex]';
const H = `this._hooks[${i0}]`;
const common = (type) => ({ requires: hookRequires, throws: wrongKind(type), mustThrow: wrongKind(type), fresh: HOOKF, allocates: true, split: true });
const mods = (...fs) => ['this._hookIndex', 'elems(this._hooks)', ...fs.map((f) => `${SLOT}.${f}`)];
export const useMemo = {
  ...common(3), paramTypes: { computation: 'Ref!', deps: 'array:Val' }, returns: 'Val',
  callbacks: { computation },
  modifies: [...mods('result', 'deps'), '$ran', '$made'],
  ensures: {
    ...slotPost(3),
    'the value of the slot': `result === ${H}.result`,
    'the dependencies are remembered': `asRef(${H}.deps) === asRef(deps)`,
    'a first use computes once': `implies(${first}, $ran === old($ran) + 1 && result === $made)`,
    'changed dependencies recompute once': `implies(!(${first}) && old(changed(${SLOT}.deps, deps)), $ran === old($ran) + 1 && result === $made)`,
    'unchanged dependencies keep the value': `implies(!(${first}) && !old(changed(${SLOT}.deps, deps)), $ran === old($ran) && result === old(${SLOT}.result))`,
  },
};
export const useEffect = {
  ...common(1), paramTypes: { setup: 'Ref!', deps: 'array:Val' },
  modifies: mods('dirty', 'setup', 'deps'),
  ensures: {
    ...slotPost(1),
    'the latest setup and dependencies': `asRef(${H}.setup) === asRef(setup) && asRef(${H}.deps) === asRef(deps)`,
    'a first use will run and has no cleanup': `implies(${first}, ${H}.dirty && asRef(${H}.cleanup) === asRef(undefined))`,
    'a later use will run exactly when it was due or the dependencies changed': `implies(!(${first}), ${H}.dirty === old(${SLOT}.dirty || changed(${SLOT}.deps, deps)))`,
    'the cleanup is kept': `implies(!(${first}), ${H}.cleanup === old(${SLOT}.cleanup))`,
  },
};
export const useId = {
  ...common(2), returns: 'Str',
  modifies: [...mods(), '$ids', '$lastId'],
  ensures: {
    ...slotPost(2),
    'the id of the slot': `result === ${H}.id`,
    'a first use takes a new id': `implies(${first}, $ids === old($ids) + 1 && result === $lastId)`,
    'a later use keeps it': `implies(!(${first}), $ids === old($ids) && result === old(${SLOT}.id))`,
  },
};
export const hookGhosts = { ran: 'Int', made: 'Val', ids: 'Int', lastId: 'Str' };
export const nextIdentifier = { assumed: 'proved with C26', returns: 'Str', modifies: ['$ids', '$lastId'], ensures: { a: '$ids === old($ids) + 1 && $lastId === result' } };
export const hookOpts = { fieldSorts: hookSorts, ghosts: hookGhosts, decls: hookDecls, specFns: hookSpecFns };

// with useMemo inlined
const memoMods = mods('result', 'deps');
export const useCallback = {
  ...common(3), paramTypes: { callback: 'Ref!', deps: 'array:Val' }, returns: 'Val',
  modifies: memoMods,
  ensures: {
    ...slotPost(3),
    'a first use returns the callback': `implies(${first}, result === asVal(callback))`,
    'changed dependencies return the new callback': `implies(!(${first}) && old(changed(${SLOT}.deps, deps)), result === asVal(callback))`,
    'unchanged dependencies return the earlier one': `implies(!(${first}) && !old(changed(${SLOT}.deps, deps)), result === old(${SLOT}.result))`,
  },
};
export const useRef = {
  ...common(3), returns: 'Val', paramTypes: { initialValue: 'Val' },
  requires: { ...hookRequires, 'a slot of useRef': `implies(this._hookIndex < this._hooks.length && ${SLOT}.type === 3, isPtr(${SLOT}.deps) && ${SLOT}.deps.length === 0)` },
  modifies: memoMods,
  ensures: {
    ...slotPost(3),
    'a first use makes a ref with the value': `implies(${first}, isRef(result) && fresh(asRef(result)) && typed(asRef(result), 'Ref').current === initialValue)`,
    'a later use returns the same ref': `implies(!(${first}), result === old(${SLOT}.result))`,
    'it stays a slot of useRef': `isPtr(${H}.deps) && ${H}.deps.length === 0`,
  },
};
const inCtx = (e) => e.replaceAll('this.', 'context.').replaceAll('(this)', '(context)');
const conv = (o) => Object.fromEntries(Object.entries(o).map(([k, e]) => [k, inCtx(e)]));
export const finalizeContext = {
  paramTypes: { context: 'RenderContext' }, fresh: HOOKF, allocates: true, split: true,
  requires: { 'a context': 'isPtr(context)', ...conv(hookRequires) },
  throws: inCtx(wrongKind(0)), mustThrow: inCtx(wrongKind(0)),
  modifies: ['context._hookIndex', 'elems(context._hooks)'],
  ensures: conv(slotPost(0)),
};
export const objectFreeze = { assumed: 'returns the object', params: ['o'], paramTypes: { o: 'Ref' }, returns: 'Ref', ensures: { a: 'result === o' } };
const ctx = 'this._context';
export const componentRender = {
  paramTypes: { props: 'Val', scope: 'Scope', lanes: 'BV' }, returns: 'Ref', throws: true, allocates: true,
  requires: { 'a component': 'isPtr(this._componentFn)', 'a scope': 'isPtr(scope) && isPtr(scope.instances)', 'a context from an earlier render': `implies(${ctx} !== null, isPtr(${ctx}) && ${ctx}._instance === this && allocated(${ctx}) && isPtr(${ctx}._hooks) && isArr(${ctx}._hooks) && allocated(${ctx}._hooks) && forall((k: Int) => implies(0 <= k && k < ${ctx}._hooks.length, isPtr(${ctx}._hooks[k]) && allocated(${ctx}._hooks[k])), [${ctx}._hooks[k]]))` },
  modifies: ['this._workingLanes', 'this._pendingLanes', 'this._context', '*._scope', '*._lanes', '*._hookIndex', '*elems:Ref', '$calls', '$ret', '$used', '$ran', '$made', '$ids', '$lastId'],
  fresh: [...HOOKF, '_scope', '_lanes', '_hooks', '_hookIndex', '_instance'],
  callbacks: {
    '*': {
      params: ['p'], returns: 'Val', throws: true,
      requires: {
        'the hooks of the component, from the first one': `asRef(receiver) === asRef(${ctx}) && isPtr(${ctx}) && slots(${ctx}) && ${ctx}._hookIndex === 0 && ${ctx}._instance === this`,
        'the scope and the lanes of this render': `asRef(${ctx}._scope) === asRef(scope) && ${ctx}._lanes === lanes`,
        'the props': 'p === props',
        'the lanes rendered are no longer pending but being worked on': 'this._pendingLanes === (entry(this._pendingLanes) & ~lanes) && this._workingLanes === (entry(this._workingLanes) | entry(this._pendingLanes) & lanes)',
        'a context is kept': `implies(entry(${ctx}) !== null, ${ctx} === entry(${ctx}))`,
        'once': '$calls === entry($calls)',
      },
      modifies: ['$calls', '$ret', '$used', 'this._pendingLanes', '*._hookIndex', '*elems:Ref'], fresh: HOOKF,
      ensures: { a: `$calls === old($calls) + 1 && $ret === result && slots(${ctx}) && $used === ${ctx}._hookIndex` },
    },
  },
  ensures: {
    'the element of the returned value': '$calls === old($calls) + 1 && asVal(result) === asVal(wrapped($ret))',
    'as many hooks were used as on the first render': `${ctx}._hooks[$used].type === 0 && 0 <= $used && $used < ${ctx}._hooks.length`,
  },
};
export const renderOpts = { ...hookOpts, ghosts: { ...hookGhosts, calls: 'Int', ret: 'Val', used: 'Int' }, decls: `${hookDecls}
(declare-fun wrapped (Val) Int)`, specFns: { ...hookSpecFns, wrapped: { smt: 'wrapped', args: ['Val'], ret: 'Ref' } } };

// ---------------------------------------------------------------- effects (C08)
// Ghost state
//   setups[h]  how often the setup of the effect hook h was called
//   last[h]    the cleanup that its last setup returned and that was not called since
export const effectGhosts = { setups: '(Array Int Int)', last: '(Array Int Int)' };
const CH = `${ctx}._hooks`;
export const effectSpecFns = {
  ...hookSpecFns,
  nothing: { smt: 'nothing', args: [], ret: 'Ref' },
  isEffect: { params: ['h'], types: ['Hook'], expr: 'h.type === 1' },
  // the cleanup held by a hook is the one still to be called
  open: { params: ['c'], types: ['RenderContext'], expr: 'forall((k: Int) => implies(0 <= k && k < c._hooks.length && isEffect(c._hooks[k]), $last[c._hooks[k]] === asRef(c._hooks[k].cleanup) && (isPtr(c._hooks[k].cleanup) || asRef(c._hooks[k].cleanup) === nothing())), [c._hooks[k]])' },
  apart: { params: ['c'], types: ['RenderContext'], expr: 'forall((a: Int, b: Int) => implies(0 <= a && a < b && b < c._hooks.length, c._hooks[a] !== c._hooks[b]), [[c._hooks[a], c._hooks[b]]])' },
};
const userCode = {
  // (a setup or a cleanup may dispatch, but renders nothing and writes no hook: what else it writes is not read here)
  modifies: ['$setups', '$last', '*._pendingLanes'], allocates: true,
};
const cleanupCall = {
  ...userCode, returns: 'Val',
  requires: { 'the cleanup of the last setup, called once': 'isEffect(receiver) && isPtr(callee) && callee === $last[receiver]' },
  ensures: { a: '$setups === old($setups) && $last === store(old($last), receiver, nothing())' },
};
const setupCall = {
  ...userCode, returns: 'Ref | undefined',
  requires: {
    'the latest setup of an effect that is due': 'isEffect(receiver) && callee === receiver.setup && receiver.dirty',
    'the cleanup of the last setup has run': '$last[receiver] === nothing()',
  },
  ensures: { a: '$setups === store(old($setups), receiver, old($setups)[receiver] + 1) && $last === store(old($last), receiver, asRef(result)) && (isPtr(result) || asRef(result) === nothing())' },
};
const cbWrap = (c) => ({ ...c, requires: Object.fromEntries(Object.entries(c.requires).map(([k, e]) => [k, e.replaceAll('receiver', "typed(receiver, 'Hook')")])) });
const connected = {
  'a component that was rendered': `isPtr(${ctx}) && slots(${ctx}) && apart(${ctx}) && open(${ctx})`,
  'effects have setups': `forall((k: Int) => implies(0 <= k && k < ${CH}.length && isEffect(${CH}[k]), isPtr(${CH}[k].setup)), [${CH}[k]])`,
};
const loopKept = {
  'the slots': `$arr === ${CH} && open(${ctx}) && $i <= ${CH}.length`,
};
const done = (k, s) => `(${s}(isEffect(${CH}[${k}]) && ${CH}[${k}].dirty) ? $setups[${CH}[${k}]] === ${s}($setups[${CH}[${k}]]) + 1 && !${CH}[${k}].dirty : $setups[${CH}[${k}]] === ${s}($setups[${CH}[${k}]]) && $last[${CH}[${k}]] === ${s}($last[${CH}[${k}]]) && ${CH}[${k}].dirty === ${s}(${CH}[${k}].dirty))`;
const same = (k, s) => `$setups[${CH}[${k}]] === ${s}($setups[${CH}[${k}]]) && $last[${CH}[${k}]] === ${s}($last[${CH}[${k}]]) && ${CH}[${k}].dirty === ${s}(${CH}[${k}].dirty)`;
const closed = (k, s) => `$setups[${CH}[${k}]] === ${s}($setups[${CH}[${k}]]) && implies(isEffect(${CH}[${k}]), $last[${CH}[${k}]] === nothing())`;
const all = (e) => `forall((k: Int) => implies(0 <= k && k < ${CH}.length, ${e}), [${CH}[k]])`;
export const connect = {
  paramTypes: { node: 'RenderNode' }, split: true, allocates: true,
  requires: connected,
  modifies: ['this._connectedNode', 'this._workingLanes', '*.cleanup', '*.dirty', ...userCode.modifies],
  callbacks: { cleanup: cbWrap(cleanupCall), setup: cbWrap(setupCall) },
  loops: [{ name: 'effects', inv: {
    ...loopKept,
    'effects so far': `forall((k: Int) => implies(0 <= k && k < $i, ${done('k', 'pre')}), [${CH}[k]])`,
    'other effects': `forall((k: Int) => implies($i <= k && k < ${CH}.length, ${same('k', 'pre')}), [${CH}[k]])`,
  }, dec: `${CH}.length - $i` }],
  ensures: {
    'every effect that is due is set up once, the others are left alone': all(done('k', 'old')),
    'the cleanups to call are those of the last setups': `open(${ctx})`,
    'the component is connected': 'asRef(this._connectedNode) === asRef(node)',
    'what was rendered is committed': 'this._workingLanes === NoLanes',
    'the slots are kept': `${ctx} === old(${ctx}) && ${CH} === old(${CH}) && slots(${ctx})`,
  },
};
export const disconnect = {
  split: true, allocates: true,
  requires: { 'a component that was rendered': connected['a component that was rendered'] },
  modifies: ['this._connectedNode', '*.cleanup', ...userCode.modifies],
  callbacks: { cleanup: cbWrap(cleanupCall) },
  loops: [{ name: 'effects', inv: {
    ...loopKept,
    'effects so far': `forall((k: Int) => implies(0 <= k && k < $i, ${closed('k', 'pre')}), [${CH}[k]])`,
    'other effects': `forall((k: Int) => implies($i <= k && k < ${CH}.length, ${same('k', 'pre')}), [${CH}[k]])`,
  }, dec: `${CH}.length - $i` }],
  ensures: {
    'every cleanup has run, no setup has': all(closed('k', 'old')),
    'no cleanup is kept': `open(${ctx})`,
    'the component is disconnected': 'asRef(this._connectedNode) !== asRef(undefined) && !isPtr(this._connectedNode)',
  },
};
export const effectOpts = { ...hookOpts, ghosts: { ...hookGhosts, ...effectGhosts }, decls: `${hookDecls}
(define-fun nothing () Int (- 1))`, specFns: effectSpecFns };

// ---------------------------------------------------------------- the update of a component
// Ghost state
//   renders, el      how often a component was rendered; the element it returned
//   diffs, dn        how often a tree was diffed; the node made
//   patches, pold, pnew   how often a tree was patched; the nodes of the last patch
//   conns, conn      how often a component was connected; the node
export const updateGhosts = { renders: 'Int', el: 'Int', diffs: 'Int', dn: 'Int', patches: 'Int', pold: 'Int', pnew: 'Int', conns: 'Int', conn: 'Int', n0: 'Int', props0: 'Val', scope0: 'Int', inst0: 'Int', child0: 'Int', type0: 'Val', lanes0: 'BV' };
const CN = 'this._instance._connectedNode';
export const updateSorts = { ...hookSorts, type: 'Val', props: 'Val', state: '?Ref', scope: 'Scope', instance: 'ComponentInstance', left: 'array:RenderNode', right: 'array:RenderNode', parent: '?Ref', owner: 'Ref', level: 'Int', instances: 'array:Ref', _connectedNode: '?ComponentNode' };
export const updateOpts = { fieldSorts: updateSorts, ghosts: updateGhosts, decls: hookDecls, specFns: hookSpecFns, typeOverrides: { 'RenderNode.ComponentNode<TProps>': 'ComponentNode' } };
const node0 = { 'a committed node': `implies(isPtr(${CN}), isPtr(${CN}.state) && isPtr(typed(${CN}.state, 'CState').scope) && isPtr(typed(${CN}.state, 'CState').instance) && isPtr(${CN}.right) && ${CN}.right.length === 1 && isPtr(${CN}.right[0]))` };
const nCN = `typed(${CN}, 'ComponentNode')`;
const outside = {
  'Scope.enter': {
    assumed: 'proved with C10 (Scope.enter, Scope.constructor)', returns: 'Scope', params: ['owner'], paramTypes: { owner: 'Val' }, freshResult: true, allocates: true,
    ensures: { a: 'asRef(result.parent) === asRef(this) && asVal(result.owner) === owner' },
  },
  'ComponentInstance.render': {
    assumed: 'proved with C09 (FunctionComponent.render)', params: ['props', 'scope', 'lanes'], paramTypes: { props: 'Val', scope: 'Scope', lanes: 'BV' }, returns: 'VNode', allocates: true,
    requires: { 'the instance with the props of the node and a scope of its own': '$renders === 0 && asRef(this) === $inst0 && props === $props0 && asRef(scope.parent) === $scope0 && asVal(scope.owner) === $type0 && lanes === $lanes0' },
    modifies: ['$renders', '$el', '*._pendingLanes', '*._workingLanes', '*._context', '*._scope', '*._lanes', '*._hookIndex'],
    ensures: { a: '$renders === old($renders) + 1 && $el === asRef(result) && isPtr(result)' },
  },
  '*.diff': {
    assumed: 'proved with C05 (Runtime.diff)', params: ['o', 'e', 's', 'i', 'p'], paramTypes: { o: 'RenderNode', e: 'VNode', s: 'Scope', i: 'Int', p: 'Ref' }, returns: 'RenderNode', allocates: true,
    requires: { 'the committed child and the new element': '$renders === 1 && asRef(o) === $child0 && asRef(e) === $el && asRef(p) === $n0 && i === 0 && asRef(s.parent) === $scope0 && asVal(s.owner) === $type0' },
    modifies: ['$diffs', '$dn', '*.mutations', '*.scope'],
    ensures: { a: '$diffs === old($diffs) + 1 && $dn === asRef(result) && isPtr(result)' },
  },
};
const patched = {
  patch: {
    assumed: 'see the commit phase', params: ['o', 'n'], paramTypes: { o: 'RenderNode', n: 'RenderNode' }, allocates: true,
    modifies: ['$patches', '$pold', '$pnew'], ensures: { a: '$patches === old($patches) + 1 && $pold === asRef(o) && $pnew === asRef(n)' },
  },
  '*.connect': {
    assumed: 'proved above (FunctionComponent.connect)', params: ['n'], paramTypes: { n: 'Ref' }, allocates: true,
    modifies: ['$conns', '$conn', '*._connectedNode', '*._workingLanes', '*.cleanup', '*.dirty', '*._pendingLanes'],
    requires: { 'the instance of the node, after its tree was patched': `asRef(this) === asRef(typed(typed(n, 'ComponentNode').state, 'CState').instance) && $patches === 1` },
    ensures: { a: '$conns === old($conns) + 1 && $conn === asRef(n)' },
  },
};
const st = (e) => `typed(${e}.state, 'CState')`;
const nodeAt = { n0: `asRef(${CN})`, props0: `${CN}.props`, scope0: `asRef(${st(CN)}.scope)`, inst0: `asRef(${st(CN)}.instance)`, child0: `asRef(${CN}.right[0])`, type0: `${CN}.type`, lanes0: 'lanes' };
const prepare = {
  paramTypes: { lanes: 'BV', renderer: 'Renderer' }, allocates: true, returns: 'Val',
  requires: { ...node0, 'an instance': 'isPtr(this._instance) && isPtr(renderer)' }, entry: { renders: '0', diffs: '0', ...nodeAt },
};
const commitFrame = ['$patches', '$pold', '$pnew', '$conns', '$conn', '*._connectedNode', '*._workingLanes', '*._pendingLanes', '*.cleanup', '*.dirty', '*.right'];
const N0 = "typed($n0, 'ComponentNode')";
export const updateComponent = {
  ...outside, ...patched, 
  'UpdateComponent.prepare': {
    ...prepare, noResult: true,
    modifies: [...outside['ComponentInstance.render'].modifies, ...outside['*.diff'].modifies, '*.left'], fresh: ['left', 'len', 'elems:Ref'],
    ensures: {
      'an unmounted component is not rendered': `implies(!isPtr(old(${CN})), $renders === 0 && $diffs === 0)`,
      'a mounted one is rendered once, and its tree updated': `implies(isPtr(old(${CN})), $renders === 1 && $diffs === 1 && ${N0}.left.length === 1 && asRef(${N0}.left[0]) === $dn)`,
    },
  },
  'UpdateComponent.prepare commit': {
    ...prepare, of: 'UpdateComponent.prepare', requires: { ...prepare.requires, 'mounted': `isPtr(${CN})` }, noFrame: true,
    curried: { havoc: ['*.parent', '*.right', '*.left', '*elems:Ref'], entry: { patches: '0', conns: '0' }, assume: { 'still a node': `isPtr(${N0}.right) && isPtr(${N0}.left) && ${N0}.left.length === 1 && ${N0}.right.length === 1 && isPtr(${N0}.right[0]) && isPtr(${N0}.left[0])` } },
    ensures: {
      'a node that was unmounted meanwhile is left alone': `implies(old(${N0}.parent) === null, $patches === 0 && $conns === 0 && ${N0}.right === old(${N0}.right))`,
      'otherwise its tree is patched and its effects run, once': `implies(old(${N0}.parent) !== null, $patches === 1 && $conns === 1 && $conn === $n0 && $pold === asRef(old(${N0}.right[0])) && $pnew === asRef(old(${N0}.left[0])) && asRef(${N0}.right) === asRef(old(${N0}.left)))`,
    },
  },
  'UpdateComponent.prepare nothing': {
    ...prepare, of: 'UpdateComponent.prepare', requires: { ...prepare.requires, 'unmounted': `!isPtr(${CN})` }, noFrame: true,
    curried: { entry: { patches: '0', conns: '0' } },
    ensures: { 'nothing is committed': '$patches === 0 && $conns === 0' },
  },
};
