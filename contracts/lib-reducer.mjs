// State hooks. One hook is looked at through its history: `payOf(k)` is the
// payload of the k-th action dispatched to it and `fold(k)` its initial state
// after the first k of them. Ghosts of the hook:
//   n   the number of actions dispatched, b the number of those that are part
//       of the memoized state (the others are held, in order)
//   A   the actions held, in order (IX: the position of an action)
// Logical variables of a render:
//   S   S[k] the state after the first k of them, leaving out those whose
//       lanes are not rendered; U[k] the lanes of those left out
import { hookOpts, hookRequires, slotPost, first, slot, HOOKF, wrongKind, ensureHookType, hookSpecFns } from './lib-component.mjs';
const i0 = 'old(this._hookIndex)';
const SLOT = 'this._hooks[this._hookIndex]';
const D = `${SLOT}.dispatcher`;
const H = `this._hooks[${i0}]`;
const HD = `${H}.dispatcher`;
const later = 'this._hookIndex < this._hooks.length';
export const reducerOpts = {
  fieldSorts: {
    ...hookOpts.fieldSorts, reducer: 'Ref', currentState: 'Val', pendingActions: 'array:Action', skipLanes: 'BV', dispatch: 'Ref', payload: 'Val', eagerState: 'Val', lanes: 'BV', revertLanes: 'BV',
    areStatesEqual: '?Ref', transient: 'Val', passthrough: 'Val', id: 'Int', finished: 'Ref',
  },
  absent: ['passthrough', 'areStatesEqual', 'transient'],
  ghosts: { ...hookOpts.ghosts, n: 'Int', b: 'Int', sched: 'Int', handle: 'Int', target: 'Int', opt: 'Int', inits: 'Int', hk: 'Int', A: '(Array Int Int)', IX: '(Array Int Int)' },
  decls: `${hookOpts.decls}
(declare-fun red (Val Val) Val)
(declare-fun sameState (Val Val) Bool)
(declare-fun payOf (Int) Val)
(declare-fun fold (Int) Val)
(declare-fun trig (Int) Bool)`,
  axioms: ['(forall ((k Int)) (! (=> (>= k 0) (= (fold (+ k 1)) (red (fold k) (payOf k)))) :pattern ((payOf k))))'],
  specFns: {
    ...hookSpecFns,
    red: { smt: 'red', args: ['Val', 'Val'], ret: 'Val' },
    sameState: { smt: 'sameState', args: ['Val', 'Val'], ret: 'Bool' },
    payOf: { smt: 'payOf', args: ['Int'], ret: 'Val' },
    fold: { smt: 'fold', args: ['Int'], ret: 'Val' },
    sub: { params: ['l', 'm'], expr: '(bits(l) & ~bits(m)) === bits(0)' },
    nullish: { params: ['v'], expr: 'is(v, undefined) || is(v, null)' },
  },
};
const reducerCall = { params: ['s', 'a'], paramTypes: { s: 'Val', a: 'Val' }, returns: 'Val', ensures: { a: 'is(result, red(s, a))' } };

// The invariant of a hook `h` with the dispatcher `d`.
const each = (e, ...pats) => `forall((k: Int) => implies(0 <= k && k < m(H) + p(H), ${e}), ${pats.join(', ')})`;
const inst = (o, h, c) => Object.fromEntries(Object.entries(o).map(([k, e]) => [k, e.replaceAll('m(H)', 'H.memoizedActions.length').replaceAll('p(H)', 'H.dispatcher.pendingActions.length').replaceAll('H.', `${h}.`).replaceAll('CTX', c)]));
const shape = {
  'a hook': 'isPtr(H.dispatcher) && allocated(H.dispatcher) && isPtr(H.memoizedActions) && isArr(H.memoizedActions) && allocated(H.memoizedActions) && isPtr(H.dispatcher.pendingActions) && isArr(H.dispatcher.pendingActions) && allocated(H.dispatcher.pendingActions) && isPtr(H.dispatcher.reducer) && isFn(H.dispatcher.reducer)',
  'its lists are its own': 'asRef(H.memoizedActions) !== asRef(H.dispatcher.pendingActions) && asRef(H.memoizedActions) !== asRef(CTX._hooks) && asRef(H.dispatcher.pendingActions) !== asRef(CTX._hooks)',
  'nothing is held unless actions were left out': 'implies(H.dispatcher.skipLanes === bits(0), m(H) === 0 && is(H.dispatcher.currentState, H.memoizedState))',
};
const held = {
  'the actions held, in order': 'forall((k: Int) => implies(0 <= k && k < m(H), typed(H.memoizedActions[k], "Action") === typed($A[k], "Action")), [H.memoizedActions[k]]) && forall((k: Int) => implies(0 <= k && k < p(H), typed(H.dispatcher.pendingActions[k], "Action") === typed($A[m(H) + k], "Action")), [H.dispatcher.pendingActions[k]])',
  'they are actions': each('isPtr(typed($A[k], "Action")) && allocated(typed($A[k], "Action")) && num($IX[$A[k]]) === k && typed($A[k], "Action").revertLanes === bits(0)', '[$A[k]]'),
  'their payloads': each('is(typed($A[k], "Action").payload, payOf($b + k))', '[$A[k]]'),
  'an eager state is the state after the first of them': each('nullish(typed($A[k], "Action").eagerState) || k === 0 && is(typed($A[k], "Action").eagerState, red(H.memoizedState, typed($A[k], "Action").payload))', '[$A[k]]'),
};
const hist = {
  'the memoized state is the fold of the actions before': 'is(H.memoizedState, fold($b)) && $b >= 0 && $n === $b + m(H) + p(H)',
};
export const inv = (h, c = 'this') => inst({ ...shape, ...held, ...hist }, h, c);
export const under = (cond, o) => Object.fromEntries(Object.entries(o).map(([k, e]) => [k, `implies(${cond}, ${e})`]));
reducerOpts.specFns.num = { smt: 'numId', args: ['Int'], ret: 'Int' };
reducerOpts.decls += '\n(define-fun numId ((x Int)) Int x)';

const isReducerSlot = `${later} && ${SLOT}.type === 4`;
const T = `(old(${SLOT}.memoizedActions.length) + old(${D}.pendingActions.length))`;
const applied = 'sub(entry(typed($A[k], "Action").lanes), this._lanes)';
export const getInitialState = {
  paramTypes: { initialState: 'Val' }, returns: 'Val', modifies: ['$inits'],
  callbacks: { initialState: { returns: 'Val', modifies: ['$inits'], ensures: { a: '$inits === old($inits) + 1 && is(result, initOf(initialState))' } } },
  ensures: { 'the value, or what the function returns, called once': "is(result, typeof initialState === 'function' ? initOf(initialState) : initialState) && $inits === old($inits) + (typeof initialState === 'function' ? 1 : 0)" },
};
export const useReducer = {
  paramTypes: { reducer: 'Ref!', initialState: 'Val', options: '?StateOptions' }, returns: 'array:Val',
  logical: { S: '(Array Int Val)', U: '(Array Int (_ BitVec 32))' },
  requires: {
    ...hookRequires, 'a component': 'isPtr(this._instance)', 'a reducer': 'isFn(reducer)',
    'its state is not passed through': 'options === undefined || !options.passthrough',
    ...under(isReducerSlot, inv(SLOT)),
    'the states of a render': `implies(${isReducerSlot}, is(S[0], ${SLOT}.memoizedState) && U[0] === bits(0))`,
    'the states of a render, step': 'forall((k: Int) => implies(0 <= k, is(S[k + 1], sub(typed($A[k], "Action").lanes, this._lanes) ? red(S[k], typed($A[k], "Action").payload) : S[k]) && U[k + 1] === (bits(U[k]) | typed($A[k], "Action").lanes & ~this._lanes)), [$A[k]])',
  },
  throws: wrongKind(4), mustThrow: wrongKind(4), allocates: true, split: true,
  fresh: [...HOOKF, 'passthrough', 'areStatesEqual', 'transient', 'elems:Val', 'payload', 'eagerState', 'lanes', 'revertLanes', 'cls'],
  modifies: ['this._hookIndex', 'elems(this._hooks)', `${SLOT}.memoizedActions`, `${SLOT}.memoizedState`, `elems(${SLOT}.memoizedActions)`, `${D}.pendingActions`, `${D}.reducer`, `${D}.currentState`, `${D}.skipLanes`, '*.lanes', '*.revertLanes', 'this._instance._pendingLanes', '$b', '$n', '$inits'],
  callbacks: {
    reducer: { ...reducerCall, requires: { 'the reducer of this render': 'callee === reducer' } },
  },
  loops: [{
    name: 'actions',
    inv: {
      'the actions held': `$arr === typed(entry(${SLOT}.memoizedActions), "array:Ref") && $arr.length === entry(${SLOT}.memoizedActions.length) + entry(${D}.pendingActions.length) && forall((k: Int) => implies(0 <= k && k < $arr.length, typed($arr[k], "Action") === typed($A[k], "Action")), [$arr[k]], [$A[k]])`,
      'the state so far': 'is(nextState, S[$i]) && skipLanes === U[$i]',
      'it is the fold while nothing is left out': 'implies(skipLanes === bits(0), is(nextState, fold($b + $i)))',
      'lanes of the actions so far': `forall((k: Int) => implies(0 <= k && k < $arr.length, typed($A[k], "Action").lanes === (k < $i && ${applied} ? bits(0) : entry(typed($A[k], "Action").lanes))), [$A[k]])`,
      'the others keep theirs': `forall((x: Action) => implies(!(0 <= num($IX[x]) && num($IX[x]) < $arr.length && typed($A[num($IX[x])], "Action") === x), x.lanes === entry(x.lanes)), [x.lanes])`,
      'no action becomes transient': 'forall((x: Action) => x.revertLanes === entry(x.revertLanes), [x.revertLanes])',
      'lanes left out are pending': 'this._instance._pendingLanes === (entry(this._instance._pendingLanes) | U[$i])',
    },
  }],
  ghostExit: {
    b: `${first} ? 0 : ${HD}.skipLanes === bits(0) ? $n : $b`,
    n: `${first} ? 0 : $n`,
  },
  ensures: {
    ...slotPost(4),
    'the state and the dispatch function of the hook': `result.length === 2 && is(result[0], ${HD}.currentState) && is(result[1], asVal(${HD}.dispatch))`,
    'a first use starts with the initial state': `implies(${first}, is(result[0], typeof initialState === 'function' ? initOf(initialState) : initialState) && $inits === old($inits) + (typeof initialState === 'function' ? 1 : 0) && is(${H}.memoizedState, result[0]) && ${HD}.skipLanes === bits(0) && ${H}.memoizedActions.length === 0 && ${HD}.pendingActions.length === 0)`,
    'a first use makes a hook of its own': `implies(${first}, fresh(${HD}) && fresh(${H}.memoizedActions) && fresh(${HD}.pendingActions) && asRef(${H}.memoizedActions) !== asRef(${HD}.pendingActions))`,
    'later uses keep the dispatcher and the dispatch function': `implies(!${first}, ${HD} === old(${D}) && ${HD}.dispatch === old(${D}.dispatch))`,
    'actions whose lanes are rendered or have been rendered are applied in order': `implies(!${first}, is(result[0], S[${T}]))`,
    'the state is the fold of all actions if none is left out': `implies(!${first} && U[${T}] === bits(0), is(result[0], fold($n)))`,
    'lanes left out are remembered and pending': `implies(!${first}, ${HD}.skipLanes === U[${T}] && this._instance._pendingLanes === (old(this._instance._pendingLanes) | U[${T}]))`,
    'an action stays applied': `implies(!${first}, forall((k: Int) => implies(0 <= k && k < ${T}, typed($A[k], "Action").lanes === (${applied} ? bits(0) : entry(typed($A[k], "Action").lanes))), [$A[k]]))`,
    'other lanes are kept': `forall((x: Action) => implies(old(allocated(x)) && !(old(${isReducerSlot}) && 0 <= num($IX[x]) && num($IX[x]) < ${T} && typed($A[num($IX[x])], "Action") === x), x.lanes === old(x.lanes)), [x.lanes])`,
    'no action becomes transient': 'forall((x: Action) => implies(old(allocated(x)), x.revertLanes === old(x.revertLanes)), [x.revertLanes])',
    'the latest reducer': `asRef(${HD}.reducer) === asRef(reducer)`,
    'no action is dropped': `implies(!${first}, $n === old($n) && (U[${T}] === bits(0) || $b === old($b) && ${H}.memoizedActions.length === ${T} && ${HD}.pendingActions.length === 0))`,
    ...under(`!${first}`, inv(H)),
  },
};
reducerOpts.decls += '\n(declare-fun initOf (Val) Val)';
reducerOpts.specFns.initOf = { smt: 'initOf', args: ['Val'], ret: 'Val' };

// ------------------------------------------------------------------ dispatch
const K = 'typed($hk, "Hook")';
const KD = `${K}.dispatcher`;
const custom = '(options !== undefined && options.areStatesEqual !== undefined)';
const eager = `red(${KD}.currentState, payload)`;
export const bails = `(${KD}.pendingActions.length === 0 && ${KD}.skipLanes === bits(0) && (${custom} ? sameState(${eager}, ${KD}.currentState) : is(${eager}, ${KD}.currentState)))`;
const P = `${KD}.pendingActions`;
const newAction = `typed(${P}[old(${P}.length)], "Action")`;
const total = `old(${K}.memoizedActions.length) + old(${P}.length)`;
export const schedule = {
  assumed: 'requests an update and renders nothing synchronously (C03)', params: ['transaction', 'options'], paramTypes: { transaction: 'UpdateComponent', options: 'Ref' }, returns: 'Handle', caller: true,
  modifies: ['$sched', '$handle', '$target', '$opt'], allocates: true, fresh: ['lanes', 'id', 'finished'],
  ensures: { a: '$sched === old($sched) + 1 && isPtr(result) && fresh(result) && $handle === asRef(result) && $target === asRef(transaction._instance) && $opt === asRef(options)' },
};
export const forceUpdate = {
  paramTypes: { options: 'Ref' }, returns: 'Handle', allocates: true, fresh: ['lanes', 'id', 'finished', '_instance', '_scope', 'cls'],
  requires: { 'a component': 'isPtr(this._instance)' },
  modifies: ['$sched', '$handle', '$target', '$opt', 'this._instance._pendingLanes'],
  ensures: { 'one update of this component is requested': '$opt === asRef(options) && $target === asRef(this._instance) && $sched === old($sched) + 1 && asRef(result) === $handle', 'its lanes are pending': 'isPtr(result) && this._instance._pendingLanes === (old(this._instance._pendingLanes) | result.lanes)' },
};
export const dispatch = {
  of: 'RenderContext.useReducer',
  paramTypes: { reducer: 'Ref!', initialState: 'Val', options: '?StateOptions' },
  requires: { ...hookRequires, 'a component': 'isPtr(this._instance)', 'a reducer': 'isFn(reducer)', 'a first use': 'this._hookIndex === this._hooks.length' },
  callbacks: {
    reducer: reducerCall,
    areStatesEqual: { params: ['s', 't'], paramTypes: { s: 'Val', t: 'Val' }, returns: 'Bool', ensures: { a: 'result === sameState(s, t)' } },
  },
  loops: [{ name: 'a later use', inv: {} }],
  curried: {
    allowThrow: true, select: 'result[1]',
    keep: { hk: `this._hooks[old(this._hookIndex)]` },
    havoc: ['*.memoizedActions', '*.memoizedState', '*.pendingActions', '*.reducer', '*.currentState', '*.skipLanes', '*.lanes', '*.revertLanes', '*.payload', '*.eagerState', '*.len', '*elems:Ref', '*elems:Val', '*._pendingLanes', '*._scope', '*._lanes', '*._hookIndex', '$sched', '$handle', '$target', '$opt', '$n', '$b', '$A', '$IX', '$inits', '*.areStatesEqual', '*.transient', '*.passthrough'],
    assume: { 'the hook stays': `isPtr(${K}) && isPtr(this._hooks)`, ...inv(K) },
    params: { payload: 'Val', options: '?DispatchOptions' },
    requires: {
      'no transient action': 'options === undefined || isPtr(options) && !options.transient',
      'a comparison': 'options === undefined || options.areStatesEqual === undefined || isPtr(options.areStatesEqual) && isFn(options.areStatesEqual)',
      'the payload of the next action': `implies(!(${bails} && ${custom}), is(payload, payOf($n)))`,
    },
  },
  returns: 'Handle',
  allocates: true, split: true,
  fresh: [...useReducer.fresh, '_instance', '_scope', 'finished'],
  modifies: [`elems(${P})`, 'this._instance._pendingLanes', '$sched', '$handle', '$target', '$opt', '$n', '$b', '$A', '$IX'],
  ghostExit: {
    n: `old(${bails} && ${custom}) ? $n : $n + 1`,
    b: `old(${bails} && !${custom}) ? $b + 1 : $b`,
    A: `old(${bails}) ? $A : store($A, ${total}, ${newAction})`,
    IX: `old(${bails}) ? $IX : store($IX, ${newAction}, ${total})`,
  },
  ensures: {
    'it requests a render exactly if the state may change': `$sched === old($sched) + (old(${bails}) ? 0 : 1)`,
    'with the options of the dispatch': `implies(!old(${bails}) && options !== undefined, $opt === asRef(options))`,
    'an unchanged state holds nothing': `implies(old(${bails}), result.lanes === bits(0) && ${P}.length === old(${P}.length) && this._instance._pendingLanes === old(this._instance._pendingLanes))`,
    'otherwise the action is held last': `implies(!old(${bails}), ${P}.length === old(${P}.length) + 1 && isPtr(${newAction}) && is(${newAction}.payload, payload) && fresh(${newAction}))`,
    'with the lanes of the update, which are pending': `implies(!old(${bails}), asRef(result) === $handle && ${newAction}.lanes === result.lanes && this._instance._pendingLanes === (old(this._instance._pendingLanes) | result.lanes))`,
    ...inv(K),
  },
};

// ------------------------------------------------------------------ useState
// useReducer is called with a function that applies function payloads to the
// state and takes other payloads as the new state.
export const useReducerCall = {
  assumed: 'proved above', params: ['reducer', 'initialState', 'options'],
  hook: (v, { self, args, st, cx, n }) => {
    const s0 = st.clone();
    const s = v.freshVal('state', { s: 'Val' }, s0);
    const a = v.freshVal('payload', { s: 'Val' }, s0);
    const sc = { spec: true, env: undefined, module: cx.module, self, bound: new Map([...v.verifyBound, ['s', s], ['a', a], ['init', args[1]], ['opts', args[2]]]), old: s0 };
    for (const o of v.callValue(args[0], [s, a], s0, cx, n)) {
      if (o.k !== 'val') { v.oblige(o.st, 'reducer: does not throw', 'false', 'precondition'); continue; }
      v.oblige(o.st, 'reducer: function payloads are applied to the state, others replace it', v.specBool("is(r, typeof a === 'function' ? applied(a, s) : a)", o.st, { ...sc, bound: new Map([...sc.bound, ['r', o.v]]) }), 'precondition');
    }
    v.oblige(st, 'useReducer: the initial state and options are passed on', v.specBool('is(init, $initialState) && asRef(opts) === asRef($options)', st, sc), 'precondition');
    v.oblige(st, 'useReducer: on the context', v.specBool('asRef(c) === asRef(this)', st, { ...sc, self: v.verifySelf, bound: new Map([...sc.bound, ['c', self]]) }), 'precondition');
    const r = v.freshVal('pair', v.parseType('Ref'), st);
    st.assume(`(= ${r.t} thePair)`);
    return [{ k: 'val', st, v: r }];
  },
};
export const useState = {
  paramTypes: { initialState: 'Val', options: '?StateOptions' }, returns: 'Ref',
  callbacks: { '*': { params: ['s'], paramTypes: { s: 'Val' }, returns: 'Val', ensures: { a: 'is(result, applied(asVal(callee), s))' } } },
  ensures: { 'the state and the function that sets it': 'asRef(result) === thePair()' },
};
reducerOpts.decls += '\n(declare-fun applied (Val Val) Val)\n(declare-const thePair Int)';
Object.assign(reducerOpts.specFns, { applied: { smt: 'applied', args: ['Val', 'Val'], ret: 'Val' }, thePair: { smt: 'thePair', args: [], ret: 'Int' } });
