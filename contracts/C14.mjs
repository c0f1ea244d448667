// C14: an event reaches exactly the last committed listener.
//
// The host keeps, for an element, an event type and a capture flag, whether the
// part is registered and under which options: reg[c], and opt[c] the listener
// whose options were in effect (c: 1 with capture, 0 without). Options are
// fields of the listener that do not change.
const opts = {
  decls: `(define-fun isPtr ((r Int)) Bool (> r 0))
(define-fun idOf ((r Int)) Int r)
(define-fun num ((r Int)) Int r)
(declare-fun truthyVal (Val) Bool)`,
  specFns: {
    isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' }, idOf: { smt: 'idOf', args: ['Ref'], ret: 'Int' },
    num: { smt: 'num', args: ['Int'], ret: 'Int' },
    cap: { params: ['l'], expr: 'typed(l, "Options").capture ? 1 : 0' },
    same: { params: ['a', 'b'], expr: 'is(typed(a, "Options").once, typed(b, "Options").once) && is(typed(a, "Options").passive, typed(b, "Options").passive) && is(typed(a, "Options").signal, typed(b, "Options").signal)' },
  },
  primitives: true,
  ghosts: { reg: '(Array Int Bool)', opt: '(Array Int Int)', calls: 'Int' },
  fieldSorts: { _currentListener: 'Val', _node: 'Ref!', _name: 'Str', handleEvent: 'Val', capture: 'Val', once: 'Val', passive: 'Val', signal: 'Val' },
};
const L = 'this._currentListener';
const none = (v) => `(${v} === null || ${v} === undefined)`;
const isListener = (v) => `(isRef(${v}) && (isFn(asRef(${v})) || isRef(asRef(${v}).handleEvent) && isFn(asRef(asRef(${v}).handleEvent))))`;
const inv = {
  'a listener or none': `${none(L)} || ${isListener(L)}`,
  'no registration without a listener': `implies(${none(L)}, !$reg[0] && !$reg[1])`,
  'one registration with its options otherwise': `implies(!${none(L)}, $reg[cap(asRef(${L}))] && !$reg[1 - cap(asRef(${L}))] && same($opt[cap(asRef(${L}))], asRef(${L})))`,
};
const host = (what, extra) => ({
  assumed: what, params: ['type', 'listener', 'options'], paramTypes: { type: 'Str', listener: 'Ref!', options: 'Ref!' }, returns: 'Val', caller: true,
  requires: { 'on the element, for the event': 'asRef(this) === asRef($this._node) && type === $this._name', 'the part': 'asRef(listener) === asRef($this)' },
  ...extra,
});
const hostContracts = {
  '*.addEventListener': host('registers a listener unless it is registered for the event and the capture flag', {
    modifies: ['$reg', '$opt'],
    ensures: { a: '$reg === store(old($reg), cap(options), true) && $opt === (old($reg[cap(options)]) ? old($opt) : store(old($opt), cap(options), idOf(options)))' },
  }),
  '*.removeEventListener': host('removes the listener for the event and the capture flag', { modifies: ['$reg'], ensures: { a: '$reg === store(old($reg), cap(options), false)' } }),
};
const commit = {
  'the last committed listener is in effect': 'is(this._currentListener, NEW)',
};
const part = {
  sequentialEqual: {
    assumed: 'proved in C24', paramTypes: { xs: 'array:Val', ys: 'array:Val', equals: '?Ref' }, returns: 'Bool',
    ensures: { a: 'implies(result && equals === undefined, xs.length === ys.length && forall((j: Int) => implies(0 <= j && j < xs.length, is(xs[j], ys[j])), [xs[j]], [ys[j]]))' },
  },
  'DOMAdapterError.withNode': { assumed: 'makes an error', params: ['node', 'm'], returns: 'Ref!', allocates: true },
  ...hostContracts,
  'EventPart.commitMount': {
    paramTypes: { value: 'Val' }, allocates: true, fresh: ['len', 'elems:Val'],
    requires: inv, modifies: ['this._currentListener', '$reg', '$opt'],
    ensures: { ...inv, 'the listener is in effect': `is(${L}, value) && (${none('value')} || ${isListener('value')})` },
    throws: `!${none('value')} && !${isListener('value')}`,
    throwsEnsures: { 'the former listener stays in effect': `is(${L}, old(${L})) && $reg === old($reg) && $opt === old($opt)` },
  },
  'EventPart.commitUnmount': {
    paramTypes: { _value: 'Val', _cascade: 'Bool' }, requires: inv, modifies: ['this._currentListener', '$reg'],
    ensures: { ...inv, 'nothing is registered': `!$reg[0] && !$reg[1] && ${none(L)}` },
  },
  'EventPart.splitPart': { returns: 'EventPart', allocates: true, fresh: ['_node', '_name', '_currentListener'], ensures: { 'a part of its own for the same element and event': `fresh(result) && asRef(result._node) === asRef(this._node) && result._name === this._name && ${none('result._currentListener')}` } },
};
const update = {
  'EventPart.commitMount': { ...part['EventPart.commitMount'], assumed: 'proved above' },
  'AttributePart.commitUpdate': {
    exactThis: 'EventPart', paramTypes: { oldValue: 'Val', newValue: 'Val' }, allocates: true, fresh: ['len', 'elems:Val'],
    requires: { ...inv, 'the former value is in effect, or was rejected': `is(${L}, oldValue) || !${none('oldValue')} && !${isListener('oldValue')}` },
    modifies: ['this._currentListener', '$reg', '$opt'],
    ensures: { ...inv, 'the listener is in effect, or was rejected before': `is(${L}, newValue) || is(oldValue, newValue) && is(${L}, old(${L}))` },
    throws: `!${none('newValue')} && !${isListener('newValue')}`,
    throwsEnsures: { 'the former listener stays in effect': `is(${L}, old(${L})) && $reg === old($reg) && $opt === old($opt)` },
  },
};
const dispatch = {
  'EventPart.handleEvent': {
    paramTypes: { event: 'Ref!' }, modifies: ['$calls'], entry: { calls: '0' },
    requires: { 'a listener or none': inv['a listener or none'] },
    callbacks: {
      '*': {
        argNames: ['$x'], modifies: ['$calls'], returns: 'Val',
        requires: {
          'the event': 'is($x, asVal($event))',
          'the listener, or its handleEvent method': `isFn(asRef(${L})) ? asRef(callee) === asRef(${L}) : is(asVal(callee), asRef(${L}).handleEvent) && asRef(receiver) === asRef(${L})`,
        },
        ensures: { a: '$calls === old($calls) + 1' },
      },
    },
    ensures: { 'the listener is called once, nothing without one': `$calls === (${none(L)} ? 0 : 1)` },
  },
};
export default {
  property: 'C14',
  units: [
    { opts, closed: ['_currentListener'], contracts: part },
    { opts, contracts: update },
    { opts, contracts: dispatch },
  ],
};
