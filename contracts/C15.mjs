// C15: element references are set up and cleaned up in pairs.
//
// Ghosts: owed is 1 while the cleanup `cleanup` has yet to be called, target
// the function to be set up, ups and downs count the calls.
const opts = {
  decls: `(define-fun isPtr ((r Int)) Bool (> r 0))
(define-fun idOf ((r Int)) Int r)
(declare-fun bindOf (Int) Int)`,
  specFns: { isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' }, idOf: { smt: 'idOf', args: ['Ref'], ret: 'Int' }, bindOf: { smt: 'bindOf', args: ['Ref'], ret: 'Int' } },
  ghosts: { owed: 'Int', cleanup: 'Val', target: 'Val', ups: 'Int', downs: 'Int', bound: 'Int' },
  fieldSorts: { _cleanup: 'Val', _node: 'Ref!', current: 'Val' },
};
const inv = {
  'a cleanup is kept exactly while it is owed': '($owed === 0 || $owed === 1) && ($owed === 1 ? isRef(this._cleanup) && isFn(asRef(this._cleanup)) && is(this._cleanup, $cleanup) : this._cleanup === undefined || this._cleanup === null)',
};
// The functions of the user. They do not use the part, and a setup returns its
// cleanup or nothing.
const callbacks = {
  '*': {
    argNames: ['$x'], returns: 'Val',
    requires: {
      'the owed cleanup, or else the new function': '$owed === 1 ? is(asVal(callee), $cleanup) : is(asVal(callee), $target)',
      'a new function is given the element': 'implies($owed === 0, is($x, asVal(this._node)))',
    },
    modifies: ['$owed', '$cleanup', '$ups', '$downs'],
    ensures: {
      a: 'implies(old($owed) === 1, $owed === 0 && $downs === old($downs) + 1 && $ups === old($ups))',
      b: 'implies(old($owed) === 0, $ups === old($ups) + 1 && $downs === old($downs) && ($owed === 1 && isRef(result) && isFn(asRef(result)) && is($cleanup, result) || $owed === 0 && (result === undefined || result === null)))',
    },
  },
};
const mods = ['this._cleanup', '$owed', '$cleanup', '$ups', '$downs'];
const none = (v) => `(${v} === null || ${v} === undefined)`;
const fn = (v) => `(isRef(${v}) && isFn(asRef(${v})))`;
const error = { assumed: 'makes an error', params: ['node', 'm'], returns: 'Ref!', allocates: true };
const part = {
  'ext DOMAdapterError.withNode': error,
  'DOMAdapterError.withNode': error,
  'ElementPart.commitMount': {
    paramTypes: { value: 'Val' }, allocates: true, callbacks, modifies: [...mods, '$target'],
    requires: { ...inv, 'the former function has been cleaned up': '$owed === 0' },
    entry: { target: 'value' },
    ensures: {
      ...inv,
      'a function is called once': `implies(${fn('value')}, $ups === old($ups) + 1 && $downs === old($downs))`,
      'otherwise nothing is': `implies(!${fn('value')}, $ups === old($ups) && $downs === old($downs))`,
      'nothing else is accepted': `${none('value')} || ${fn('value')}`,
    },
    throws: `!${none('value')} && !${fn('value')}`,
    throwsEnsures: { ...inv, 'nothing is called': '$ups === old($ups) && $downs === old($downs) && $owed === 0' },
  },
  'ElementPart.commitUpdate': {
    paramTypes: { oldValue: 'Val', newValue: 'Val' }, allocates: true, callbacks, modifies: [...mods, '$target'], exactThis: 'ElementPart',
    requires: { ...inv, 'the former value was one': `${none('oldValue')} || isRef(oldValue)` },
    entry: { target: 'newValue' },
    ensures: {
      ...inv,
      'nothing happens if the value stays': 'implies(is(oldValue, newValue) && (oldValue === newValue), $ups === old($ups) && $downs === old($downs) && $owed === old($owed) && is($cleanup, old($cleanup)))',
      'the owed cleanup is called once': 'implies(oldValue !== newValue, $downs === old($downs) + old($owed))',
      'then a function is called once': `implies(oldValue !== newValue, $ups === old($ups) + (${fn('newValue')} ? 1 : 0))`,
    },
    throws: `oldValue !== newValue && !${none('newValue')} && !${fn('newValue')}`,
    throwsEnsures: { ...inv, 'the owed cleanup is called once': '$downs === old($downs) + old($owed) && $owed === 0', 'nothing else': '$ups === old($ups)' },
  },
  'ElementPart.commitUnmount': {
    paramTypes: { _value: 'Val', _cascade: 'Bool' }, callbacks, modifies: mods,
    requires: inv,
    entry: { target: 'undefined' },
    ensures: { ...inv, 'the owed cleanup is called once, nothing else': '$downs === old($downs) + old($owed) && $owed === 0 && $ups === old($ups)' },
  },
  'ElementPart.constructor': { paramTypes: { node: 'Ref!' }, noFrame: true, requires: { start: '$owed === 0' }, ensures: { ...inv, 'the element': 'asRef(this._node) === asRef(node)' } },
  'ElementPart.splitPart': { returns: 'ElementPart', requires: { start: '$owed === 0' }, allocates: true, fresh: ['_node', '_cleanup'], ensures: { 'a part of its own for the same element': 'fresh(result) && asRef(result._node) === asRef(this._node) && (result._cleanup === undefined || result._cleanup === null)' } },
};
const bind = { assumed: 'makes an element for the function (C27)', params: ['f'], paramTypes: { f: 'Ref!' }, returns: 'Ref!', modifies: ['$bound'], ensures: { a: '$bound === idOf(f)' } };
const toElement = { returns: undefined, allocates: true, paramTypes: {} };
export default {
  property: 'C15',
  units: [
    { opts, closed: ['_cleanup'], contracts: part },
    {
      opts,
      contracts: {
        createBind: bind,
        'Ref.[toElement] (setup)': {
          ...toElement, of: 'Ref.[toElement]', modifies: ['this.current'],
          curried: { select: 'typed($bound, "Ref")', params: { instance: 'Ref!' }, havoc: ['this.current'] },
          ensures: { 'the ref holds the element': 'is(this.current, asVal(instance))', 'a cleanup': `${fn('result')}` },
        },
        'Ref.[toElement] (cleanup)': {
          ...toElement, of: 'Ref.[toElement]', modifies: ['this.current'],
          curried: [{ select: 'typed($bound, "Ref")', params: { instance: 'Ref!' }, havoc: ['this.current'] }, { havoc: ['this.current'] }],
          ensures: { 'null, unless it has been assigned something else': 'implies(is(old(this.current), asVal(instance)), this.current === null) && implies(!is(old(this.current), asVal(instance)), is(this.current, old(this.current)))' },
        },
      },
    },
  ],
};
