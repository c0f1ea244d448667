// C10: injection resolves to the nearest, latest provided instance.
//
// up(s, l) is the ancestor-or-self of scope s at level l. Scopes never change
// after construction (readonly fields; the contracts of the constructor, root
// and enter below say what they are made of), so `up` is a function; the
// precondition of inject defines it for the scope at hand by recursion over
// the parents.
export const scopeSorts = { owner: 'Ref', level: 'Int', parent: 'Scope', instances: 'array:Ref', scope: 'Scope', _scope: 'Scope' };
const inst = (l, i) => `instOf(up(this._scope, ${l}).instances[${i}], injectable)`;
const at = (l, i) => `0 <= ${l} && ${l} <= this._scope.level && 0 <= ${i} && ${i} < up(this._scope, ${l}).instances.length`;
const none = `forall((l: Int, i: Int) => implies(${at('l', 'i')}, !${inst('l', 'i')}), [up(this._scope, l).instances[i]])`;
export default {
  property: 'C10',
  units: [{
    opts: {
      fieldSorts: { ...scopeSorts, getDefault: 'Ref', name: 'Val' },
      ghosts: { default: 'Val', defaults: 'Int' },
      decls: `(declare-fun up (Int Int) Int)
(declare-fun instOf (Int Int) Bool)
(define-fun isPtr ((r Int)) Bool (> r 0))`,
      specFns: {
        up: { smt: 'up', args: ['Ref', 'Int'], ret: 'Ref', h: 'Scope' },
        isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' },
        instOf: { params: ['x', 'c'], expr: 'isPtr(x) && instOf_(x, c)' },
        instOf_: { smt: 'instOf', args: ['Ref', 'Ref'], ret: 'Bool' },
      },
    },
    contracts: {
      'RenderContext.inject': {
        returns: 'Val', paramTypes: { injectable: 'Injectable' },
        requires: {
          'the ancestors of the scope, by level': 'isPtr(this._scope) && this._scope.level >= 0 && asRef(up(this._scope, this._scope.level)) === asRef(this._scope) && forall((l: Int) => implies(0 <= l && l <= this._scope.level, isPtr(up(this._scope, l)) && up(this._scope, l).level === l && implies(l > 0, asRef(up(this._scope, l).parent) === asRef(up(this._scope, l - 1))) && implies(l === 0, up(this._scope, l).parent === null)), [up(this._scope, l)])',
          'a class': 'injectable.getDefault === undefined || isPtr(injectable.getDefault) && isFn(injectable.getDefault)',
        },
        entry: { defaults: '0' },
        modifies: ['$default', '$defaults'],
        callbacks: {
          getDefault: { returns: 'Val', modifies: ['$default', '$defaults'], requires: { 'the default of the requested class': 'receiver === injectable' }, ensures: { a: '$default === result && $defaults === old($defaults) + 1' } },
        },
        loops: [
          {
            name: 'scopes',
            inv: {
              'the scope is an ancestor': 'implies(scope !== null, isPtr(scope) && 0 <= scope.level && scope.level <= this._scope.level && asRef(scope) === asRef(up(this._scope, scope.level)))',
              'it begins with the scope of the render': 'implies($first, scope === this._scope)',
              'no nearer scope provides one': `forall((l: Int, i: Int) => implies(${at('l', 'i')} && l > (scope === null ? -1 : scope.level), !${inst('l', 'i')}), [up(this._scope, l).instances[i]])`,
            },
            dec: 'scope === null ? 0 : scope.level + 1',
          },
          {
            name: 'instances',
            inv: {
              range: '-1 <= i && i < scope.instances.length',
              'no later instance matches': 'forall((k: Int) => implies(i < k && k < scope.instances.length, !instOf(scope.instances[k], injectable)), [scope.instances[k]])',
            },
            dec: 'i + 1',
          },
        ],
        // nothing is provided and there is no default
        throws: `injectable.getDefault === undefined && ${none}`,
        mustThrow: `injectable.getDefault === undefined && ${none}`,
        ensures: {
          'the latest instance of the nearest scope': `forall((l: Int, i: Int) => implies(${at('l', 'i')} && ${inst('l', 'i')} && forall((m: Int, k: Int) => implies(${at('m', 'k')} && ${inst('m', 'k')}, m < l || (m === l && k <= i)), [up(this._scope, m).instances[k]]), result === asVal(up(this._scope, l).instances[i]) && $defaults === 0), [up(this._scope, l).instances[i]])`,
          'otherwise the default': `implies(${none}, result === $default && $defaults === 1)`,
        },
      },
      'RenderContext.provide': {
        paramTypes: { instance: 'Ref!' },
        requires: { 'the scope of a render': 'isPtr(this._scope)' },
        modifies: ['elems(this._scope.instances)'],
        ensures: {
          'the instance is the latest of the scope': 'this._scope.instances.length === old(this._scope.instances.length) + 1 && this._scope.instances[old(this._scope.instances.length)] === instance',
          'earlier instances stay': 'forall((i: Int) => implies(0 <= i && i < old(this._scope.instances.length), this._scope.instances[i] === old(this._scope.instances[i])), [this._scope.instances[i]])',
        },
      },
      'Scope.constructor': {
        paramTypes: { owner: 'Ref' },
        fresh: ['len', 'elems:Ref', 'elems:Val'], modifies: ['this.owner', 'this.level', 'this.parent', 'this.instances'],
        ensures: { 'made of the arguments': 'this.owner === owner && this.level === level && this.parent === parent', 'provides nothing, in a list of its own': 'this.instances.length === 0 && fresh(this.instances)' },
      },
      'Scope.enter': {
        paramTypes: { owner: 'Ref' }, freshResult: true, fresh: ['len', 'elems:Ref', 'elems:Val', 'owner', 'level', 'parent', 'instances'], returns: 'Scope',
        ensures: { 'a child of this scope that provides nothing': 'result.owner === owner && result.parent === this && result.level === this.level + 1 && result.instances.length === 0 && fresh(result.instances)' },
      },
      'Scope.root': {
        paramTypes: { owner: 'Ref' }, freshResult: true, fresh: ['len', 'elems:Ref', 'elems:Val', 'owner', 'level', 'parent', 'instances'], returns: 'Scope',
        ensures: { 'a scope without ancestors that provides nothing': 'result.owner === owner && result.parent === null && result.level === 0 && result.instances.length === 0 && fresh(result.instances)' },
      },
    },
    closed: ['instances'],
  }],
};
