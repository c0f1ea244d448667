// C24: element-wise and key-wise equality.
const eqCb = { value: 'eqv(callee, $x, $y)', argNames: ['$x', '$y'], returns: 'Bool' };
const opts = {
  ghosts: { props: '(Array Int (Array Val Val))' },
  decls: `(declare-fun eqv (Int Val Val) Bool)
(declare-fun ownKeys (Int) (Array Val Bool))
(declare-fun card ((Array Val Bool)) Int)`,
  axioms: [
    // Finite sets: a subset of the same cardinality is the whole set.
    '(forall ((A (Array Val Bool)) (B (Array Val Bool))) (! (=> (and (= (card A) (card B)) (forall ((k Val)) (=> (select A k) (select B k)))) (= A B)) :pattern ((card A) (card B))))',
  ],
  specFns: {
    eqv: { smt: 'eqv', args: ['Ref', 'Val', 'Val'], ret: 'Bool' },
    eq_: { params: ['f', 'x', 'y'], types: [null, 'Val', 'Val'], expr: 'f === undefined ? is(x, y) : eqv(f, x, y)' },
    ownKeys: { smt: 'ownKeys', args: ['Ref'], ret: '(Array Val Bool)' },
    card: { smt: 'card', args: [null], ret: 'Int' },
    seqEq: { params: ['xs', 'ys', 'f'], types: ['array:Val', 'array:Val', null], expr: 'xs === ys || xs.length === ys.length && forall((j: Int) => implies(0 <= j && j < xs.length, eq_(f, xs[j], ys[j])), [xs[j]], [ys[j]])' },
    keyEq: { params: ['xs', 'ys', 'f'], expr: 'xs === ys || ownKeys(xs) === ownKeys(ys) && forall((k: Val) => implies(ownKeys(xs)[k], eq_(f, $props[xs][k], $props[ys][k])), [ownKeys(xs)[k]])' },
  },
};
export default {
  property: 'C24',
  units: [{
    opts,
    contracts: {
      isObject: {
        ensures: { 'an object that is not null and no function': 'result === (isRef(value) && !isFn(value))' },
      },
      sequentialEqual: {
        paramTypes: { xs: 'array:Val', ys: 'array:Val', equals: '?Ref' },
        requires: { 'objects': 'xs !== null && xs !== undefined && ys !== null && ys !== undefined', 'a function if given': 'equals !== null' },
        callbacks: { equals: eqCb },
        loops: [{
          name: 'comparison',
          inv: {
            'range': '0 <= i && i <= l && l === xs.length && xs.length === ys.length',
            'the elements before i are equal': 'forall((j: Int) => implies(0 <= j && j < i, eq_($equals, xs[j], ys[j])), [xs[j]], [ys[j]])',
          },
          dec: 'l - i',
        }],
        ensures: { 'exactly element-wise equality': 'result === seqEq(xs, ys, equals)' },
      },
      areDependenciesChanged: {
        paramTypes: { oldDeps: '?array:Val', newDeps: '?array:Val' },
        ensures: {
          'missing dependencies count as changed': 'implies(oldDeps === null || oldDeps === undefined || newDeps === null || newDeps === undefined, result)',
          'otherwise exactly when not sequentially equal': 'implies(oldDeps !== null && oldDeps !== undefined && newDeps !== null && newDeps !== undefined, result === !seqEq(oldDeps, newDeps, undefined))',
        },
      },
      shallowEqual: {
        paramTypes: { xs: 'Ref!', ys: 'Ref!', equals: '?Ref' },
        requires: { 'a function if given': 'equals !== null' },
        callbacks: { equals: eqCb },
        fresh: ['len', 'elems:Str'],
        loops: [{
          name: 'comparison',
          inv: {
            'range': '0 <= i && i <= l && l === ks1.length',
            'the keys before i agree': 'forall((j: Int) => implies(0 <= j && j < i, ownKeys(ys)[ks1[j]] && eq_($equals, $props[xs][ks1[j]], $props[ys][ks1[j]])), [ks1[j]])',
          },
          dec: 'l - i',
        }],
        ensures: { 'exactly key-wise equality': 'result === keyEq(xs, ys, equals)' },
      },
      'ext Object.keys': {
        assumed: 'Object.keys lists every own enumerable key once',
        params: ['o'], paramTypes: { o: 'Ref' }, returns: 'array:Str', freshResult: true, fresh: ['len', 'elems:Str'],
        ensures: {
          a: 'result.length === card(ownKeys(o))',
          b: 'forall((j: Int) => implies(0 <= j && j < result.length, ownKeys(o)[asVal(result[j])]), [result[j]])',
          c: 'forall((k: Val) => implies(ownKeys(o)[k], exists((j: Int) => 0 <= j && j < result.length && asVal(result[j]) === k)), [ownKeys(o)[k]])',
        },
      },
      'ext Object.hasOwn': {
        assumed: 'own properties of compared objects are enumerable',
        params: ['o', 'k'], paramTypes: { o: 'Ref', k: 'Val' }, value: 'ownKeys(o)[k]', returns: 'Bool',
      },
      'dyn get': { assumed: 'property reads of compared objects are pure', params: ['k'], paramTypes: { k: 'Val' }, value: '$props[this][k]', returns: 'Val' },
    },
  }],
};
