// C21: route matchers. A matcher called by a combinator may be any function,
// impure ones included: the k-th call made yields `$res[k]`; `$calls` and
// `$ncalls` record which matchers were called, with the given component and
// url (required at every call).
const ghosts = { res: '(Array Int Val)', calls: '(Array Int Int)', ncalls: 'Int' };
const matcherCall = {
  argNames: ['$c', '$u'],
  requires: { 'with the component and the url': 'is($c, component) && is($u, url)' },
  modifies: ['$calls', '$ncalls'],
  returns: 'Val',
  ensures: {
    recorded: '$ncalls === old($ncalls) + 1 && $calls === store(old($calls), old($ncalls), callee)',
    result: 'result === $res[old($ncalls)]',
  },
};
const curried = { params: { component: 'Str', url: 'Str' }, entry: { ncalls: '0' }, havoc: ['$res', '$calls', '$ncalls'] };
export default {
  property: 'C21',
  units: [{
    opts: {
      ghosts,
      decls: `(declare-fun decodedOf (Str) Val)
(declare-fun parseInt10 (Str) Val)
(declare-fun printed (Val) Str)
(declare-fun matchOf (Int Str) Val)
(declare-fun applied (Int Val) Val)
(define-fun below21 ((n Int)) Bool (and (< n 1000000000000000000000) (> n (- 1000000000000000000000))))`,
      axioms: [
        // Number.parseInt yields an integer, -0 or NaN.
        '(forall ((s Str)) (! (or ((_ is VInt) (parseInt10 s)) (= (parseInt10 s) VNaN) (= (parseInt10 s) VNegZero)) :pattern ((parseInt10 s))))',
        // An integer is printed in decimal form below 10^21, which parses back to it.
        '(forall ((n Int)) (! (=> (below21 n) (= (parseInt10 (printed (VInt n))) (VInt n))) :pattern ((printed (VInt n)))))',
        '(= (printed VNegZero) (printed (VInt 0)))',
      ],
      specFns: {
        parseInt10: { smt: 'parseInt10', args: ['Str'], ret: 'Val' },
        printed: { smt: 'printed', args: ['Val'], ret: 'Str' },
        decodedOf: { smt: 'decodedOf', args: ['Str'], ret: 'Val' },
        matchOf: { smt: 'matchOf', args: ['Ref', 'Str'], ret: 'Val' },
        below21: { smt: 'below21', args: ['Int'], ret: 'Bool' },
        isInt: { smt: '(_ is VInt)', args: ['Val'], ret: 'Bool' },
        intVal: { smt: 'VInt', args: ['Int'], ret: 'Val' },
      },
    },
    contracts: {
      'ext Number.parseInt': { assumed: 'Number.parseInt(s, 10)', params: ['s', 'radix'], paramTypes: { s: 'Str', radix: 'Int' }, requires: { 'radix 10': 'radix === 10' }, value: 'parseInt10(s)', returns: 'Val' },
      '*.toString': { assumed: 'Number.prototype.toString', params: [], value: 'printed(this)', returns: 'Str' },
      'ext decodeURIComponent': { assumed: 'decodeURIComponent', params: ['s'], paramTypes: { s: 'Str' }, value: 'decodedOf(s)', returns: 'Val' },
      'String.match': { assumed: 'String.prototype.match', params: ['re'], paramTypes: { re: 'Ref' }, value: 'matchOf(re, this)', returns: 'Val' },
      integer: {
        returns: 'Val',
        ensures: {
          'nothing but integers in the form in which they are printed': 'result === undefined || isInt(result) && printed(result) === component',
          'every such form below 10^21': 'forall((n: Int) => implies(below21(n) && printed(intVal(n)) === component, result === intVal(n)), [printed(intVal(n))])',
        },
      },
      encoded: { ensures: { 'the component itself': 'result === component' } },
      decoded: { returns: 'Val', ensures: { 'its decoded form': 'is(result, decodedOf(component))' } },
      keyword: { curried, returns: 'Val', ensures: { 'exactly the keyword': 'is(result, component === s ? asVal(s) : undefined)' } },
      regexp: { curried, paramTypes: { pattern: 'Ref!' }, returns: 'Val', ensures: { 'the match if there is one': 'is(result, matchOf(pattern, component) === null ? undefined : matchOf(pattern, component))' } },
      choice: {
        curried,
        returns: 'Val',
        paramTypes: { matchers: 'array:Ref!' },
        callbacks: { '*': matcherCall },
        modifies: ['$calls', '$ncalls'],
        loops: [{
          name: 'choice',
          inv: {
            'every matcher so far was called in order and yielded nothing': '$ncalls === $i && forall((k: Int) => implies(0 <= k && k < $i, $calls[k] === elems(matchers)[k] && $res[k] === undefined), [$calls[k]])',
          },
        }],
        ensures: {
          'in order, once each, no later one': '0 <= $ncalls && $ncalls <= matchers.length && forall((k: Int) => implies(0 <= k && k < $ncalls, $calls[k] === elems(matchers)[k]), [$calls[k]])',
          'all but the last call yielded nothing': 'forall((k: Int) => implies(0 <= k && k < $ncalls - 1, $res[k] === undefined), [$res[k]])',
          'the first result': 'is(result, $ncalls === 0 ? undefined : $res[$ncalls - 1])',
          'all were asked if there is none': 'implies(result === undefined, $ncalls === matchers.length)',
        },
      },
      select: {
        curried, returns: 'Val',
        paramTypes: { matcher: 'Ref!', selector: 'Ref!' },
        requires: { 'two functions': 'matcher !== selector' },
        callbacks: {
          '*': {
            argNames: ['$c', '$u'],
            requires: {
              'the matcher is called first, once, with the component and the url': 'implies(callee === matcher, $ncalls === 0 && is($c, component) && is($u, url))',
              'the selector is called with what the matcher yielded': 'implies(callee === selector, $ncalls === 1 && $res[0] !== undefined && is($c, $res[0]))',
              'nothing else is called': 'callee === matcher || callee === selector',
            },
            modifies: ['$calls', '$ncalls'], returns: 'Val',
            ensures: matcherCall.ensures,
          },
        },
        modifies: ['$calls', '$ncalls'],
        ensures: {
          'the selector exactly if there is a result': '$ncalls === ($res[0] === undefined ? 1 : 2) && is(result, $res[0] === undefined ? undefined : $res[1])',
        },
      },
    },
  }],
};
