// C26: ids, identifiers and transition numbers.
import { runtimeSorts } from './lib-runtime.mjs';
export default {
  property: 'C26',
  units: [
    {
      // The counters of a runtime: each call takes the next number, and nothing
      // else writes them.
      opts: {
        strings: true,
        fieldSorts: { ...runtimeSorts, id: 'Val' },
        decls: `(declare-fun hostId (Int) Str)
(define-fun idOf ((h Str) (n Int)) Str (str.++ h (str.++ "-" (str.from_int n))))`,
        specFns: {
          hostId: { smt: 'hostId', args: ['Ref'], ret: 'Str' },
          idOf: { smt: 'idOf', args: ['Str', 'Int'], ret: 'Str' },
        },
      },
      contracts: {
        '*.getIdentifier': { assumed: 'the host adapter always returns the same identifier (proved for DOMAdapter below)', value: 'hostId(this)', returns: 'Str' },
        'Runtime.nextIdentifier': {
          modifies: ['this._identifierCount'],
          requires: { 'the counter is a natural number': 'this._identifierCount >= 0' },
          ensures: {
            'the identifier of the current number': 'result === idOf(hostId(this._adapter), old(this._identifierCount))',
            'the number is used up': 'this._identifierCount === old(this._identifierCount) + 1',
          },
        },
        'Runtime.nextTransition': {
          modifies: ['this._transitionCount'],
          requires: { 'the counter is a natural number': 'this._transitionCount >= 0' },
          ensures: {
            'the current number': 'result === old(this._transitionCount)',
            'the number is used up': 'this._transitionCount === old(this._transitionCount) + 1',
          },
        },
        'Runtime.constructor': {
          fresh: ['len', 'elems:Val', '_updateQueue', '_updateBatch', '_middlewares', '_adapter', '_pendingLanes', '_stagedLanes', '_flushLanes', '_identifierCount', '_transitionCount', '_updateCount'],
          noFrame: true,
          ensures: { 'the counters start at zero': 'this._identifierCount === 0 && this._transitionCount === 0 && this._updateCount === 0' },
        },
      },
      closed: ['_identifierCount', '_transitionCount'],
      lemmas: [
        { name: 'identifiers of different numbers differ', goal: '(forall ((h Str) (n Int) (m Int)) (=> (and (>= n 0) (> m n)) (not (= (idOf h n) (idOf h m)))))' },
        { name: 'every identifier starts with the host identifier', goal: '(forall ((h Str) (n Int)) (str.prefixof h (idOf h n)))' },
      ],
    },
    {
      opts: {
        strings: true,
        fieldSorts: { _identifier: 'Str' },
        decls: `(declare-fun code1 (Int) Str)
(declare-fun base36 (Int) Str)
(define-fun letter ((s Str)) Bool (str.in_re s (re.range "a" "z")))
(define-fun alnum ((s Str)) Bool (str.in_re s (re.union (re.range "a" "z") (re.range "0" "9"))))`,
        specFns: {
          letter: { smt: 'letter', args: ['Str'], ret: 'Bool' },
          alnum: { smt: 'alnum', args: ['Str'], ret: 'Bool' },
          slen: { smt: 'str.len', args: ['Str'], ret: 'Int' },
          chr: { smt: 'str.at', args: ['Str', 'Int'], ret: 'Str' },
        },
      },
      contracts: {
        'new Uint8Array': { assumed: 'a typed array of the given length', params: ['n'], paramTypes: { n: 'Int' }, returns: 'array:Int', freshResult: true, fresh: ['len', 'elems:Int'], ensures: { a: 'result.length === n' } },
        'ext crypto.getRandomValues': { assumed: 'fills the array with bytes', params: ['a'], paramTypes: { a: 'array:Int' }, returns: 'array:Int', modifies: ['elems(a)'], ensures: { a: 'result === a && a.length === old(a.length) && forall((i: Int) => 0 <= a[i] && a[i] <= 255, [a[i]])' } },
        'ext String.fromCharCode': { assumed: 'the character of the code', params: ['c'], paramTypes: { c: 'Int' }, returns: 'Str', ensures: { a: 'slen(result) === 1 && implies(97 <= c && c <= 122, letter(result))' } },
        '*.toString': { assumed: 'a digit of base 36 is one letter or digit', params: ['b'], paramTypes: { b: 'Int' }, returns: 'Str', requires: { 'base 36': 'b === 36' }, ensures: { a: 'implies(0 <= asInt(this) && asInt(this) < 36, slen(result) === 1 && alnum(result))' } },
        'Array.join': {
          assumed: "join('') concatenates", params: ['sep'], paramTypes: { sep: 'Str' }, returns: 'Str',
          requires: { 'no separator': "sep === ''" },
          ensures: {
            a: "implies(forall((i: Int) => implies(0 <= i && i < this.length, slen(typed(this, 'array:Str')[i]) === 1), [typed(this, 'array:Str')[i]]), slen(result) === this.length)",
            b: "implies(forall((i: Int) => implies(0 <= i && i < this.length, slen(typed(this, 'array:Str')[i]) === 1), [typed(this, 'array:Str')[i]]), forall((i: Int) => implies(0 <= i && i < this.length, chr(result, i) === typed(this, 'array:Str')[i]), [chr(result, i)], [typed(this, 'array:Str')[i]]))",
          },
        },
        generateUniqueIdentifier: {
          returns: 'Str',
          requires: { 'a positive length': 'length >= 1' },
          fresh: ['len', 'elems:Int', 'elems:Str'],
          loops: [{
            name: 'characters', outEl: 'Str',
            inv: {
              'one character per byte': '$out.length === $i && $i <= $arr.length',
              'letters and digits, a letter first': "forall((k: Int) => implies(0 <= k && k < $i, slen($out[k]) === 1 && (k === 0 ? letter($out[k]) : alnum($out[k]))), [$out[k]])",
            },
            dec: '$arr.length - $i',
          }],
          ensures: {
            'the given length': 'slen(result) === length',
            'a letter first': 'letter(chr(result, 0))',
            'letters and digits': 'forall((k: Int) => implies(0 < k && k < length, alnum(chr(result, k))), [chr(result, k)])',
          },
        },
        'DOMAdapter.constructor': {
          noFrame: true,
          allocates: true,
          ensures: { 'eight characters, a letter first': 'slen(this._identifier) === 8 && letter(chr(this._identifier, 0)) && forall((k: Int) => implies(0 < k && k < 8, alnum(chr(this._identifier, k))), [chr(this._identifier, k)])' },
        },
        'DOMAdapter.getIdentifier': { returns: 'Str', ensures: { 'the identifier of the adapter': 'result === this._identifier' } },
      },
      closed: ['_identifier'],
    },
  ],
};
