// C20: the router. Routes are described as at the entry of `match` by the
// uninterpreted functions routesAt/routesLen/patsOf/patsLen/childs (equal to the
// heap by a precondition that only names them); the specification of the
// search is the recursive function `sel` on them (the statement of the
// property, written as equations).
const decls = `
(define-fun isPtr ((r Int)) Bool (> r 0))
(declare-fun app (Int Str Str) Val)
(declare-fun nfn ((Array Int Val) Int) Int)
(declare-fun routesAt (Int Int) Int)
(declare-fun routesLen (Int) Int)
(declare-fun patsOf (Int) (Array Int Val))
(declare-fun patsLen (Int) Int)
(declare-fun childs (Int) Int)
(declare-fun path () (Array Int Str))
(declare-fun pathLen () Int)
(declare-fun theUrl () Str)
(declare-fun sel (Int Int Int) Int)
(declare-fun capN (Int Int Int) Int)
(declare-fun capOf (Int Int Int Int) Val)
(declare-fun capIx (Int Int) Int)
(declare-fun pieces (Str) (Array Int Str))
(declare-fun piecesLen (Str) Int)
(declare-fun stripped (Str) Str)
(declare-fun matches ((Array Int Val) Int (Array Int Str) Int Int Str) Bool)
(declare-fun unmatched ((Array Int Val) Int (Array Int Str) Int Int Str) Int)
(define-fun isF ((v Val)) Bool ((_ is VRef) v))
(define-fun okAt ((A (Array Int Val)) (i Int) (C (Array Int Str)) (s Int) (u Str)) Bool
  (ite (isF (select A i)) (not (= (app (vref (select A i)) (select C (+ s i)) u) VUndef)) (= (select A i) (VStr (select C (+ s i))))))
(define-fun mt ((r Int) (s Int)) Bool (matches (patsOf r) (patsLen r) path pathLen s theUrl))
(define-fun ncap ((r Int)) Int (nfn (patsOf r) (patsLen r)))
(define-fun capAt ((r Int) (s Int) (j Int)) Val (app (vref (select (patsOf r) (capIx r j))) (select path (+ s (capIx r j))) theUrl))
(define-fun ends ((r Int) (s Int)) Bool (and (mt r s) (= (+ s (patsLen r)) pathLen)))
(define-fun descends ((r Int) (s Int)) Bool (and (mt r s) (not (= (+ s (patsLen r)) pathLen)) (> (routesLen (childs r)) 0)))`;
const axioms = [
  // matches: all patterns match the components from s on
  '(forall ((A (Array Int Val)) (n Int) (C (Array Int Str)) (L Int) (s Int) (u Str)) (! (=> (matches A n C L s u) (and (<= (+ s n) L) (forall ((i Int)) (! (=> (and (<= 0 i) (< i n)) (okAt A i C s u)) :pattern ((select A i)))))) :pattern ((matches A n C L s u))))',
  '(forall ((A (Array Int Val)) (n Int) (C (Array Int Str)) (L Int) (s Int) (u Str)) (! (=> (and (not (matches A n C L s u)) (<= (+ s n) L)) (and (<= 0 (unmatched A n C L s u)) (< (unmatched A n C L s u) n) (not (okAt A (unmatched A n C L s u) C s u)))) :pattern ((matches A n C L s u))))',
  // nfn: number of matchers among the first i patterns
  '(forall ((A (Array Int Val))) (! (= (nfn A 0) 0) :pattern ((nfn A 0))))',
  '(forall ((A (Array Int Val)) (i Int)) (! (=> (<= 0 i) (= (nfn A (+ i 1)) (+ (nfn A i) (ite (isF (select A i)) 1 0)))) :pattern ((nfn A (+ i 1))) :pattern ((nfn A i) (select A i))))',
  '(forall ((A (Array Int Val)) (i Int)) (! (=> (<= 0 i) (<= 0 (nfn A i))) :pattern ((nfn A i))))',
  // capIx(r, j): the position of the j-th matcher of a route
  '(forall ((r Int) (j Int)) (! (=> (and (<= 0 j) (< j (ncap r))) (and (<= 0 (capIx r j)) (< (capIx r j) (patsLen r)) (isF (select (patsOf r) (capIx r j))) (= (nfn (patsOf r) (capIx r j)) j))) :pattern ((capIx r j))))',
  // the search: the first route that ends here or into which we descend
  ...['sel', 'capN'].map((f) => {
    const [none, here, plus] = f === 'sel' ? ['0', 'r', (x) => x] : ['0', '(ncap r)', (x) => `(+ (ncap r) ${x})`];
    return `(forall ((R Int) (k Int) (s Int)) (! (= (${f} R k s) (ite (>= k (routesLen R)) ${none} (let ((r (routesAt R k))) (ite (ends r s) ${here} (ite (descends r s) ${plus(`(${f} (childs r) 0 (+ s (patsLen r)))`)} (${f} R (+ k 1) s)))))) :pattern ((${f} R k s) (routesAt R k))))`;
  }),
  '(forall ((R Int) (k Int) (s Int)) (! (=> (>= k (routesLen R)) (and (= (sel R k s) 0) (= (capN R k s) 0))) :pattern ((sel R k s)) :pattern ((capN R k s))))',
  '(forall ((R Int) (k Int) (s Int) (j Int)) (! (=> (< k (routesLen R)) (= (capOf R k s j) (let ((r (routesAt R k))) (ite (ends r s) (capAt r s j) (ite (descends r s) (ite (< j (ncap r)) (capAt r s j) (capOf (childs r) 0 (+ s (patsLen r)) (- j (ncap r)))) (capOf R (+ k 1) s j)))))) :pattern ((capOf R k s j) (routesAt R k))))',
];
const F = (name, args, ret) => ({ smt: name, args, ret });
const specFns = {
  isPtr: F('isPtr', ['Ref'], 'Bool'),
  app: F('app', ['Ref', 'Str', 'Str'], 'Val'),
  nfn: F('nfn', [null, 'Int'], 'Int'),
  isF: F('isF', ['Val'], 'Bool'),
  okAt: F('okAt', [null, 'Int', null, 'Int', 'Str'], 'Bool'),
  matches: F('matches', [null, 'Int', null, 'Int', 'Int', 'Str'], 'Bool'),
  unmatched: F('unmatched', [null, 'Int', null, 'Int', 'Int', 'Str'], 'Int'),
  routesAt: { ...F('routesAt', ['Ref', 'Int'], 'Ref'), h: 'Route' },
  routesLen: F('routesLen', ['Ref'], 'Int'),
  patsOf: F('patsOf', ['Ref'], '(Array Int Val)'),
  patsLen: F('patsLen', ['Ref'], 'Int'),
  childs: F('childs', ['Ref'], 'Ref'),
  path_: F('path', [], '(Array Int Str)'),
  pathLen: F('pathLen', [], 'Int'),
  theUrl: F('theUrl', [], 'Str'),
  sel: { ...F('sel', ['Ref', 'Int', 'Int'], 'Ref'), h: 'Route' },
  capN: F('capN', ['Ref', 'Int', 'Int'], 'Int'),
  capOf: F('capOf', ['Ref', 'Int', 'Int', 'Int'], 'Val'),
  capAt: F('capAt', ['Ref', 'Int', 'Int'], 'Val'),
  capIx: F('capIx', ['Ref', 'Int'], 'Int'),
  ncap: F('ncap', ['Ref'], 'Int'),
  pieces: F('pieces', ['Str'], '(Array Int Str)'),
  piecesLen: F('piecesLen', ['Str'], 'Int'),
  stripped: F('stripped', ['Str'], 'Str'),
};
export default {
  property: 'C20',
  units: [
    {
      opts: {
        decls, axioms, specFns,
        ghosts: { ncalls: 'Int', answer: 'Val' },
        fieldSorts: { patterns: 'array:Val', childRoutes: 'array:Route', resolver: '?Ref', _routes: 'array:Route' },
      },
      contracts: {
        stripLeadingSlash: { assumed: 'discharged in the unit below, over strings', value: 'stripped(path)' },
        'String.split': {
          assumed: "String.prototype.split('/')", params: ['sep'], paramTypes: { sep: 'Str' }, returns: 'array:Str', freshResult: true, fresh: ['len', 'elems:Str'],
          requires: { 'a slash': "sep === '/'" },
          ensures: { a: 'result.length === piecesLen(this) && elems(result) === pieces(this)' },
        },
        collectCaptures: {
          paramTypes: { patterns: 'array:Val', components: 'array:Str' },
          returns: '?array:Val',
          requires: { 'a start position': 'startIndex >= 0', 'patterns are strings or functions': 'forall((k: Int) => implies(0 <= k && k < patterns.length, isType(patterns[k], "string") || isF(patterns[k]) && isFn(patterns[k])), [elems(patterns)[k]])' },
          callbacks: { '*': { argNames: ['$c', '$u'], value: 'app(callee, $c, $u)', returns: 'Val' } },
          fresh: ['len', 'elems:Val'],
          loops: [{
            name: 'patterns',
            inv: {
              'range': '$startIndex <= $i && $i <= $startIndex + patterns.length',
              'the patterns so far match': 'forall((k: Int) => implies(0 <= k && k < $i - $startIndex, okAt(elems(patterns), k, elems(components), $startIndex, $url)), [elems(patterns)[k]])',
              'the captures so far, in order': 'captures.length === nfn(elems(patterns), $i - $startIndex) && forall((k: Int) => implies(0 <= k && k < $i - $startIndex && isF(patterns[k]), nfn(elems(patterns), k) < captures.length && captures[nfn(elems(patterns), k)] === app(asRef(patterns[k]), components[$startIndex + k], $url)), [elems(patterns)[k]])',
            },
            dec: '$startIndex + patterns.length - $i',
          }],
          ensures: {
            'an array or null': 'result !== undefined',
            'a result exactly if all patterns match': '(result !== null) === matches(elems(patterns), patterns.length, elems(components), components.length, startIndex, url)',
            'one capture per matcher': 'implies(result !== null, fresh(result) && result.length === nfn(elems(patterns), patterns.length))',
            'in path order': 'implies(result !== null, forall((k: Int) => implies(0 <= k && k < patterns.length && isF(patterns[k]), nfn(elems(patterns), k) < result.length && result[nfn(elems(patterns), k)] === app(asRef(patterns[k]), components[startIndex + k], url)), [elems(patterns)[k]]))',
          },
        },
        'Router.match': {
          returns: 'Val',
          requires: {
            'the routes are named': `forall((R: Ref, k: Int) => routesAt(R, k) === elems(typed(R, 'array:Route'))[k] && routesLen(R) === typed(R, 'array:Route').length, [routesAt(R, k)], [elems(typed(R, 'array:Route'))[k]])
              && forall((R: Ref) => routesLen(R) === typed(R, 'array:Route').length, [routesLen(R)])
              && forall((r: Route) => patsOf(r) === elems(r.patterns) && patsLen(r) === r.patterns.length && childs(r) === r.childRoutes, [patsOf(r)], [patsLen(r)], [childs(r)])`,
            'the root routes': 'this_ === this._routes',
            'the path is named': 'path_() === pieces(stripped(url)) && pathLen() === piecesLen(stripped(url)) && theUrl() === url',
            'routes are complete': `forall((R: Ref, k: Int) => isPtr(routesAt(R, k)), [routesAt(R, k)])
              && forall((r: Route) => implies(isPtr(r), isPtr(r.patterns) && isPtr(r.childRoutes)), [patsOf(r)], [childs(r)])
              && forall((r: Route, k: Int) => implies(0 <= k && k < patsLen(r), isType(patsOf(r)[k], "string") || isF(patsOf(r)[k]) && isFn(patsOf(r)[k])), [patsOf(r)[k]])
              && forall((r: Route) => implies(isPtr(r.resolver), isFn(r.resolver)), [r.resolver])`,
          },
          callbacks: {
            '*': {
              argNames: ['$captures', '$u'], paramTypes: { $captures: 'array:Val', $u: 'Str' },
              requires: {
                'the resolver of the selected route': 'callee === sel(this_, 0, 0).resolver',
                'once': '$ncalls === 0',
                'with the url': '$u === url',
                'with exactly the captures': '$captures.length === capN(this_, 0, 0) && forall((j: Int) => implies(0 <= j && j < $captures.length, $captures[j] === capOf(this_, 0, 0, j)), [$captures[j]])',
              },
              modifies: ['$ncalls'], returns: 'Val',
              ensures: { a: '$ncalls === old($ncalls) + 1', b: 'is(result, $answer)' },
            },
          },
          logical: { this_: 'Ref' },
          entry: { ncalls: '0' },
          fresh: ['len', 'elems:Str', 'elems:Val'],
          modifies: ['$ncalls'],
          loops: [{
            name: 'search',
            inv: {
              'range': '!fresh(routes) && 0 <= routeIndex && routeIndex <= routes.length && 0 <= componentIndex && componentIndex <= components.length',
              'the rest of the search decides': 'sel($this_, 0, 0) === sel(routes, routeIndex, componentIndex)',
              'the captures so far': 'fresh(collectedCaptures) && collectedCaptures.length + capN(routes, routeIndex, componentIndex) === capN($this_, 0, 0) && forall((j: Int) => implies(0 <= j && j < collectedCaptures.length, collectedCaptures[j] === capOf($this_, 0, 0, j)), [elems(collectedCaptures)[j]], [capOf($this_, 0, 0, j)])',
              'the remaining captures': 'forall((j: Int) => implies(collectedCaptures.length <= j, capOf($this_, 0, 0, j) === capOf(routes, routeIndex, componentIndex, j - collectedCaptures.length)), [capOf($this_, 0, 0, j)])',
              'the resolver has not been called': '$ncalls === 0',
            },
          }],
          ensures: {
            'the resolver of the selected route is called once': '$ncalls === (isPtr(sel(this_, 0, 0)) && isPtr(sel(this_, 0, 0).resolver) ? 1 : 0)',
            'its result is returned, or undefined': 'is(result, $ncalls === 1 ? $answer : undefined)',
          },
        },
        route: {
          paramTypes: { patterns: 'array:Val', resolver: '?Ref', childRoutes: '?array:Route' },
          returns: 'Route', freshResult: true,
          requires: { 'child routes': 'childRoutes !== null' },
          fresh: ['patterns', 'resolver', 'childRoutes', 'len', 'elems:Ref'],
          ensures: { 'as given': 'result.patterns === patterns && result.resolver === resolver && (childRoutes === undefined ? result.childRoutes.length === 0 : result.childRoutes === childRoutes)' },
        },
      },
    },
    {
      opts: { strings: true },
      contracts: {
        stripLeadingSlash: { ensures: { 'one leading slash is dropped': "result === (path.startsWith('/') ? path.slice(1) : path)" } },
      },
    },
  ],
};
