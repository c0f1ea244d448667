// C12: composing partials is writing their contents in place.
//
// Partials and the strings and values they are made of never change after
// construction (frozen, and no function here writes to arrays it was given),
// so pm(p), pS(p) and pV(p) name the number of values, the strings and the
// values of a partial p. What "written in place" means is stated by position:
//   pos(A, i)     number of values in front of the i-th one of A, when the
//                 partials among them are replaced with their values
//   acc(A, B, i)  the string that is still open there: B[i], after what
//                 comes from partials directly in front of it
//   segAt(A, B, k, t), valAt(A, k, t)  the t-th string and value which the
//                 k-th value of A stands for
//   np, ls        number of partials, and of their strings, among the first i
//   shape(A, C, n)  the first n values are partials at the same positions,
//                 made of the same strings
const AV = '(Array Int Val)';
const AS = '(Array Int Str)';
const AI = '(Array Int Int)';
const decls = `
(declare-fun isP (Val) Bool)
(declare-fun pm (Int) Int)
(declare-fun pS (Int) ${AS})
(declare-fun pV (Int) ${AV})
(declare-fun pos (${AV} Int) Int)
(declare-fun np (${AV} Int) Int)
(declare-fun ls (${AV} Int) Int)
(declare-fun acc (${AV} ${AS} Int) Str)
(declare-fun segAt (${AV} ${AS} Int Int) Str)
(declare-fun valAt (${AV} Int Int) Val)
(declare-fun cat (Str Str) Str)
(declare-fun isList (Int) Bool)
(define-fun m ((v Val)) Int (pm (vref v)))
(define-fun w ((v Val)) Int (ite (isP v) (m v) 1))`;
const at = (c, f, k = 'i') => `(forall ((A ${AV}) (i Int)) (! (=> (<= 0 i) ${c}) :pattern ((${f} A (+ i 1))) :pattern ((${f} A i) (select A i))))`;
const defs = [
  `(forall ((v Val)) (! (=> (isP v) (and ((_ is VRef) v) (> (vref v) 0))) :pattern ((isP v))))`,
  `(forall ((p Int)) (! (>= (pm p) 0) :pattern ((pm p))))`,
  `(forall ((A ${AV})) (! (= (pos A 0) 0) :pattern ((pos A 0))))`,
  at('(= (pos A (+ i 1)) (+ (pos A i) (w (select A i))))', 'pos'),
  `(forall ((A ${AV}) (B ${AS})) (! (= (acc A B 0) (select B 0)) :pattern ((acc A B 0))))`,
  `(forall ((A ${AV}) (B ${AS}) (i Int)) (! (=> (<= 0 i) (= (acc A B (+ i 1)) (ite (isP (select A i)) (cat (ite (= (m (select A i)) 0) (cat (acc A B i) (select (pS (vref (select A i))) 0)) (select (pS (vref (select A i))) (m (select A i)))) (select B (+ i 1))) (select B (+ i 1))))) :pattern ((acc A B (+ i 1))) :pattern ((acc A B i) (select A i))))`,
  `(forall ((A ${AV}) (B ${AS}) (k Int) (t Int)) (! (= (segAt A B k t) (ite (isP (select A k)) (ite (= t 0) (cat (acc A B k) (select (pS (vref (select A k))) 0)) (select (pS (vref (select A k))) t)) (acc A B k))) :pattern ((segAt A B k t))))`,
  `(forall ((A ${AV}) (k Int) (t Int)) (! (= (valAt A k t) (ite (isP (select A k)) (select (pV (vref (select A k))) t) (select A k))) :pattern ((valAt A k t))))`,
];
// by induction (lemmas below)
const derived = [
  `(forall ((A ${AV}) (k Int) (i Int)) (! (=> (and (<= 0 k) (< k i)) (<= (+ (pos A k) (w (select A k))) (pos A i))) :pattern ((pos A k) (pos A i))))`,
  `(forall ((A ${AV}) (i Int)) (! (=> (<= 0 i) (<= 0 (pos A i))) :pattern ((pos A i))))`,
];
// What arrays hold, as predicates (length and elements):
//   enc(.., A, n)        the strings and positions that describe the shape
//   filled(.., A, B, n)  the strings with everything written in place
//   filledV(.., A, n)    the values with everything written in place
const decls2 = `
(declare-fun enc (Int ${AS} Int ${AI} ${AV} Int) Bool)
(declare-fun filled (Int ${AS} ${AV} ${AS} Int) Bool)
(declare-fun filledV (Int ${AV} ${AV} Int) Bool)
(declare-fun shape (${AV} ${AV} Int) Bool)
(declare-fun eqS (Int ${AS} Int ${AS}) Bool)
(declare-fun eqI (Int ${AI} Int ${AI}) Bool)`;
const inAll = '(and (<= 0 k) (< k n))';
const encBody = `(and (= l1 (ls A n)) (= l2 (* 2 (np A n)))
  (forall ((k Int)) (! (=> (and ${inAll} (isP (select A k))) (and (= (select Y (* 2 (np A k))) k) (= (select Y (+ (* 2 (np A k)) 1)) (+ (m (select A k)) 1)))) :pattern ((np A k))))
  (forall ((k Int) (t Int)) (! (=> (and ${inAll} (isP (select A k)) (<= 0 t) (<= t (m (select A k)))) (= (select X (+ (ls A k) t)) (select (pS (vref (select A k))) t))) :pattern ((ls A k) (select (pS (vref (select A k))) t)))))`;
const filledBody = `(and (= l (+ (pos A n) 1)) (= (select O (pos A n)) (acc A B n))
  (forall ((k Int) (t Int)) (! (=> (and ${inAll} (<= 0 t) (< t (w (select A k)))) (= (select O (+ (pos A k) t)) (segAt A B k t))) :pattern ((segAt A B k t)))))`;
const filledVBody = `(and (= l (pos A n))
  (forall ((k Int) (t Int)) (! (=> (and ${inAll} (<= 0 t) (< t (w (select A k)))) (= (select O (+ (pos A k) t)) (valAt A k t))) :pattern ((valAt A k t)))))`;
const eqBody = '(and (= a b) (forall ((q Int)) (! (=> (and (<= 0 q) (< q a)) (= (select X q) (select Y q))) :pattern ((select X q)) :pattern ((select Y q)))))';
const sameAt = `(and (= (isP (select A k)) (isP (select C k))) (=> (isP (select A k)) (and (= (m (select A k)) (m (select C k)))
  (forall ((t Int)) (! (=> (and (<= 0 t) (<= t (m (select A k)))) (= (select (pS (vref (select A k))) t) (select (pS (vref (select C k))) t))) :pattern ((select (pS (vref (select A k))) t)))))))`;
const shapeBody = `(forall ((k Int)) (! (=> ${inAll} ${sameAt}) :pattern ((select A k)) :pattern ((select C k))))`;
const steps = [
  `(forall ((A ${AV})) (! (and (= (np A 0) 0) (= (ls A 0) 0)) :pattern ((np A 0)) :pattern ((ls A 0))))`,
  at('(= (np A (+ i 1)) (+ (np A i) (ite (isP (select A i)) 1 0)))', 'np'),
  at('(= (ls A (+ i 1)) (+ (ls A i) (ite (isP (select A i)) (+ (m (select A i)) 1) 0)))', 'ls'),
];
const encDef = `(forall ((l1 Int) (X ${AS}) (l2 Int) (Y ${AI}) (A ${AV}) (n Int)) (! (= (enc l1 X l2 Y A n) ${encBody}) :pattern ((enc l1 X l2 Y A n))))`;
const filledDef = `(forall ((l Int) (O ${AS}) (A ${AV}) (B ${AS}) (n Int)) (! (= (filled l O A B n) ${filledBody}) :pattern ((filled l O A B n))))`;
const filledVDef = `(forall ((l Int) (O ${AV}) (A ${AV}) (n Int)) (! (= (filledV l O A n) ${filledVBody}) :pattern ((filledV l O A n))))`;
const eqDefs = [
  `(forall ((a Int) (X ${AS}) (b Int) (Y ${AS})) (! (= (eqS a X b Y) ${eqBody}) :pattern ((eqS a X b Y))))`,
  `(forall ((a Int) (X ${AI}) (b Int) (Y ${AI})) (! (= (eqI a X b Y) ${eqBody}) :pattern ((eqI a X b Y))))`,
];
const eqSym = [`(forall ((a Int) (X ${AS}) (b Int) (Y ${AS})) (! (= (eqS a X b Y) (eqS b Y a X)) :pattern ((eqS a X b Y))))`, `(forall ((a Int) (X ${AI}) (b Int) (Y ${AI})) (! (= (eqI a X b Y) (eqI b Y a X)) :pattern ((eqI a X b Y))))`];
const shapeDef = `(forall ((A ${AV}) (C ${AV}) (n Int)) (! (= (shape A C n) ${shapeBody}) :pattern ((shape A C n))))`;
// by the lemmas below
const sums = ['np', 'ls'].map((f) => `(forall ((A ${AV}) (k Int) (i Int)) (! (=> (and (<= 0 k) (< k i)) (<= (+ (${f} A k) (ite (isP (select A k)) ${f === 'np' ? '1' : '(+ (m (select A k)) 1)'} 0)) (${f} A i))) :pattern ((${f} A k) (${f} A i))))`);
const lsBounds = `(forall ((A ${AV}) (i Int)) (! (=> (<= 0 i) (<= 0 (ls A i))) :pattern ((ls A i))))`;
const encIsShape = `(forall ((a Int) (X ${AS}) (b Int) (Y ${AI}) (A ${AV}) (n Int) (c Int) (Z ${AS}) (d Int) (W ${AI}) (C ${AV})) (! (=> (and (<= 0 n) (enc a X b Y A n) (enc c Z d W C n)) (= (shape A C n) (and (eqS c Z a X) (eqI d W b Y)))) :pattern ((enc a X b Y A n) (enc c Z d W C n))))`;
const sameFilled = `(forall ((l Int) (O ${AS}) (A ${AV}) (C ${AV}) (B ${AS}) (n Int)) (! (=> (and (<= 0 n) (shape A C n) (filled l O C B n)) (filled l O A B n)) :pattern ((shape A C n) (filled l O C B n))))`;
const F = (smt, args, ret) => ({ smt, args, ret });
const specFns = {
  isP: F('isP', ['Val'], 'Bool'), pm: F('pm', ['Ref'], 'Int'), pS: F('pS', ['Ref'], AS), pV: F('pV', ['Ref'], AV),
  pos: F('pos', [null, 'Int'], 'Int'), np: F('np', [null, 'Int'], 'Int'), ls: F('ls', [null, 'Int'], 'Int'),
  acc: F('acc', [null, null, 'Int'], 'Str'), segAt: F('segAt', [null, null, 'Int', 'Int'], 'Str'), valAt: F('valAt', [null, 'Int', 'Int'], 'Val'),
  w: F('w', ['Val'], 'Int'), isList: F('isList', ['Ref'], 'Bool'), cat: F('cat', ['Str', 'Str'], 'Str'),
};
const specFns2 = {
  ...specFns,
  enc: F('enc', ['Int', null, 'Int', null, null, 'Int'], 'Bool'), filled: F('filled', ['Int', null, null, null, 'Int'], 'Bool'), filledV: F('filledV', ['Int', null, null, 'Int'], 'Bool'),
  shape: F('shape', [null, null, 'Int'], 'Bool'),
};
const fieldSorts = { strings: 'array:Str', values: 'array:Val', interpolatedStrings: 'array:Str', literalStrings: 'array:Str', literalPositions: 'array:Int' };
const names = {
  'isP names the partials': "forall((v: Val) => isP(v) === (isRef(v) && isClass(asRef(v), 'Partial')), [isP(v)])",
  'pm, pS and pV name what partials are made of': "forall((p: Partial) => implies(allocated(p) && isClass(p, 'Partial'), p.values.length === pm(p) && p.strings.length === pm(p) + 1 && elems(p.strings) === pS(p) && elems(p.values) === pV(p) && allocated(p.strings) && allocated(p.values) && p.strings !== null && p.strings !== undefined && p.values !== null && p.values !== undefined && !isList(p.strings) && !isList(p.values)), [p.strings], [p.values], [pm(p)])",
};
const segs = (out, n, A, B) => `forall((k: Int, t: Int) => implies(0 <= k && k < ${n} && 0 <= t && t < w(${A}[k]), ${out}[pos(${A}, k) + t] === segAt(${A}, ${B}, k, t)), [segAt(${A}, ${B}, k, t)])`;
const vals = (out, n, A) => `forall((k: Int, t: Int) => implies(0 <= k && k < ${n} && 0 <= t && t < w(${A}[k]), ${out}[pos(${A}, k) + t] === valAt(${A}, k, t)), [valAt(${A}, k, t)])`;
const A = 'elems(values)';
const B = 'elems(strings)';
const O = 'interpolatedStrings';
const J = `(interpolatedIndex - pos(${A}, i))`;
const interpolatePartials = {
  paramTypes: { strings: 'array:Str', values: 'array:Val' }, returns: 'array:Str', freshResult: true,
  fresh: ['len', 'elems:Str'],
  requires: { ...names, 'one string more than values': 'strings.length === values.length + 1', 'arrays': 'allocated(strings) && allocated(values) && !isList(strings) && !isList(values)', 'allocated values': 'forall((k: Int) => implies(0 <= k && k < values.length && isP(values[k]), allocated(asRef(values[k]))), [values[k]])' },
  loops: [
    {
      name: 'values',
      inv: {
        range: `0 <= i && i <= l && l === values.length && fresh(${O})`,
        'the strings so far': `interpolatedIndex === pos(${A}, i) && ${O}.length === pos(${A}, i) + 1`,
        'the finished strings': segs(O, 'i', A, B),
        'the open string': `${O}[pos(${A}, i)] === acc(${A}, ${B}, i)`,
      },
      dec: 'l - i',
    },
    {
      name: 'strings of a partial',
      inv: {
        // (the index of the first of the others is 0 or 1)
        range: `(j === ${J} && m === pm(asRef(value)) || j === ${J} + 1 && m === pm(asRef(value)) + 1) && 0 <= ${J} && ${J} <= pm(asRef(value)) && fresh(${O}) && isP(value) && is(value, ${A}[i]) && 0 <= i && i < l && l === values.length`,
        'the strings so far': `${O}.length === interpolatedIndex + 1`,
        'the finished strings': segs(O, 'i', A, B),
        'those of the partial': `forall((t: Int) => implies(0 <= t && t < ${J}, ${O}[pos(${A}, i) + t] === segAt(${A}, ${B}, i, t)), [segAt(${A}, ${B}, i, t)])`,
        'the open string': `${O}[interpolatedIndex] === segAt(${A}, ${B}, i, ${J})`,
      },
      dec: 'm - j',
    },
  ],
  ensures: {
    'no list of the cache': '!isList(result)',
    'one string more than values': `result.length === pos(${A}, values.length) + 1`,
    'the strings between the values': segs('result', 'values.length', A, B),
    'the last string': `result[pos(${A}, values.length)] === acc(${A}, ${B}, values.length)`,
  },
};
// the lists of the cache are arrays of their own type
const onArray = (v, r, st, el) => st.assume(el.h?.name === 'Interpolation' ? `(isList ${r})` : `(not (isList ${r}))`);
const opts = { plainCls: true, onArray, fieldSorts, decls, axioms: [...defs, ...derived], specFns };
const isPartials = { 'one string more than values': 'strings.length === values.length + 1', 'arrays': 'allocated(strings) && allocated(values) && !isList(strings) && !isList(values)', 'allocated values': 'forall((k: Int) => implies(0 <= k && k < values.length && isP(values[k]), allocated(asRef(values[k]))), [values[k]])' };
Object.assign(interpolatePartials.ensures, names);
interpolatePartials.ensures['all of them'] = `filled(result.length, elems(result), ${A}, ${B}, values.length)`;
// The cache: for each site (array of strings) the list of what was interpolated
// there; $wit[e] are values that the entry e was made for.
const C = 'INTERPOLATION_CACHE';
const T = (s) => `typed(asRef(${s}), 'array:Str')`;
const L = (s) => `at(${C}, ${s})`;
const entry = (e, s) => `filled(${e}.interpolatedStrings.length, elems(${e}.interpolatedStrings), $wit[${e}], elems(${T(s)}), ${T(s)}.length - 1) && enc(${e}.literalStrings.length, elems(${e}.literalStrings), ${e}.literalPositions.length, elems(${e}.literalPositions), $wit[${e}], ${s}.length - 1)`;
const each = (body, pats = '[at(INTERPOLATION_CACHE, s)[k]]') => `forall((s: Val, k: Int) => implies(has(${C}, s) && 0 <= k && k < ${L('s')}.length, ${body}), ${pats})`;
const cache = {
  'the sites': `forall((s: Val) => implies(has(${C}, s), isRef(s) && allocated(asRef(s)) && ${L('s')} !== null && ${L('s')} !== undefined && allocated(${L('s')}) && isList(${L('s')}) && !isList(asRef(s)) && ${T('s')}.length >= 1), [has(${C}, s)])`,
  'each site has a list of its own': `forall((s: Val, z: Val) => implies(has(${C}, s) && has(${C}, z) && s !== z, ${L('s')} !== ${L('z')}), [[${L('s')}, ${L('z')}]])`,
  'entries': each(`${L('s')}[k] !== null && ${L('s')}[k] !== undefined && allocated(${L('s')}[k]) && allocated(${L('s')}[k].interpolatedStrings) && allocated(${L('s')}[k].literalStrings) && allocated(${L('s')}[k].literalPositions) && ${L('s')}[k].interpolatedStrings !== null && ${L('s')}[k].literalStrings !== null && ${L('s')}[k].literalPositions !== null && !isList(${L('s')}[k].interpolatedStrings) && !isList(${L('s')}[k].literalStrings) && !isList(${L('s')}[k].literalPositions)`),
  'what the entries hold': each(entry(`${L('s')}[k]`, 's')),
  'no two entries share their strings': `forall((s: Val, k: Int, j: Int) => implies(has(${C}, s) && 0 <= k && k < j && j < ${L('s')}.length, ${L('s')}[k].interpolatedStrings !== ${L('s')}[j].interpolatedStrings), [[${L('s')}[k], ${L('s')}[j]]])`,
  'nor has one those of the site': each(`${L('s')}[k].interpolatedStrings !== asRef(s)`),
};
const was = `(old(has(${C}, s)) && 0 <= k && k < old(${L('s')}.length))`;
const grows = `forall((s: Val, k: Int) => implies(old(has(${C}, s)) && 0 <= k && k < old(${L('s')}.length), has(${C}, s) && ${L('s')} === old(${L('s')}) && k < ${L('s')}.length && ${L('s')}[k] === old(${L('s')}[k]) && $wit[${L('s')}[k]] === old($wit[${L('s')}[k]])), [old(${L('s')}[k])])`;
const LL = 'literalStrings';
const LP = 'literalPositions';
const FV = 'flattenedValues';
const seqHook = (v, { args, st }) => {
  const part = (a) => `(select ${v.heap(st, 'len').name} ${a.t})`;
  const el = (a) => `(select ${v.heap(st, `el:${v.elSort(a.h.el)}`).name} ${a.t})`;
  const f = v.elSort(args[0].h.el) === 'Str' ? 'eqS' : 'eqI';
  return [{ k: 'val', st, v: { s: 'Bool', t: `(${f} ${args.map((a) => `${part(a)} ${el(a)}`).join(' ')})` } }];
};
const onPush = (v, self, args, st, cx) => {
  if (args[0].s !== 'Ref' || self.h?.el?.h?.name !== 'Interpolation') return;
  const h = v.heap(st, 'g:wit').name;
  const a = v.specEval(A, st, { ...cx, spec: true }).t;
  v.hset(st, 'g:wit', v.newConst('wit', v.opts.ghosts.wit, `(store ${h} ${args[0].t} ${a})`));
  v.onWrite?.('g:wit', 'ghost', st);
};
const LSTR = L('asVal(strings)');
const sh = (k) => `shape(${A}, $wit[${LSTR}[${k}]], values.length)`;
const shared = (k) => `0 <= ${k} && ${k} < ${LSTR}.length && result.strings === ${LSTR}[${k}].interpolatedStrings && ${sh(k)}`;
const parse = {
  split: true,   paramTypes: { strings: 'array:Str', values: 'array:Val' }, returns: 'Partial', freshResult: true,
  requires: { ...names, ...isPartials, ...cache },
  modifies: [`entries(${C})`, '*elems:Ref', '$wit', '$hit'], fresh: ['len', 'elems:Str', 'elems:Int', 'elems:Val', 'strings', 'values', 'interpolatedStrings', 'literalStrings', 'literalPositions'], allocates: true,
  loops: [
    {
      name: 'values',
      inv: {
        range: `0 <= i && i <= l && l === values.length && fresh(${LL}) && fresh(${LP}) && fresh(${FV})`,
        'what describes the shape: lengths': `${LL}.length === ls(${A}, i) && ${LP}.length === 2 * np(${A}, i)`,
        'the positions of the partials': `forall((k: Int) => implies(0 <= k && k < i && isP(${A}[k]), ${LP}[2 * np(${A}, k)] === k && ${LP}[2 * np(${A}, k) + 1] === pm(asRef(${A}[k])) + 1), [np(${A}, k)])`,
        'their strings': `forall((k: Int, t: Int) => implies(0 <= k && k < i && isP(${A}[k]) && 0 <= t && t <= pm(asRef(${A}[k])), ${LL}[ls(${A}, k) + t] === pS(asRef(${A}[k]))[t]), [[ls(${A}, k), pS(asRef(${A}[k]))[t]]])`,
        'the values so far': `${FV}.length === pos(${A}, i)`,
        'each in its place': vals(FV, 'i', A),
        ...names,
        'all in place without partials': `implies(ls(${A}, i) === 0, forall((k: Int) => implies(0 <= k && k <= i, pos(${A}, k) === k && acc(${A}, ${B}, k) === ${B}[k] && implies(k < i, !isP(${A}[k]))), [pos(${A}, k)], [acc(${A}, ${B}, k)]))`,
      },
      dec: 'l - i',
    },
    {
      name: 'known interpolations',
      inv: {
        range: '0 <= $i && $i <= $arr.length',
        'the shape is described': `enc(${LL}.length, elems(${LL}), ${LP}.length, elems(${LP}), ${A}, values.length) && ls(${A}, values.length) > 0`,
        'the values are in place': `filledV(${FV}.length, elems(${FV}), ${A}, values.length)`,
        ...names,
        'none so far has the shape': `forall((k: Int) => implies(0 <= k && k < $i, !shape(${A}, $wit[$arr[k]], values.length)), [$arr[k]])`,
      },
    },
  ],
  ensures: {
    'the strings are those with the partials written in place': `filled(result.strings.length, elems(result.strings), ${A}, ${B}, values.length)`,
    'so are the values': `filledV(result.values.length, elems(result.values), ${A}, values.length)`,
    ...names, ...cache,
    // (in two parts)
    'what the entries hold': undefined,
    'what the earlier entries hold': `forall((s: Val, k: Int) => implies(${was}, ${entry(`${L('s')}[k]`, 's')}), [${L('s')}[k]])`,
    'what new entries hold': each(`${was} || ${entry(`${L('s')}[k]`, 's')}`),
    'nothing is dropped from the cache': grows,
    'without partials nothing changes': `implies(ls(${A}, values.length) === 0, result.strings === strings && result.values === values)`,
    'the strings are those of an entry of the same shape': `implies(ls(${A}, values.length) > 0, exists((k: Int) => ${shared('k')}, [${LSTR}[k]]))`,
    'of the first one': `implies(ls(${A}, values.length) > 0, forall((k: Int) => implies(0 <= k && k < ${LSTR}.length && ${sh('k')} && forall((j: Int) => implies(0 <= j && j < k, !${sh('j')}), [${LSTR}[j]]), result.strings === ${LSTR}[k].interpolatedStrings), [${LSTR}[k]]))`,
  },
};
delete parse.ensures['what the entries hold'];
const opts2 = { plainCls: true, onArray, fieldSorts, decls: decls + decls2, axioms: [...defs, ...derived, ...steps, encDef, filledDef, filledVDef, ...eqDefs, ...eqSym, shapeDef, ...sums, lsBounds, encIsShape, sameFilled], specFns: specFns2, ghosts: { wit: `(Array Int ${AV})`, hit: 'Int' }, onPush };
// ---- templates
const K = 'children';
const AK = 'elems(children)';
const wraps = (el, v) => `wrapped(${el}, ${v})`;
const composed = (mode) => ({
  paramTypes: { strings: 'array:Str', children: 'array:Val' }, returns: 'VNode',
  requires: Object.fromEntries(Object.entries({ ...names, ...isPartials, ...cache }).map(([k, e]) => [k, e.replace(/\bvalues(?=[.)[])/g, (x, at, t) => (t[at - 1] === '.' ? x : 'children'))])),
  modifies: parse.modifies, fresh: [...parse.fresh, 'type', 'props', 'children', 'key', 'mode', 'elems:Ref'], allocates: true,
  ensures: {
    'the strings are those with the partials written in place': `filled(typed(asRef(result.type), 'array:Str').length, elems(typed(asRef(result.type), 'array:Str')), ${AK}, ${B}, children.length)`,
    'one child per value': `result.children.length === pos(${AK}, children.length)`,
    'each child wraps its value': `forall((k: Int, t: Int) => implies(0 <= k && k < children.length && 0 <= t && t < w(${AK}[k]), ${wraps(`result.children[pos(${AK}, k) + t]`, `valAt(${AK}, k, t)`)}), [valAt(${AK}, k, t)])`,
    'the mode': `asRef(result.props).mode === '${mode}'`,
    ...names,
  },
});
const templateOpts = {
  ...opts2,
  decls: opts2.decls + '\n(declare-fun wrapped (Int Val) Bool)',
  fieldSorts: { ...fieldSorts, type: 'Val', props: 'Val', children: 'array:VNode', key: 'Val', mode: 'Str' },
  specFns: { ...specFns2, wrapped: F('wrapped', ['Ref', 'Val'], 'Bool') },
};
const createTemplate = {
  assumed: 'proved with C27 (there wrapped is the ghost relation $wr)', params: ['mode', 'strings', 'children'], paramTypes: { mode: 'Str', strings: 'array:Str', children: 'array:Val' }, returns: 'VNode', freshResult: true,
  fresh: ['type', 'props', 'children', 'key', 'mode', 'len', 'elems:Ref', 'elems:Val', 'value'], allocates: true,
  ensures: {
    a: 'asRef(result.type) === strings && asRef(result.props).mode === mode && result.children.length === children.length',
    b: `forall((j: Int) => implies(0 <= j && j < children.length, ${wraps('result.children[j]', 'children[j]')}), [result.children[j]], [children[j]])`,
    ...names,
  },
};
// ---- the axioms that are not definitions, by induction
const ind = (axioms, facts, goal) => `(declare-sort Str 0)
(declare-datatypes ((Val 0)) (((VUndef) (VRef (vref Int)))))
${decls}${decls2}
(declare-const A ${AV})
(declare-const C ${AV})
(declare-const B ${AS})
(declare-const X ${AS})
(declare-const Z ${AS})
(declare-const Y ${AI})
(declare-const W ${AI})
(declare-const O ${AS})
(declare-const a Int)
(declare-const b Int)
(declare-const c Int)
(declare-const d Int)
(declare-const l Int)
(declare-const n Int)
(declare-const i Int)
(declare-const k Int)
(declare-const q Int)
(declare-const j Int)
(declare-const h Int)
(declare-const s1 Str)
(declare-const s2 Str)
(assert (<= 0 i))
(assert (<= 0 n))
${axioms.map((x) => `(assert ${x})`).join('\n')}
${facts.map((x) => `(assert ${x})`).join('\n')}
(assert (not ${goal}))
(check-sat)`;
const stepAt = (f, V, i, by) => `(= (${f} ${V} (+ ${i} 1)) (+ (${f} ${V} ${i}) ${by(`(select ${V} ${i})`)}))`;
const byOf = { pos: (v) => `(w ${v})`, np: (v) => `(ite (isP ${v}) 1 0)`, ls: (v) => `(ite (isP ${v}) (+ (m ${v}) 1) 0)` };
// claims P(i), by P(0) and P(i) => P(i + 1)
const induct = (name, axioms, P, from = '0', facts = []) => [
  { name: `${name} (beginning)`, script: ind(axioms, facts, P(from)) },
  { name: `${name} (step)`, script: ind(axioms, [...facts, `(<= ${from} i)`, P('i')], P('(+ i 1)')) },
];
const sameSums = (i) => `(and ${['pos', 'np', 'ls'].map((f) => `(= (${f} A ${i}) (${f} C ${i}))`).join(' ')})`;
const bothEnc = [`(enc a X b Y A n)`, `(enc c Z d W C n)`];
const sameArrays = ['(eqS c Z a X)', '(eqI d W b Y)'];
const base = [...defs, ...steps];
const more = [...base, ...sums];
// C has a partial at or after i if fewer than all are before i
const nextP = `(forall ((i Int)) (! (=> (and (<= 0 i) (<= i n) (< (np C i) (np C n))) (exists ((j Int)) (and (<= i j) (< j n) (isP (select C j)) (= (np C j) (np C i))))) :pattern ((np C i))))`;
const next = (V, j) => `(=> (< (np ${V} i) (np ${V} n)) (and (<= i ${j}) (< ${j} n) (isP (select ${V} ${j})) (= (np ${V} ${j}) (np ${V} i))))`;
const nextPA = nextP.replaceAll(' C ', ' A ');
const upTo = (i, f) => `(=> (<= ${i} n) ${f})`;
const lemmas = [
  { name: 'equality is symmetric', script: ind(eqDefs, ['(eqS a X b Z)', '(eqI a Y b W)'], '(and (eqS b Z a X) (eqI b W a Y))') },
  ...['pos', 'np', 'ls'].flatMap((f) => [
    ...induct(`${f} grows with what it counts`, base, (x) => `(<= (+ (${f} A k) ${byOf[f]('(select A k)')}) (${f} A ${x}))`, '(+ k 1)', ['(<= 0 k)']),
    ...induct(`${f} is not negative`, base, (x) => `(<= 0 (${f} A ${x}))`),
  ]),
  { name: 'a next partial (end)', script: ind(more, [], '(=> (< (np C n) (np C n)) false)') },
  { name: 'a next partial (step backwards)', script: ind(more, ['(< i n)', '(=> (< (np C (+ i 1)) (np C n)) (and (<= (+ i 1) q) (< q n) (isP (select C q)) (= (np C q) (np C (+ i 1)))))', '(< (np C i) (np C n))'], '(or (and (isP (select C i)) (= (np C i) (np C i))) (and (<= i q) (< q n) (isP (select C q)) (= (np C q) (np C i))))') },
  // (in two steps: isP, then the sums; j and h are the next partials of C and A)
  { name: 'equal encodings: partials in the same places', script: ind([...more, encDef, ...eqDefs], [...bothEnc, ...sameArrays, '(< i n)', '(= (np A i) (np C i))', next('C', 'j'), next('A', 'h')], '(= (isP (select A i)) (isP (select C i)))') },
  ...induct('equal encodings: the same sums', [...more, encDef, ...eqDefs], (x) => upTo(x, `(and (= (np A ${x}) (np C ${x})) (= (ls A ${x}) (ls C ${x})))`), '0', [...bothEnc, ...sameArrays, '(=> (and (< i n) (= (np A i) (np C i))) (= (isP (select A i)) (isP (select C i))))']),
  { name: 'equal encodings: the same shape', script: ind([...more, encDef, ...eqDefs, nextP, nextPA], [...bothEnc, ...sameArrays, '(forall ((i Int)) (! (=> (and (<= 0 i) (<= i n)) (and (= (np A i) (np C i)) (= (ls A i) (ls C i)))) :pattern ((np A i)) :pattern ((ls A i)) :pattern ((select A i))))', '(< i n)'], sameAt.replaceAll('(select A k)', '(select A i)').replaceAll('(select C k)', '(select C i)')) },
  ...induct('the same shape: the same sums', [...base, shapeDef], (x) => upTo(x, sameSums(x)), '0', ['(shape A C n)']),
  ...induct('every string belongs to a partial', more, (x) => `(=> (and (<= 0 q) (< q (ls A ${x}))) ${x === '0' ? 'false' : x === 'i' ? '(and (<= 0 k) (< k i) (isP (select A k)) (<= (ls A k) q) (<= q (+ (ls A k) (m (select A k)))))' : '(or (and (<= 0 k) (< k (+ i 1)) (isP (select A k)) (<= (ls A k) q) (<= q (+ (ls A k) (m (select A k))))) (and (isP (select A i)) (<= (ls A i) q) (<= q (+ (ls A i) (m (select A i))))))'})`),
  ...induct('every position belongs to a partial', more, (x) => `(=> (and (<= 0 q) (< q (* 2 (np A ${x})))) ${x === '0' ? 'false' : x === 'i' ? '(and (<= 0 k) (< k i) (isP (select A k)) (or (= q (* 2 (np A k))) (= q (+ 1 (* 2 (np A k))))))' : '(or (and (<= 0 k) (< k (+ i 1)) (isP (select A k)) (or (= q (* 2 (np A k))) (= q (+ 1 (* 2 (np A k)))))) (and (isP (select A i)) (or (= q (* 2 (np A i))) (= q (+ 1 (* 2 (np A i)))))))'})`),
  ...[['strings', 'X', 'Z', 'ls', '(and (<= (ls A k) q) (<= q (+ (ls A k) (m (select A k)))))', '(= a c)', 'a'], ['positions', 'Y', 'W', 'np', '(or (= q (* 2 (np A k))) (= q (+ 1 (* 2 (np A k)))))', '(= b d)', 'b']].map(([what, P, Q, , own, len, top]) => ({
    name: `the same shape: equal ${what}`,
    script: ind([encDef, shapeDef], [...bothEnc, '(shape A C n)', sameSums('n'), sameSums('k'),
      '(= s1 (select (pS (vref (select A k))) (- q (ls A k))))', '(= s2 (select (pS (vref (select C k))) (- q (ls C k))))',
      `(=> (and (<= 0 q) (< q ${top})) (and (<= 0 k) (< k n) (isP (select A k)) ${own}))`], `(and ${len} (=> (and (<= 0 q) (< q ${top})) (= (select ${P} q) (select ${Q} q))))`),
  })),
  ...induct('the same shape: the same open strings', [...base, shapeDef], (x) => upTo(x, `(= (acc A B ${x}) (acc C B ${x}))`), '0', ['(shape A C n)']),
  { name: 'the same shape: the same result', script: ind([defs[0], defs[1], defs[6], shapeDef, filledDef], ['(shape A C n)', '(filled l O C B n)', `(forall ((i Int)) (! (=> (and (<= 0 i) (<= i n)) (and ${sameSums('i')} (= (acc A B i) (acc C B i)))) :pattern ((pos A i)) :pattern ((acc A B i)) :pattern ((select A i))))`], '(filled l O A B n)') },
  { name: 'to have the same shape is symmetric', script: ind([shapeDef], ['(shape A C n)'], '(shape C A n)') },
  { name: 'and transitive', script: ind([shapeDef], ['(shape A C n)', '(shape C D n)'], '(shape A D n)').replace('(declare-const B', `(declare-const D ${AV})\n(declare-const B`) },
];
export default {
  property: 'C12',
  units: [
    { opts: { ...opts, decls: decls + decls2, axioms: [...opts.axioms, filledDef], specFns: specFns2 }, contracts: { interpolatePartials }, lemmas },
    {
      solve: { order: ['cvc5', 'z3', 'z3nombqi'], t1: 6, t2: 10, t3: 20 },
      opts: opts2,
      closed: ['interpolatedStrings', 'literalStrings', 'literalPositions'],
      contracts: {
        interpolatePartials: { ...interpolatePartials, assumed: 'proved above' },
        sequentialEqual: { assumed: 'proved with C24 (strings and integers are equal there when they are the same)', params: ['xs', 'ys'], hook: seqHook },
        'Partial.constructor': {
          assumed: 'the fields are those given (readonly; the rest only names them)', paramTypes: { strings: 'array:Str', values: 'array:Val' }, modifies: ['this.strings', 'this.values'],
          ensures: { f: 'this.strings === strings && this.values === values', n: 'pm(this) === values.length && pS(this) === elems(strings) && pV(this) === elems(values) && isP(asVal(this))' },
        },
        'Partial.parse': parse,
      },
    },
    {
      opts: { fieldSorts },
      contracts: {
        'Partial.constructor': {
          paramTypes: { strings: 'array:Str', values: 'array:Val' }, modifies: ['this.strings', 'this.values'],
          ensures: { 'the fields are those given': 'this.strings === strings && this.values === values' },
        },
        'Partial.literal': {
          paramTypes: { value: 'Str' }, returns: 'Partial', allocates: true, fresh: ['len', 'elems:Str', 'elems:Val', 'strings', 'values'],
          ensures: { 'one string, no values': 'result.strings.length === 1 && result.strings[0] === value && result.values.length === 0' },
        },
      },
    },
    {
      solve: { order: ['cvc5', 'z3', 'z3nombqi'], t1: 6, t2: 10, t3: 20 },
      opts: templateOpts,
      contracts: {
        'Partial.parse': { ...parse, rest: true, restEl: 'Val', assumed: 'proved above' },
        createTemplate,
        'Partial.html': composed('html'), 'Partial.math': composed('math'), 'Partial.svg': composed('svg'),
      },
    },
  ],
};
