// C13: attribute, property, live, text, class and style holes reflect the last value.
//
// The host: has/attr are the attributes of an element, prop its properties and
// sets how often one has been assigned, tok the tokens of a class list, decl the
// declarations of a style (the empty string: none). Class and style maps are not
// changed once committed, so their own keys and values are functions.
const decls = `(define-fun isPtr ((r Int)) Bool (> r 0))
(declare-fun regexSrc (Int) Str)
(declare-fun memberOf (Val) Val)
(declare-fun callOf (Val) Val)
(declare-fun keysOf (Int) (Array Str Bool))
(declare-fun propOf (Int Str) Val)
(declare-fun tokensOf (Str) (Array Str Bool))
(declare-fun mentioned (Int Str) Bool)
(declare-fun keyFor (Int Str) Str)
(declare-fun keyAt (Int Str) Int)
(declare-fun listAt (Str Str) Int)
(declare-fun trimmed (Str) Str)
(declare-fun pieceOf (Str Str) Bool)
(declare-fun cssName (Str) Str)
(declare-fun declared (Int Str) Bool)
(declare-fun nameKey (Int Str) Str)
(declare-fun vendor (Str) Str)
(declare-fun dashed (Str) Str)
(declare-fun valueText (Val) Str)
(declare-fun textDeclares (Str Str) Bool)
(declare-fun declAt (Str Str) Int)
(declare-fun textValue (Str Str) Val)`;
const axioms = [
  // mentioned(m, t): a key of m contains the token t, and keyFor(m, t) is one.
  '(forall ((m Int) (k Str) (t Str)) (! (=> (and (select (keysOf m) k) (select (tokensOf k) t)) (mentioned m t)) :pattern ((select (keysOf m) k) (select (tokensOf k) t))))',
  '(forall ((m Int) (t Str)) (! (=> (mentioned m t) (and (select (keysOf m) (keyFor m t)) (select (tokensOf (keyFor m t)) t))) :pattern ((mentioned m t))))',
  // tokens: the non-empty pieces, with or without the white space around
  '(forall ((k Str) (t Str)) (! (= (select (tokensOf k) t) (and (truthyStr t) (pieceOf k t))) :pattern ((select (tokensOf k) t)) :pattern ((pieceOf k t))))',
  '(forall ((k Str) (t Str)) (! (=> (truthyStr t) (= (pieceOf (trimmed k) t) (pieceOf k t))) :pattern ((pieceOf (trimmed k) t)) :pattern ((pieceOf k t) (trimmed k))))',
  // declared(m, n): a key of m with a value stands for the property n, and nameKey(m, n) is one.
  '(forall ((m Int) (k Str)) (! (=> (and (select (keysOf m) k) (not (isNullish (propOf m k)))) (declared m (cssName k))) :pattern ((select (keysOf m) k) (cssName k)) :pattern ((propOf m k) (cssName k))))',
  '(forall ((m Int) (n Str)) (! (=> (declared m n) (and (select (keysOf m) (nameKey m n)) (not (isNullish (propOf m (nameKey m n)))) (= (cssName (nameKey m n)) n))) :pattern ((declared m n))))',
];
const nullish = (v) => `(${v} === null || ${v} === undefined)`;
const specFns = {
  isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' },
  regexSrc: { smt: 'regexSrc', args: ['Ref'], ret: 'Str' },
  memberOf: { smt: 'memberOf', args: ['Val'], ret: 'Val' }, callOf: { smt: 'callOf', args: ['Val'], ret: 'Val' },
  keysOf: { smt: 'keysOf', args: ['Ref'], ret: '(Array Str Bool)' }, propOf: { smt: 'propOf', args: ['Ref', 'Str'], ret: 'Val' },
  tokensOf: { smt: 'tokensOf', args: ['Str'], ret: '(Array Str Bool)' },
  strictEq: { smt: 'strictEq', args: ['Val', 'Val'], ret: 'Bool' },
  mentioned: { smt: 'mentioned', args: ['Ref', 'Str'], ret: 'Bool' }, keyFor: { smt: 'keyFor', args: ['Ref', 'Str'], ret: 'Str' },
  keyAt: { smt: 'keyAt', args: ['Ref', 'Str'], ret: 'Int' }, listAt: { smt: 'listAt', args: ['Str', 'Str'], ret: 'Int' },
  trimmed: { smt: 'trimmed', args: ['Str'], ret: 'Str' }, pieceOf: { smt: 'pieceOf', args: ['Str', 'Str'], ret: 'Bool' },
  cssName: { smt: 'cssName', args: ['Str'], ret: 'Str' }, declared: { smt: 'declared', args: ['Ref', 'Str'], ret: 'Bool' }, nameKey: { smt: 'nameKey', args: ['Ref', 'Str'], ret: 'Str' },
  vendor: { smt: 'vendor', args: ['Str'], ret: 'Str' }, dashed: { smt: 'dashed', args: ['Str'], ret: 'Str' }, valueText: { smt: 'valueText', args: ['Val'], ret: 'Str' },
  declAt: { smt: 'declAt', args: ['Str', 'Str'], ret: 'Int' },
  textDeclares: { smt: 'textDeclares', args: ['Str', 'Str'], ret: 'Bool' }, textValue: { smt: 'textValue', args: ['Str', 'Str'], ret: 'Val' },
  isMap: { params: ['v'], types: ['Val'], expr: 'isRef(v) && isPtr(asRef(v)) && !isFn(asRef(v))' },
  men: { params: ['v', 't'], types: ['Val', 'Str'], expr: '(isMap(v) ? mentioned(asRef(v), t) : tokensOf(strOf(v))[t])' },
  en: { params: ['v', 't'], types: ['Val', 'Str'], expr: '(isMap(v) ? !!propOf(asRef(v), keyFor(asRef(v), t)) : true)' },
  dec: { params: ['v', 'n'], types: ['Val', 'Str'], expr: '(isMap(v) ? declared(asRef(v), n) : textDeclares(strOf(v), n))' },
  decVal: { params: ['v', 'n'], types: ['Val', 'Str'], expr: '(isMap(v) ? valueText(propOf(asRef(v), nameKey(asRef(v), n))) : valueText(textValue(strOf(v), n)))' },
  strOf: { params: ['v'], types: ['Val'], expr: `${nullish('v')} || ${nullish('memberOf(v)')} || ${nullish('callOf(v)')} ? "" : asStr(callOf(v))` },
};
const opts = {
  decls, axioms, specFns, primitives: true,
  ghosts: { has: '(Array Int (Array Str Bool))', attr: '(Array Int (Array Str Str))', prop: '(Array Int (Array Str Val))', sets: '(Array Int Int)', tok: '(Array Int (Array Str Bool))', decl: '(Array Int (Array Str Str))' },
  fieldSorts: { _node: 'Ref!', _name: 'Str', classList: 'Ref!', style: 'Ref!', data: 'Str' },
};
// toString of a value is a method that gives a string
const method = (v) => `${nullish(v)} || ${nullish(`memberOf(${v})`)} || isRef(memberOf(${v})) && isPtr(asRef(memberOf(${v}))) && isFn(asRef(memberOf(${v}))) && (${nullish(`callOf(${v})`)} || typeof callOf(${v}) === "string")`;
const strings = {
  'get *.toString': { assumed: 'reading toString of a value is pure', anyValue: true, get: 'memberOf(this)', type: 'Val' },
  toStringOrEmpty: {
    paramTypes: { value: 'Val' }, returns: 'Str',
    requires: { 'a method if any': `${method('value')}` },
    callbacks: { toString: { assumed: 'toString of a value gives the same string each time', value: 'callOf(receiver)', returns: 'Val' } },
    ensures: { 'the string form': `result === strOf(value)` },
  },
};
const proved = (c) => ({ ...c, callbacks: undefined, assumed: 'proved above' });
const stringsOf = { ...strings, toStringOrEmpty: proved(strings.toStringOrEmpty) };
const host = (what, params, extra) => ({
  assumed: what, params, paramTypes: { name: 'Str', value: 'Str' }, returns: 'Val', caller: true, ...extra,
});
// What the attribute of a value is.
const attrIs = (v, has, attr) => ({
  'absent for null, undefined and false': `implies(${nullish(v)} || ${v} === false, !${has})`,
  'empty for true': `implies(${v} === true, ${has} && ${attr} === "")`,
  'the string form otherwise': `implies(!${nullish(v)} && typeof ${v} !== "boolean", ${has} && ${attr} === strOf(${v}))`,
});
const N = 'this._name', E = 'asRef(this._node)';
const attributeState = (v) => attrIs(v, `$has[${E}][${N}]`, `$attr[${E}][${N}]`);
const others = {
  'no other attribute': `forall((n: Str) => implies(n !== ${N}, $has[${E}][n] === old($has[${E}][n]) && $attr[${E}][n] === old($attr[${E}][n])), [$has[${E}][n]], [$attr[${E}][n]])`,
  'no other element': `forall((e: Int) => implies(e !== ${E}, $has[e] === old($has[e]) && $attr[e] === old($attr[e])), [$has[e]], [$attr[e]])`,
};
const attribute = {
  ...stringsOf,
  '*.setAttribute': host('setAttribute sets an attribute', ['name', 'value'], { modifies: ['$has', '$attr'], ensures: { a: '$has === store(old($has), this, store(old($has[this]), name, true)) && $attr === store(old($attr), this, store(old($attr[this]), name, value))' } }),
  '*.removeAttribute': host('removeAttribute removes an attribute', ['name'], { modifies: ['$has'], ensures: { a: '$has === store(old($has), this, store(old($has[this]), name, false))' } }),
  'AttributePart.commitMount': {
    exactThis: 'AttributePart', paramTypes: { value: 'Val' }, requires: { 'a method if any': method('value') },
    modifies: ['$has', '$attr'], ensures: { ...attributeState('value'), ...others },
  },
  'AttributePart.commitUpdate': {
    exactThis: 'AttributePart', paramTypes: { oldValue: 'Val', newValue: 'Val' }, requires: { 'a method if any': method('newValue'), ...attributeState('oldValue') },
    modifies: ['$has', '$attr'], ensures: { ...attributeState('newValue'), ...others },
  },
};
// Properties of the element: an assignment stores the value.
const P = `$prop[${E}][${N}]`;
const assigned = (v) => `$prop === store(old($prop), ${E}, store(old($prop[${E}]), ${N}, ${v})) && $sets[${E}] === old($sets[${E}]) + 1`;
const untouched = '$prop === old($prop) && $sets === old($sets)';
const properties = {
  'dyn get': { assumed: 'reading a property of the element is pure', params: ['k'], paramTypes: { k: 'Str' }, value: '$prop[this][k]', returns: 'Val', caller: true, requires: { 'of the element': `this === asRef($this._node)` } },
  'dyn set': { assumed: 'a property of the element holds what is assigned to it', params: ['k', 'v'], paramTypes: { k: 'Str', v: 'Val' }, returns: 'Val', caller: true, requires: { 'of the element': `this === asRef($this._node)` }, modifies: ['$prop', '$sets'], ensures: { a: '$prop === store(old($prop), this, store(old($prop[this]), k, v)) && $sets === store(old($sets), this, old($sets[this]) + 1)' } },
  'PropertyPart.commitMount': { paramTypes: { value: 'Val' }, modifies: ['$prop', '$sets'], ensures: { 'assigned once': assigned('value') } },
  'LivePart.commitMount': {
    paramTypes: { value: 'Val' }, modifies: ['$prop', '$sets'],
ensures: { 'assigned once, or equal already': `${assigned('value')} || ${untouched} && strictEq(old(${P}), value)` },
  },
  'LivePart.commitUpdate': {
    paramTypes: { _oldValue: 'Val', newValue: 'Val' }, modifies: ['$prop', '$sets'],
    ensures: { 'assigned once, or equal already': `${assigned('newValue')} || ${untouched} && strictEq(old(${P}), newValue)` },
  },
};
const update = {
  'PropertyPart.commitMount': { ...properties['PropertyPart.commitMount'], assumed: 'proved above' },
  'AttributePart.commitUpdate': {
    exactThis: 'PropertyPart', paramTypes: { oldValue: 'Val', newValue: 'Val' }, modifies: ['$prop', '$sets'],
    ensures: { 'assigned once when it differs': `implies(!is(oldValue, newValue), ${assigned('newValue')})`, 'nothing otherwise': `implies(is(oldValue, newValue), ${untouched})` },
  },
};
const text = {
  ...stringsOf,
  'CharacterDataPart.commitMount': { exactThis: 'CharacterDataPart', paramTypes: { value: 'Val' }, requires: { 'a method if any': method('value') }, modifies: ['typed(this._node, "CharacterData").data'], ensures: { 'the string form': `typed(this._node, "CharacterData").data === strOf(value)` } },
  'CharacterDataPart.commitUpdate': {
    exactThis: 'CharacterDataPart', paramTypes: { oldValue: 'Val', newValue: 'Val' }, requires: { 'a method if any': method('newValue'), 'the string form of the former value': `typed(this._node, "CharacterData").data === strOf(oldValue)` },
    modifies: ['typed(this._node, "CharacterData").data'], ensures: { 'the string form': `typed(this._node, "CharacterData").data === strOf(newValue)` },
  },
};
// Maps: object literals, their keys and values.
const objects = {
  onObject: (v, o, names, st, props) => { if (props.length === 0) st.assume(`(= (keysOf ${o.t}) ((as const (Array Str Bool)) false))`); },
  onComputed: (v, o, k, x, st, n) => {
    const key = v.co(k, 'Str', st, n);
    if (n.properties.length !== 1) return;
    st.assume(`(= (keysOf ${o.t}) (store ((as const (Array Str Bool)) false) ${key} true))`);
    st.assume(`(= (propOf ${o.t} ${key}) ${v.co(x, 'Val', st, n)})`);
  },
};
const maps = {
  'ext Object.keys': {
    assumed: 'Object.keys lists the own keys of a class or style map', params: ['o'], paramTypes: { o: 'Ref!' }, returns: 'array:Str', freshResult: true, fresh: ['len', 'elems:Str'],
    ensures: {
      a: 'forall((j: Int) => implies(0 <= j && j < result.length, keysOf(o)[result[j]] && keyAt(o, result[j]) === j), [result[j]])',
      b: 'forall((k: Str) => implies(keysOf(o)[k], 0 <= keyAt(o, k) && keyAt(o, k) < result.length && result[keyAt(o, k)] === k), [keysOf(o)[k]])',
    },
  },
  'ext Object.hasOwn': { assumed: 'own properties of class and style maps are enumerable', params: ['o', 'k'], paramTypes: { o: 'Ref!', k: 'Str' }, value: 'keysOf(o)[k]', returns: 'Bool' },
  'dyn get': { assumed: 'class and style maps do not change', params: ['k'], paramTypes: { k: 'Str' }, value: 'propOf(this, k)', returns: 'Val' },
};
const at = (f, x, t) => `${f}[${x}][${t}]`;
const frame = (g, x) => ({ 'nothing else': `forall((l: Int) => implies(l !== ${x}, ${g}[l] === old(${g}[l])), [${g}[l]])` });
const idOfRef = (e) => `asRef(asVal(${e}))`;
const uniqueTokens = (m) => `forall((k: Str, t: Str) => implies(keysOf(${m})[k] && tokensOf(k)[t], k === keyFor(${m}, t)), [[keysOf(${m})[k], tokensOf(k)[t]]])`;
const classes = {
  ...stringsOf, ...maps,
  'String.trim': { assumed: 'trim drops the white space around', params: [], value: 'trimmed(this)', returns: 'Str' },
  'String.split': {
    assumed: 'split lists the pieces between the white space', params: ['re'], paramTypes: { re: 'Ref!' }, returns: 'array:Str', freshResult: true, fresh: ['len', 'elems:Str'],
    requires: { 'at white space': 'regexSrc(re) === "/\\\\s+/"' },
    ensures: {
      a: 'forall((j: Int) => implies(0 <= j && j < result.length, pieceOf(this, result[j])), [result[j]])',
      b: 'forall((t: Str) => implies(pieceOf(this, t), 0 <= listAt(this, t) && listAt(this, t) < result.length && result[listAt(this, t)] === t), [pieceOf(this, t)])',
    },
  },
  '*.toggle': {
    assumed: 'toggle adds or removes a token', params: ['token', 'force'], paramTypes: { token: 'Str', force: 'Bool' }, returns: 'Bool', caller: true,
    requires: { 'a token': 'token !== ""' }, modifies: ['$tok'], ensures: { a: '$tok === store(old($tok), this, store(old($tok[this]), token, force))' },
  },
  toggleClass: {
    paramTypes: { classList: 'Ref!', component: 'Str', enabled: 'Bool' }, modifies: ['$tok'], allocates: true, fresh: ['len', 'elems:Str'],
    loops: [{
      name: 'tokens',
      inv: {
        'range': '0 <= $i && $i <= $arr.length',
        'the tokens before': 'forall((j: Int) => implies(0 <= j && j < $i && $arr[j] !== "", $tok[classList][$arr[j]] === enabled), [$arr[j]])',
        'the others': 'forall((t: Str) => $tok[classList][t] === pre($tok[classList][t]) || tokensOf(component)[t] && $tok[classList][t] === enabled, [$tok[classList][t]])',
        'other lists': 'forall((l: Int) => implies(l !== classList, $tok[l] === pre($tok[l])), [$tok[l]])',
      },
    }],
    ensures: {
      'its tokens are there or not': 'forall((t: Str) => $tok[classList][t] === (tokensOf(component)[t] ? enabled : old($tok[classList][t])), [$tok[classList][t]], [tokensOf(component)[t]])',
      ...frame('$tok', 'classList'),
    },
  },
  updateClass: {
    paramTypes: { classList: 'Ref!', oldTokens: 'Ref!', newTokens: 'Ref!' }, modifies: ['$tok'], allocates: true, fresh: ['len', 'elems:Str'],
    requires: { 'keys share no token': `${uniqueTokens('oldTokens')} && ${uniqueTokens('newTokens')}`, 'the tokens of the old map': 'forall((t: Str) => implies(mentioned(oldTokens, t), $tok[classList][t] === !!propOf(oldTokens, keyFor(oldTokens, t))), [mentioned(oldTokens, t)], [$tok[classList][t]])' },
    loops: [{
      name: 'former classes',
      inv: {
        'range': '0 <= $i && $i <= $arr.length',
        'the tokens before': 'forall((j: Int, t: Str) => implies(0 <= j && j < $i && !keysOf(newTokens)[$arr[j]] && tokensOf($arr[j])[t], !$tok[classList][t]), [tokensOf($arr[j])[t]])',
        'the others': 'forall((t: Str) => $tok[classList][t] === pre($tok[classList][t]) || mentioned(oldTokens, t) && !keysOf(newTokens)[keyFor(oldTokens, t)] && !$tok[classList][t], [$tok[classList][t]])',
        'other lists': 'forall((l: Int) => implies(l !== classList, $tok[l] === pre($tok[l])), [$tok[l]])',
      },
    }, {
      name: 'classes',
      inv: {
        'range': '0 <= $i && $i <= $arr.length',
        'the tokens before': 'forall((j: Int, t: Str) => implies(0 <= j && j < $i && tokensOf($arr[j])[t], $tok[classList][t] === !!propOf(newTokens, $arr[j])), [tokensOf($arr[j])[t]])',
        'the others': 'forall((t: Str) => implies(!mentioned(newTokens, t) || $i <= keyAt(newTokens, keyFor(newTokens, t)), $tok[classList][t] === pre($tok[classList][t])), [$tok[classList][t]])',
        'other lists': 'forall((l: Int) => implies(l !== classList, $tok[l] === pre($tok[l])), [$tok[l]])',
      },
    }],
    ensures: {
      'the tokens of the new map': 'forall((t: Str) => implies(mentioned(newTokens, t), $tok[classList][t] === !!propOf(newTokens, keyFor(newTokens, t))), [mentioned(newTokens, t)], [$tok[classList][t]])',
      'not those of the old map only': 'forall((t: Str) => implies(!mentioned(newTokens, t) && mentioned(oldTokens, t), !$tok[classList][t]), [mentioned(oldTokens, t)], [$tok[classList][t]])',
      'the others': 'forall((t: Str) => implies(!mentioned(newTokens, t) && !mentioned(oldTokens, t), $tok[classList][t] === old($tok[classList][t])), [$tok[classList][t]])',
      ...frame('$tok', 'classList'),
    },
  },
  normalizeClass: {
    paramTypes: { value: 'Val' }, returns: 'Ref!', requires: { 'a method if any': method('value') }, allocates: true,
    ensures: {
      'a map as it is': 'implies(isMap(value), result === asRef(value))',
      'or the string form alone': 'implies(!isMap(value), forall((k: Str) => keysOf(result)[k] === (k === strOf(value)), [keysOf(result)[k]]) && propOf(result, strOf(value)) === true)',
    },
  },
};
const T = '$tok[asRef(typed(this._node, "Element").classList)]';
const classState = (v) => ({ 'the tokens of the value': `forall((t: Str) => implies(men(${v}, t), ${T}[t] === en(${v}, t)), [${T}[t]])` });
const uniqueIn = (v) => `implies(isMap(${v}), ${uniqueTokens(`asRef(${v})`)})`;
const classPart = {
  ...stringsOf, updateClass: { ...classes.updateClass, loops: undefined, assumed: 'proved above' }, normalizeClass: proved(classes.normalizeClass),
  'ClassPart.commitMount': {
    paramTypes: { value: 'Val' }, modifies: ['$tok'], allocates: true, fresh: ['len', 'elems:Str'],
    requires: { 'a method if any': method('value'), 'keys share no token': uniqueIn('value') },
    ensures: { ...classState('value'), 'the others': `forall((t: Str) => implies(!men(value, t), ${T}[t] === old(${T}[t])), [${T}[t]])` },
  },
  'ClassPart.commitUpdate': {
    paramTypes: { oldValue: 'Val', newValue: 'Val' }, modifies: ['$tok'], allocates: true, fresh: ['len', 'elems:Str'],
    requires: { 'a method if any': `(${method('oldValue')}) && (${method('newValue')})`, 'keys share no token': `${uniqueIn('oldValue')} && ${uniqueIn('newValue')}`, ...classState('oldValue') },
    ensures: {
      ...classState('newValue'),
      'not those of the former value only': `forall((t: Str) => implies(!men(newValue, t) && men(oldValue, t), !${T}[t]), [${T}[t]])`,
      'the others': `forall((t: Str) => implies(!men(newValue, t) && !men(oldValue, t), ${T}[t] === old(${T}[t])), [${T}[t]])`,
    },
  },
  'ClassPart.commitUnmount': {
    paramTypes: { value: 'Val', cascade: 'Bool' }, modifies: ['$tok'], allocates: true, fresh: ['len', 'elems:Str'],
    requires: { 'a method if any': method('value'), 'keys share no token': uniqueIn('value'), ...classState('value') },
    ensures: {
      'none of the value': `forall((t: Str) => implies(!cascade && men(value, t), !${T}[t]), [${T}[t]])`,
      'the others': `forall((t: Str) => implies(!men(value, t), ${T}[t] === old(${T}[t])), [${T}[t]])`,
    },
  },
};
// Styles.
const naming = {
  'String.replace': {
    assumed: 'replace puts a dash before the vendor prefix, or what the callback gives for each upper-case letter',
    params: ['re', 'by'],
    hook: (v, { self, args, st, cx, n }) => {
      const src = `(regexSrc ${v.co(args[0], 'Ref', st, n)})`;
      if (args[1].s === 'Str') {
        v.safety(st, `(= ${src} ${v.strLit('/^(webkit|moz|ms|o)(?=[A-Z])/')})`, 'the vendor prefixes', n);
        v.safety(st, `(= ${args[1].t} ${v.strLit('-$1')})`, 'a dash before the prefix', n);
        return [{ k: 'val', st, v: { s: 'Str', t: `(vendor ${self.t})` } }];
      }
      v.safety(st, `(= ${src} ${v.strLit('/[A-Z]/g')})`, 'every upper-case letter', n);
      const c = v.newConst('letter', 'Str');
      return v.callValue(args[1], [{ s: 'Str', t: c }], st, cx, n).map((o) => {
        if (o.k !== 'val') return o;
        v.declFun('str_toLowerCase_0', ['Str'], 'Str');
        v.declFun('cat', ['Str', 'Str'], 'Str');
        v.safety(o.st, `(= ${v.co(o.v, 'Str', o.st, n)} (cat ${v.strLit('-')} (str_toLowerCase_0 ${c})))`, 'a dash and the lower-case letter', n);
        return { ...o, v: { s: 'Str', t: `(dashed ${self.t})` } };
      });
    },
  },
  toCSSPropertyName: {
    paramTypes: { key: 'Str' }, returns: 'Str',
    ensures: { 'custom properties as they are, the others in kebab case': 'result === (key.startsWith("--") ? key : dashed(vendor(key)))' },
  },
};
const D = (s) => `$decl[${s}]`;
const uniqueNames = (m) => `forall((k: Str) => implies(keysOf(${m})[k] && !${nullish(`propOf(${m}, k)`)}, k === nameKey(${m}, cssName(k))), [keysOf(${m})[k]])`;
const styles = {
  ...stringsOf, ...maps,
  toCSSPropertyName: { assumed: 'a function of the key, proved above', paramTypes: { key: 'Str' }, returns: 'Str', value: 'cssName(key)' },
  '*.removeProperty': { assumed: 'removeProperty drops a declaration', params: ['name'], paramTypes: { name: 'Str' }, returns: 'Str', modifies: ['$decl'], ensures: { a: '$decl === store(old($decl), this, store(old($decl[this]), name, ""))' } },
  '*.setProperty': { assumed: 'setProperty declares a valid value', params: ['name', 'value'], paramTypes: { name: 'Str', value: 'Val' }, returns: 'Val', modifies: ['$decl'], ensures: { a: '$decl === store(old($decl), this, store(old($decl[this]), name, valueText(value)))' } },
  updateStyle: {
    paramTypes: { style: 'Ref!', oldProps: 'Ref!', newProps: 'Ref!' }, modifies: ['$decl'], allocates: true, fresh: ['len', 'elems:Str'],
    requires: { 'keys stand for different properties': uniqueNames('newProps') },
    loops: [{
      name: 'former declarations',
      inv: {
        'range': '0 <= $i && $i <= $arr.length',
        'the declarations before': `forall((j: Int) => implies(0 <= j && j < $i && !${nullish('propOf(oldProps, $arr[j])')} && (!keysOf(newProps)[$arr[j]] || ${nullish('propOf(newProps, $arr[j])')}), $decl[style][cssName($arr[j])] === ""), [$arr[j]])`,
        'the others': 'forall((n: Str) => $decl[style][n] === pre($decl[style][n]) || declared(oldProps, n) && $decl[style][n] === "", [$decl[style][n]])',
        'other styles': 'forall((l: Int) => implies(l !== style, $decl[l] === pre($decl[l])), [$decl[l]])',
      },
    }, {
      name: 'declarations',
      inv: {
        'range': '0 <= $i && $i <= $arr.length',
        'the declarations before': `forall((j: Int) => implies(0 <= j && j < $i && !${nullish('propOf(newProps, $arr[j])')}, $decl[style][cssName($arr[j])] === valueText(propOf(newProps, $arr[j]))), [$arr[j]])`,
        'the others': 'forall((n: Str) => implies(!declared(newProps, n), $decl[style][n] === pre($decl[style][n])), [$decl[style][n]])',
        'other styles': 'forall((l: Int) => implies(l !== style, $decl[l] === pre($decl[l])), [$decl[l]])',
      },
    }],
    ensures: {
      'the declarations of the new map': 'forall((n: Str) => implies(declared(newProps, n), $decl[style][n] === valueText(propOf(newProps, nameKey(newProps, n)))), [declared(newProps, n)], [$decl[style][n]])',
      'not those of the old map only': 'forall((n: Str) => implies(!declared(newProps, n) && declared(oldProps, n), $decl[style][n] === ""), [declared(oldProps, n)], [$decl[style][n]])',
      'the others': 'forall((n: Str) => implies(!declared(newProps, n) && !declared(oldProps, n), $decl[style][n] === old($decl[style][n])), [$decl[style][n]])',
      ...frame('$decl', 'style'),
    },
  },
  parseCSSText: {
    assumed: 'proved below', paramTypes: { cssText: 'Str' }, returns: 'Ref!', freshResult: true, allocates: true,
    ensures: { a: 'forall((n: Str) => keysOf(result)[n] === textDeclares(cssText, n) && implies(keysOf(result)[n], propOf(result, n) === textValue(cssText, n) && !(propOf(result, n) === null || propOf(result, n) === undefined) && cssName(n) === n), [keysOf(result)[n]], [textDeclares(cssText, n)])' },
  },
  normalizeStyle: {
    paramTypes: { value: 'Val' }, returns: 'Ref!', requires: { 'a method if any': method('value') }, allocates: true,
    ensures: {
      'a map as it is': 'implies(isMap(value), result === asRef(value))',
      'or the declarations of the string form': 'implies(!isMap(value), forall((n: Str) => keysOf(result)[n] === textDeclares(strOf(value), n) && implies(keysOf(result)[n], propOf(result, n) === textValue(strOf(value), n) && !(propOf(result, n) === null || propOf(result, n) === undefined) && cssName(n) === n), [keysOf(result)[n]], [textDeclares(strOf(value), n)]))',
    },
  },
};
const S = '$decl[asRef(typed(this._node, "HTMLElement").style)]';
const styleState = (v) => ({ 'the declarations of the value': `forall((n: Str) => implies(dec(${v}, n), ${S}[n] === decVal(${v}, n)), [${S}[n]])` });
const namesIn = (v) => `implies(isMap(${v}), ${uniqueNames(`asRef(${v})`)})`;
const stylePart = {
  ...stringsOf, updateStyle: { ...styles.updateStyle, loops: undefined, assumed: 'proved above' }, normalizeStyle: proved(styles.normalizeStyle),
  'StylePart.commitMount': {
    paramTypes: { value: 'Val' }, modifies: ['$decl'], allocates: true, fresh: ['len', 'elems:Str'],
    requires: { 'a method if any': method('value'), 'keys stand for different properties': namesIn('value') },
    ensures: { ...styleState('value'), 'the others': `forall((n: Str) => implies(!dec(value, n), ${S}[n] === old(${S}[n])), [${S}[n]])` },
  },
  'StylePart.commitUpdate': {
    paramTypes: { oldValue: 'Val', newValue: 'Val' }, modifies: ['$decl'], allocates: true, fresh: ['len', 'elems:Str'],
    requires: { 'a method if any': `(${method('oldValue')}) && (${method('newValue')})`, 'keys stand for different properties': namesIn('newValue'), ...styleState('oldValue') },
    ensures: {
      ...styleState('newValue'),
      'not those of the former value only': `forall((n: Str) => implies(!dec(newValue, n) && dec(oldValue, n), ${S}[n] === ""), [${S}[n]])`,
      'the others': `forall((n: Str) => implies(!dec(newValue, n) && !dec(oldValue, n), ${S}[n] === old(${S}[n])), [${S}[n]])`,
    },
  },
  'StylePart.commitUnmount': {
    paramTypes: { value: 'Val', cascade: 'Bool' }, modifies: ['$decl'], allocates: true, fresh: ['len', 'elems:Str'],
    requires: { 'a method if any': method('value') },
    ensures: {
      'none of the value': `forall((n: Str) => implies(!cascade && dec(value, n), ${S}[n] === ""), [${S}[n]])`,
      'the others': `forall((n: Str) => implies(!dec(value, n), ${S}[n] === old(${S}[n])), [${S}[n]])`,
    },
  },
};
// The declarations of a text: the map is being filled here.
const parseOpts = {
  ...opts, fieldSorts: { style: 'array:Str' },
  ghosts: { keys: '(Array Int (Array Str Bool))', props: '(Array Int (Array Str Val))', text: '(Array Int Str)' },
  onObject: (v, o, names, st, props) => { if (props.length === 0) v.hwrite(st, 'g:keys', o.t, '((as const (Array Str Bool)) false)'); },
};
const parse = {
  'ext document.createElement': { assumed: 'createElement makes an element with an empty style of its own', params: ['name'], returns: 'Ref!', freshResult: true, allocates: true, fresh: ['style', 'len', 'elems:Str'], ensures: { a: 'fresh(typed(result, "HTMLElement").style)' } },
  'set *.cssText': {
    assumed: 'assigning cssText declares what the text does', params: ['v'], paramTypes: { v: 'Str' }, modifies: ['elems(typed(this, "array:Str"))', '$text'],
    ensures: {
      a: '$text === store(old($text), this, v)',
      b: 'forall((j: Int) => implies(0 <= j && j < typed(this, "array:Str").length, textDeclares(v, typed(this, "array:Str")[j])), [typed(this, "array:Str")[j]])',
      c: 'forall((n: Str) => implies(textDeclares(v, n), 0 <= declAt(v, n) && declAt(v, n) < typed(this, "array:Str").length && typed(this, "array:Str")[declAt(v, n)] === n), [textDeclares(v, n)])',
    },
  },
  'Array.getPropertyValue': { assumed: 'getPropertyValue gives the declared value', params: ['name'], paramTypes: { name: 'Str' }, value: 'textValue($text[this], name)', returns: 'Val' },
  'dyn set': { assumed: 'a plain object holds what is assigned to its properties', params: ['k', 'v'], paramTypes: { k: 'Str', v: 'Val' }, returns: 'Val', modifies: ['$keys', '$props'], ensures: { a: '$keys === store(old($keys), this, store(old($keys[this]), k, true)) && $props === store(old($props), this, store(old($props[this]), k, v))' } },
  parseCSSText: {
    paramTypes: { cssText: 'Str' }, returns: 'Ref!', allocates: true, fresh: ['style', 'len', 'elems:Str', '$keys', '$props', '$text'], modifies: ['$keys', '$props', '$text'],
    loops: [{
      name: 'declarations',
      inv: {
        'range': '0 <= $i && $i <= $arr.length',
        'the declarations before': 'forall((j: Int) => implies(0 <= j && j < $i, $keys[styleMap][$arr[j]] && $props[styleMap][$arr[j]] === textValue(cssText, $arr[j])), [$arr[j]])',
        'no others': 'forall((n: Str) => implies($keys[styleMap][n], textDeclares(cssText, n) && $props[styleMap][n] === textValue(cssText, n)), [$keys[styleMap][n]])',
      },
    }],
    ensures: { 'exactly the declarations of the text': 'forall((n: Str) => $keys[result][n] === textDeclares(cssText, n) && implies($keys[result][n], $props[result][n] === textValue(cssText, n)), [$keys[result][n]], [textDeclares(cssText, n)])' },
  },
};
const objOpts = { ...opts, ...objects };
export default {
  property: 'C13',
  units: [{ opts, contracts: strings }, { opts, contracts: attribute }, { opts, contracts: properties }, { opts, contracts: update }, { opts, contracts: text },
    { opts: objOpts, contracts: classes }, { opts: objOpts, contracts: classPart }, { opts, contracts: naming }, { opts: parseOpts, contracts: parse },
    { opts: objOpts, contracts: styles }, { opts: objOpts, contracts: stylePart }],
};
