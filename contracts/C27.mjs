// C27: values are wrapped by kind; elements keep what they are made of.
//
// Ghost relations: $wr[e][v] - the element e is what some call of wrap made of
// the value v (set at every exit of wrap, whose postcondition says what such
// an element is); $cv[e][v] - the conversion method of v returned e. Elements
// never change after construction (closed fields), so the relations describe
// finished elements as well.
const grows = (g) => `forall((e: Ref, v: Val) => implies(old(${g})[e][v], ${g}[e][v]), [${g}[e][v]], [old(${g})[e][v]])`;
const monotone = { 'earlier wraps stay': grows('$wr'), 'earlier conversions stay': grows('$cv') };
const fresh = ['len', 'elems:Val', 'elems:Ref', 'type', 'props', 'children', 'key', 'value', 'mode'];
const grow = { modifies: ['$wr', '$cv'], fresh, allocates: true };
const loop = (name, items, n) => ({
  name,
  outEl: 'VNode',
  inv: {
    'one element per item': `$out.length === $i && $i <= ${n}`,
    'each the wrap of its item': `forall((j: Int) => implies(0 <= j && j < $i, $out[j] !== null && $out[j] !== undefined && $wr[$out[j]][${items}]), [$out[j]])`,
    'it is a new list': 'fresh($out)',
    ...monotone,
  },
  entry: { },
  dec: `${n} - $i`,
});
const tagged = (mode, items = 'children') => ({
  ...grow,
  returns: 'VNode',
  paramTypes: { strings: 'array:Str', [items]: 'array:Val' },
  ensures: templateEnsures(`'${mode}'`, items),
});
const templateEnsures = (mode, items) => ({
  'its type is the strings': 'asRef(result.type) === strings',
  'its mode': `asRef(result.props).mode === ${mode}`,
  'no key': 'result.key === undefined',
  'one child per value': `result.children.length === old(${items}.length)`,
  'each child wraps its value, in order': `forall((j: Int) => implies(0 <= j && j < ${items}.length, $wr[result.children[j]][${items}[j]]), [result.children[j]])`,
  'the values are left alone': `elems(${items}) === old(elems(${items})) && ${items}.length === old(${items}.length)`,
  ...monotone,
});
export default {
  property: 'C27',
  units: [{
    opts: {
      fieldSorts: { type: 'Val', props: 'Val', children: 'array:VNode', key: 'Val', value: 'Val', mode: 'Str', strings: 'array:Str', values: 'array:Val' },
      ghosts: { wr: '(Array Int (Array Val Bool))', cv: '(Array Int (Array Val Bool))' },
      decls: `(declare-fun toElementOf (Val) Val)
(declare-fun iteratorOf (Val) Val)
(declare-fun nItems (Val) Int)
(declare-fun item (Val Int) Val)`,
      axioms: ['(forall ((v Val)) (! (>= (nItems v) 0) :pattern ((nItems v))))'],
      specFns: {
        toElementOf: { smt: 'toElementOf', args: ['Val'], ret: 'Val' },
        iteratorOf: { smt: 'iteratorOf', args: ['Val'], ret: 'Val' },
        nItems: { smt: 'nItems', args: ['Val'], ret: 'Int' },
        item: { smt: 'item', args: ['Val', 'Int'], ret: 'Val' },
        isElement: { params: ['v'], types: ['Val'], expr: "isRef(v) && isClass(asRef(v), 'VNode')" },
        bindable: { params: ['v'], types: ['Val'], expr: "v !== undefined && v !== null && isType(toElementOf(v), 'function')" },
        iterable: { params: ['v'], types: ['Val'], expr: "v !== undefined && v !== null && isType(iteratorOf(v), 'function')" },
      },
    },
    contracts: {
      'get *.[toElement]': { anyValue: true, assumed: 'reading the conversion method of a value is pure', get: 'toElementOf(asVal(this))', type: 'Val' },
      'get *.[Symbol.iterator]': { anyValue: true, assumed: 'reading the iterator method of a value is pure', get: 'iteratorOf(asVal(this))', type: 'Val' },
      '*.[toElement]': {
        assumed: 'a conversion method returns an element (its declared type) and may create and wrap others',
        requires: { 'it is a conversion method': 'bindable(asVal(this))' },
        ...grow, returns: 'VNode',
        ensures: { ...monotone, r: '$cv[result][asVal(this)]' },
      },
      'ext Array.from': {
        assumed: 'Array.from goes through the items of an iterable in iteration order and passes each to the mapping function',
        params: ['xs', 'f'],
        hook: (v, { args, st, cx, n }) => {
          // the items, as an array of its own
          const x = v.newConst('iterable', 'Val', v.co(args[0], 'Val', st, n));
          const items = v.newConst('items', '(Array Int Val)');
          st.assume(`(forall ((i Int)) (! (= (select ${items} i) (item ${x} i)) :pattern ((select ${items} i)) :pattern ((item ${x} i))))`);
          const arr = v.newArray(st, { s: 'Val' }, `(nItems ${x})`, items, 'items');
          return v.arrayHof(arr, 'map', args[1], st, cx, n);
        },
      },
      isBindable: { paramTypes: { value: 'Val' }, value: 'bindable(value)', returns: 'Bool' },
      isIterable: { paramTypes: { value: 'Val' }, value: 'iterable(value)', returns: 'Bool' },
      createBind: {
        fresh: ['type', 'props', 'children', 'key', 'value', 'len', 'elems:Val', 'elems:Ref'], paramTypes: { value: 'Val' }, returns: 'VNode',
        ensures: {
          'a plain value': 'result.type === asVal(Bind) && result.key === undefined && result.children.length === 0',
          'holding exactly the value': 'asRef(result.props).value === value',
        },
      },
      createFragment: {
        ...grow, paramTypes: { children: 'Val' }, returns: 'VNode',
        loops: [loop('items', 'item($children, j)', 'nItems($children)')],
        ensures: {
          'a list without key': 'result.type === asVal(Fragment) && result.key === undefined',
          'one child per item': 'result.children.length === nItems(children)',
          'each child wraps its item, in iteration order': 'forall((j: Int) => implies(0 <= j && j < nItems(children), $wr[result.children[j]][item(children, j)]), [result.children[j]])',
          ...monotone,
        },
      },
      createPortal: {
        ...grow, paramTypes: { child: 'Val', container: 'Ref!' }, returns: 'VNode',
        ensures: {
          'its type is the container': 'asRef(result.type) === container && result.key === undefined',
          'its child wraps the value': 'result.children.length === 1 && $wr[result.children[0]][child]',
          ...monotone,
        },
      },
      createTemplate: {
        ...grow, paramTypes: { mode: 'Str', strings: 'array:Str', children: 'array:Val' }, returns: 'VNode',
        loops: [loop('children', '$children[j]', '$children.length')],
        ensures: templateEnsures('mode', 'children'),
      },
      html: tagged('html'), math: tagged('math'), svg: tagged('svg'), text: tagged('textarea'),
      wrap: {
        ...grow, paramTypes: { value: 'Val' }, returns: 'VNode',
        ghostExit: { wr: 'store($wr, result, store($wr[result], value, true))' },
        ensures: {
          'an element stays itself': 'implies(isElement(value), asVal(result) === value)',
          'a convertible value is converted by its method': 'implies(!isElement(value) && bindable(value), $cv[result][value])',
          'an iterable object becomes the list of its items': "implies(!isElement(value) && !bindable(value) && isType(value, 'object') && iterable(value), result.type === asVal(Fragment) && result.key === undefined && result.children.length === nItems(value) && forall((j: Int) => implies(0 <= j && j < nItems(value), $wr[result.children[j]][item(value, j)]), [result.children[j]]))",
          'everything else becomes exactly that plain value': "implies(!isElement(value) && !bindable(value) && !(isType(value, 'object') && iterable(value)), result.type === asVal(Bind) && result.key === undefined && result.children.length === 0 && asRef(result.props).value === value)",
          'recorded': '$wr[result][value]',
          ...monotone,
        },
      },
      'VNode.constructor': {
        paramTypes: { type: 'Val', props: 'Val', children: 'array:VNode', key: 'Val' },
        modifies: ['this.type', 'this.props', 'this.children', 'this.key'],
        ensures: { 'the element is made of exactly the arguments': 'this.type === type && this.props === props && this.children === children && this.key === key' },
      },
      'VNode.withKey': {
        fresh: ['type', 'props', 'children', 'key'], paramTypes: { key: 'Val' }, returns: 'VNode', freshResult: true,
        ensures: { 'only the key differs': 'result.key === key && result.type === this.type && result.props === this.props && result.children === this.children' },
      },
    },
    closed: [],
  }],
};
