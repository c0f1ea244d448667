// C16: signals.
//
// Subscribers may subscribe and unsubscribe while they are notified, so the
// subscriber list is looked at together with the nodes that have been deleted
// from it. Ghosts: home[n] the list to which node n was appended, gp[n] the
// time of appending (tick counts), lim[n] the time of its deletion, byTime the
// node appended at a time; last the node appended last; cursor the node whose
// value a loop over the list is looking at, hits[n] how often it has been
// notified.
const ghosts = {
  home: '(Array Int Int)', gp: '(Array Int Int)', lim: '(Array Int Int)', byTime: '(Array Int Int)', tick: 'Int', last: 'Int', cursor: 'Int', hits: '(Array Int Int)',
  cur: 'Val', notified: 'Int', curAt: 'Val', event: 'Int', gets: 'Int', sets: 'Int', sent: 'Val',
};
const N = (e) => `typed(${e}, "InternalNode")`;
const mine = 'num($home[n]) === idOf(l)';
const specFns = {
  isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' },
  num: { smt: 'numId', args: ['Int'], ret: 'Int' },
  idOf: { smt: 'numId', args: ['Ref'], ret: 'Int' },
  live: { params: ['n', 'l'], types: ['InternalNode', 'LinkedList'], expr: 'n.owner === l' },
  linked: {
    params: ['l'], types: ['LinkedList'],
    expr: `isPtr(l) && allocated(l) && $tick >= 0
 && forall((n: InternalNode) => implies(${mine}, isPtr(n) && allocated(n) && 0 <= $gp[n] && $gp[n] < $tick && num($byTime[$gp[n]]) === idOf(n) && $lim[n] <= $tick && (n.owner === l || n.owner === null)), [$home[n]])
 && forall((n: InternalNode) => implies(${mine} && n.next !== null, num($home[n.next]) === idOf(l) && $gp[n.next] > $gp[n] && (n.next.owner === l || n.owner === null && $lim[n.next] >= $lim[n])), [$home[n]])
 && forall((n: InternalNode) => implies(${mine} && n.owner === l, (n.prev === null ? l._head === n : num($home[n.prev]) === idOf(l) && n.prev.owner === l && n.prev.next === n) && (n.next === null ? l._tail === n : n.next.prev === n)), [$home[n]])
 && (l._head === null) === (l._tail === null)
 && implies(l._head !== null, num($home[l._head]) === idOf(l) && l._head.owner === l && l._head.prev === null)
 && implies(l._tail !== null, num($home[l._tail]) === idOf(l) && l._tail.owner === l && l._tail.next === null)
 && forall((n: InternalNode, x: InternalNode) => implies(${mine} && num($home[x]) === idOf(l) && x.owner === l && $gp[n] < $gp[x], n.next !== null ? $gp[n.next] <= $gp[x] : n.owner === null && $gp[x] >= $lim[n]), [[$home[n], $home[x]]])
 && forall((n: InternalNode) => implies(${mine} && n.owner === l, l._head !== null && $gp[l._head] <= $gp[n]), [$home[n]])`,
  },
  // what operations on lists keep
  later: {
    params: [],
    expr: `$tick >= old($tick)
 && forall((n: InternalNode) => implies(num(old($home[n])) !== 0, num($home[n]) === num(old($home[n])) && $gp[n] === old($gp[n]) && is(n.value, old(n.value)) && implies(old(n.owner) === null, n.owner === null && $lim[n] === old($lim[n])) && implies(n.owner === null && old(n.owner) !== null, $lim[n] >= old($tick))), [$home[n]])
 && forall((n: InternalNode) => implies(num(old($home[n])) === 0 && num($home[n]) !== 0, $gp[n] >= old($tick)), [$home[n]])`,
  },
};
const fieldSorts = {
  next: '?InternalNode', prev: '?InternalNode', owner: '?LinkedList', _head: '?InternalNode', _tail: '?InternalNode', value: 'Val', _version: 'Int', _subscribers: 'LinkedList', _value: 'Val', _getter: 'Ref!', _setter: 'Ref!',
  oldValue: 'Val', newValue: 'Val', source: 'Ref', path: 'array:Val', type: 'Str',
};
const decls = '(define-fun isPtr ((r Int)) Bool (> r 0))\n(define-fun numId ((x Int)) Int x)';
const listMods = ['*.next', '*.prev', '*.owner', '*._head', '*._tail', '$home', '$gp', '$lim', '$byTime', '$tick', '$last'];
const list = {
  'LinkedList.append': {
    paramTypes: { value: 'Val' }, returns: 'InternalNode', freshResult: true, fresh: ['value', 'prev', 'next', 'owner'], allocates: true,
    requires: { 'a list': 'linked(this)', 'new nodes belong to no list': 'forall((n: InternalNode) => implies(!allocated(n), num($home[n]) === 0), [$home[n]])' },
    modifies: listMods,
    ghostExit: {
      home: 'store($home, result, this)', gp: 'store($gp, result, $tick)', byTime: 'store($byTime, $tick, result)', lim: 'store($lim, result, 0)', tick: '$tick + 1', last: 'asRef(result)',
    },
    ensures: {
      'a list': 'linked(this)', 'the rest is kept': 'later()',
      'the new node is alive and last': 'result.owner === this && num($home[result]) === idOf(this) && $gp[result] === old($tick) && is(result.value, value) && num($last) === idOf(result)',
      'no other node is added': '$home === store(old($home), result, this)',
      'the others stay': 'forall((n: InternalNode) => implies(old(allocated(n)), n.owner === old(n.owner)), [n.owner])',
      'new nodes belong to no list': 'forall((n: InternalNode) => implies(!allocated(n), num($home[n]) === 0), [$home[n]])',
    },
  },
  'LinkedList.delete': {
    paramTypes: { node: 'InternalNode' },
    requires: { 'a list': 'linked(this)', 'a node, appended to the list if it belongs to it': 'isPtr(node) && allocated(node) && implies(node.owner === this, num($home[node]) === idOf(this))', 'new nodes belong to no list': 'forall((n: InternalNode) => implies(!allocated(n), num($home[n]) === 0), [$home[n]])' },
    modifies: listMods,
    ghostExit: { lim: 'result ? store($lim, node, $tick) : $lim' },
    ensures: {
      'a list': 'linked(this)', 'the rest is kept': 'later()',
      'no node is added': '$home === old($home)',
      'the node is not in the list': 'node.owner !== this',
      'the others stay': 'forall((n: InternalNode) => implies(asRef(n) !== asRef(node), n.owner === old(n.owner)), [n.owner])',
      'new nodes belong to no list': 'forall((n: InternalNode) => implies(!allocated(n), num($home[n]) === 0), [$home[n]])',
      'a node of no list stays so': 'implies(old(node.owner) !== this, node.owner === old(node.owner))',
    },
  },
};
const S = 'this._subscribers';
const others = 'forall((n: InternalNode) => implies(!allocated(n), num($home[n]) === 0), [$home[n]])';
const functions = `forall((n: InternalNode) => implies(num($home[n]) === idOf(${S}), isRef(n.value) && isFn(asRef(n.value))), [$home[n]])`;
const signalList = { 'they are functions': functions, 'the subscribers': `linked(${S})`, 'new nodes belong to no list': others };
const subscriberMods = [...listMods, '*._version', '$cur', '$notified', '$curAt', '$event'];
const invalidate = {
  paramTypes: { event: 'Ref!' }, allocates: true,
  requires: { ...signalList, 'nobody has been notified': 'forall((n: InternalNode) => $hits[n] === 0, [$hits[n]])' },
  modifies: [...subscriberMods, '$hits', '$cursor'],
  fresh: ['value', 'prev', 'next', 'owner'],
  callbacks: {
    '*': {
      params: ['e'], paramTypes: { e: 'Ref' }, allocates: true, returns: 'Val',
      requires: {
        'a subscriber that is still subscribed': `${N('$cursor')}.owner === ${S} && asRef(${N('$cursor')}.value) === callee`,
        'which has not been notified yet': '$hits[$cursor] === 0',
        'of this event': 'asRef(e) === asRef(event)',
        'the version has increased': 'this._version > entry(this._version)',
      },
      // subscribers may subscribe, unsubscribe and write signals
      modifies: [...subscriberMods, '$hits'],
      fresh: ['value', 'prev', 'next', 'owner'],
      ensures: {
        a: `linked(${S}) && later() && ${others}`,
        b: '$hits === store(old($hits), $cursor, 1)',
        c: 'this._version >= old(this._version)',
        d: 'implies(num(old($home[$cursor])) !== 0, num($home[$cursor]) === num(old($home[$cursor])))',
        e: functions,
      },
    },
  },
  loops: [{
    name: 'subscribers',
    inv: {
      'subscribers are functions': functions.replace('this.', '$this.'),
      'the subscribers': `linked($this._subscribers) && ${others} && $tick >= entry($tick)`,
      'the nodes are kept': `forall((n: InternalNode) => implies(num(entry($home[n])) !== 0, num($home[n]) === num(entry($home[n])) && $gp[n] === entry($gp[n]) && implies(entry(n.owner) === null, n.owner === null)), [$home[n]]) && forall((n: InternalNode) => implies(num(entry($home[n])) === 0 && num($home[n]) !== 0, $gp[n] >= entry($tick)), [$home[n]])`,
      'the cursor is a node of the list': `implies(node !== null, num($home[node]) === idOf($this._subscribers) && (node.owner === $this._subscribers || $lim[node] >= entry($tick)))`,
      'the subscribers before it have been notified': `forall((n: InternalNode) => implies(num($home[n]) === idOf($this._subscribers) && n.owner === $this._subscribers && $gp[n] < entry($tick) && (node === null || $gp[n] < $gp[node]), $hits[n] === 1), [$home[n]])`,
      'nobody else has': `forall((n: InternalNode) => $hits[n] === 0 || $hits[n] === 1 && num($home[n]) === idOf($this._subscribers) && (node === null || $gp[n] < $gp[node]), [$hits[n]])`,
      'the version has increased': '$this._version > entry($this._version)',
    },
  }],
  ghostExit: { notified: 'old($notified) + 1', curAt: 'old($cur)', event: 'asRef($event$)' },
  ensures: {
    'every subscriber that stays subscribed is notified': `forall((n: InternalNode) => implies(old(num($home[n]) === idOf(${S}) && n.owner === ${S}) && n.owner === ${S}, $hits[n] === 1), [$hits[n]])`,
    'nobody is notified twice, or without having been subscribed': `forall((n: InternalNode) => $hits[n] === 0 || $hits[n] === 1 && num($home[n]) === idOf(${S}), [$hits[n]])`,
    'the version increases': 'this._version > old(this._version)',
    'recorded': 'true',
    ...signalList,
  },
};
invalidate.ghostExit = { notified: 'old($notified) + 1', curAt: 'old($cur)' };
invalidate.ensures.recorded = '$notified === old($notified) + 1 && is($curAt, old($cur))';
const onYield = (v, s, x, cx) => {
  const node = v.specEval('node', s, { ...cx, spec: true });
  v.hset(s, 'g:cursor', v.newConst('cursor', 'Int', node.t));
  v.onWrite?.('g:cursor', 'ghost', s);
};
const opts = { fieldSorts, ghosts, decls, specFns, onYield };
const solve = { order: ['cvc5', 'z3', 'z3nombqi', 'cvc5'], t1: 5, t2: 10, t3: 25 };
list['LinkedList.constructor'] = {
  fresh: ['_head', '_tail'], modifies: ['this._head', 'this._tail'],
  requires: { 'no node belongs to it': 'forall((n: InternalNode) => num($home[n]) !== idOf(this), [$home[n]]) && forall((n: InternalNode) => implies(isPtr(n) && allocated(n), n.owner !== this), [n.owner])', 'time': '$tick >= 0' },
  ensures: { 'an empty list': 'linked(this) && this._head === null' },
};
const proved = (c) => ({ ...c, assumed: 'proved above' });
// the value of a signal is what `read` yields
const read = { assumed: 'the value of the signal (Atom.read, Accessor.read: proved below)', params: [], returns: 'Val', ensures: { a: 'is(result, $cur)' } };
const write = { assumed: 'sets the value of the signal (Atom.write, Accessor.write: proved below)', params: ['v'], paramTypes: { v: 'Val' }, modifies: ['$cur'], returns: 'Val', ensures: { a: 'is($cur, v)' } };
const setValue = {
  paramTypes: { newValue: 'Val' }, allocates: true,
  fresh: ['value', 'prev', 'next', 'owner', 'type', 'source', 'path', 'oldValue', 'newValue', 'len', 'elems:Val'],
  requires: invalidate.requires,
  modifies: [...subscriberMods, '$hits', '$cursor'],
  ensures: {
    'an identical value does nothing': 'implies(old(is($cur, newValue)), $notified === old($notified) && this._version === old(this._version) && is($cur, old($cur)) && $hits === old($hits))',
    'another value becomes the current one before the subscribers are notified, once': 'implies(!old(is($cur, newValue)), $notified === old($notified) + 1 && is($curAt, newValue))',
    'and increases the version': 'implies(!old(is($cur, newValue)), this._version > old(this._version))',
    'every subscriber that stays subscribed is notified': `implies(!old(is($cur, newValue)), ${invalidate.ensures['every subscriber that stays subscribed is notified']})`,
    'nobody is notified twice': invalidate.ensures['nobody is notified twice, or without having been subscribed'],
    'the event tells the values': 'implies(!old(is($cur, newValue)), is(typed($event, "SetEvent").oldValue, old($cur)) && is(typed($event, "SetEvent").newValue, newValue) && asRef(typed($event, "SetEvent").source) === asRef(this))',
    ...signalList,
  },
};
const lastNode = N('$last');
const subscribe = {
  paramTypes: { subscriber: 'Ref!' }, returns: 'Ref', allocates: true,
  fresh: ['value', 'prev', 'next', 'owner'], modifies: listMods,
  requires: { ...signalList, 'a function': 'isFn(subscriber)' },
  ensures: {
    ...signalList,
    'the subscriber is added last': `${lastNode}.owner === ${S} && asRef(${lastNode}.value) === asRef(subscriber) && $gp[$last] === old($tick)`,
    'the others stay': 'forall((n: InternalNode) => implies(old(allocated(n)), n.owner === old(n.owner)), [n.owner])',
  },
};
const unsubscribe = {
  of: 'WritableSignal.subscribe', paramTypes: { subscriber: 'Ref!' }, allocates: true,
  fresh: ['value', 'prev', 'next', 'owner'], modifies: listMods,
  requires: subscribe.requires,
  curried: {
    keep: { cursor: '$last' },
    havoc: subscriberMods,
    assume: { ...signalList, 'the node is one of the list': `isPtr(${N('$cursor')}) && num($home[$cursor]) === idOf(${S}) && isRef(${N('$cursor')}.value)` },
  },
  ensures: {
    ...signalList,
    'the subscription is removed': `${N('$cursor')}.owner === null`,
    'the others stay': `forall((n: InternalNode) => implies(idOf(n) !== $cursor, n.owner === old(n.owner)), [n.owner])`,
    'values are kept': 'later()',
  },
};

// ---------------------------------------------------------- computed signals
// ver[d] and curOf[d] are the version and the value of signal d, and
// valAt(d, k) its value at version k: a change of the value increases the
// version (proved above). VA lists the versions of the dependencies, rv those
// for which the memo was made, from the arguments args.
const deps = 'this._dependencies';
const cOpts = {
  fieldSorts: { ...fieldSorts, _computation: 'Ref!', _dependencies: 'array:Signal', _memoizedResult: 'Val', _memoizedVersion: 'Int' },
  ghosts: { ver: '(Array Int Int)', curOf: '(Array Int Val)', rv: '(Array Int Int)', args: '(Array Int Val)', runs: 'Int', nsub: 'Int', subAt: '(Array Int Int)', unsubOf: '(Array Int Int)', called: '(Array Int Int)', ncalled: 'Int' },
  decls: `${decls}
(declare-fun sums ((Array Int Int) Int) Int)
(declare-fun valAt (Int Int) Val)
(declare-fun compOf (Int (Array Int Val) Int) Val)`,
  axioms: [
    '(forall ((A (Array Int Int))) (! (= (sums A 0) 0) :pattern ((sums A 0))))',
    '(forall ((A (Array Int Int)) (n Int)) (! (=> (>= n 0) (= (sums A (+ n 1)) (+ (sums A n) (select A n)))) :pattern ((sums A n) (select A n))))',
    // proved below by induction
    '(forall ((A (Array Int Int)) (B (Array Int Int)) (n Int)) (! (=> (and (>= n 0) (forall ((k Int)) (=> (and (<= 0 k) (< k n)) (<= (select A k) (select B k))))) (and (<= (sums A n) (sums B n)) (=> (= (sums A n) (sums B n)) (forall ((k Int)) (! (=> (and (<= 0 k) (< k n)) (= (select A k) (select B k))) :pattern ((select A k)) :pattern ((select B k))))))) :pattern ((sums A n) (sums B n))))',
    '(forall ((A (Array Int Int)) (n Int)) (! (=> (and (>= n 0) (forall ((k Int)) (=> (and (<= 0 k) (< k n)) (<= 0 (select A k))))) (<= 0 (sums A n))) :pattern ((sums A n))))',
  ],
  specFns: {
    isPtr: specFns.isPtr, num: specFns.num, idOf: specFns.idOf,
    sums: { smt: 'sums', args: [null, 'Int'], ret: 'Int' },
    valAt: { smt: 'valAt', args: ['Ref', 'Int'], ret: 'Val' },
    compOf: { smt: 'compOf', args: ['Ref', null, 'Int'], ret: 'Val' },
  },
};
const each = (e, ...p) => `forall((k: Int) => implies(0 <= k && k < ${deps}.length, ${e}), ${p.join(', ')})`;
const getVersion = {
  inline: true, returns: 'Int', logical: { VA: '(Array Int Int)' },
  requires: { 'dependencies': `isPtr(${deps})`, 'their versions': each(`num(VA[k]) === $ver[${deps}[k]] && num(VA[k]) >= 0`, `[${deps}[k]]`, '[VA[k]]') },
  loops: [{ name: 'versions', inv: { 'the sum so far': '0 <= $i && $i <= $this._dependencies.length && $acc === sums($VA, $i) && num($VA[$i]) === num($VA[$i])' } }],
  ensures: { 'the sum of the versions': `result === sums(VA, ${deps}.length)` },
};
const memo = `(this._memoizedVersion === 0 - 1 || this._memoizedVersion === sums($rv, ${deps}.length) && is(this._memoizedResult, compOf(this._computation, $args, ${deps}.length)) && ${each('num($rv[k]) <= num(VA[k]) && num($rv[k]) >= 0', '[$rv[k]]', '[VA[k]]')} && ${each(`is($args[k], valAt(${deps}[k], num($rv[k])))`, '[$args[k]]')})`;
const getValue = {
  returns: 'Val', logical: { VA: '(Array Int Int)' }, allocates: true, fresh: ['len', 'elems:Val'],
  requires: {
    ...getVersion.requires,
    'a value changes only with the version': each(`is($curOf[${deps}[k]], valAt(${deps}[k], $ver[${deps}[k]]))`, `[${deps}[k]]`),
    'the memo was made from earlier values': memo,
  },
  modifies: ['this._memoizedResult', 'this._memoizedVersion', '$rv', '$args', '$runs'],
  callbacks: {
    '*': {
      params: ['xs'], rest: true, restEl: 'Val', paramTypes: { xs: 'array:Val' }, returns: 'Val', modifies: ['$runs', '$args'],
      requires: { 'the function of the signal': 'callee === this._computation', 'the current values of the dependencies': `xs.length === ${deps}.length && ${each(`is(xs[k], $curOf[${deps}[k]])`, '[xs[k]]')}` },
      ensures: { a: `$runs === old($runs) + 1 && $args === elems(xs) && is(result, compOf(callee, elems(xs), ${deps}.length))` },
    },
  },
  loops: [
    { name: 'values', outEl: 'Val', inv: { 'the values so far': `0 <= $i && $i <= $this._dependencies.length && $out.length === $i && fresh($out) && forall((k: Int) => implies(0 <= k && k < $i, is($out[k], $curOf[$this._dependencies[k]])), [$out[k]])` } },
  ],
  ghostExit: { rv: '$runs !== old($runs) ? VA : $rv' },
  ensures: {
    'the function of the current values of the dependencies': `is(result, compOf(this._computation, $args, ${deps}.length)) && ${each(`is($args[k], $curOf[${deps}[k]])`, '[$args[k]]')}`,
    'the function runs at most once, and only if it never did or the version of a dependency changed': `$runs === old($runs) || $runs === old($runs) + 1 && (old(this._memoizedVersion) === 0 - 1 || !${each('num(old($rv[k])) === num(VA[k])', '[VA[k]]')})`,
    'the memo is made from these values': memo,
    'it is up to date': `this._memoizedVersion === sums(VA, ${deps}.length)`,
  },
};
const computedSubscribe = {
  paramTypes: { subscriber: 'Ref!' }, returns: 'Ref', allocates: true, fresh: ['len', 'elems:Ref'],
  requires: { dependencies: `isPtr(${deps})`, start: '$nsub === 0' },
  modifies: ['$nsub', '$subAt', '$unsubOf'],
  loops: [{ name: 'dependencies', outEl: 'Ref!', inv: {
    'those so far': `0 <= $i && $i <= $this._dependencies.length && $out.length === $i && fresh($out) && $nsub === $i && forall((k: Int) => implies(0 <= k && k < $i, num($subAt[k]) === idOf($this._dependencies[k])), [$subAt[k]])`,
    'the functions that undo it': 'forall((k: Int) => implies(0 <= k && k < $i, num($unsubOf[k]) === idOf($out[k]) && isFn($out[k])), [$out[k]])',
  } }],
  ensures: { 'each dependency is subscribed to once, in order': `$nsub === ${deps}.length && ${each(`num($subAt[k]) === idOf(${deps}[k])`, '[$subAt[k]]')}` },
};
const signalSubscribe = {
  assumed: 'subscribes (WritableSignal: proved above)', params: ['f'], paramTypes: { f: 'Ref!' }, returns: 'Ref!', caller: true,
  requires: { 'the subscriber': 'asRef(f) === asRef($subscriber)' },
  modifies: ['$nsub', '$subAt', '$unsubOf'], allocates: true,
  ensures: { a: '$nsub === old($nsub) + 1 && $subAt === store(old($subAt), old($nsub), this) && $unsubOf === store(old($unsubOf), old($nsub), result) && isFn(result)' },
};
const computedUnsubscribe = {
  ...computedSubscribe, of: 'Computed.subscribe', returns: undefined,
  loops: [...computedSubscribe.loops, { name: 'subscriptions', inv: { 'those so far': '0 <= $i && $i <= $arr.length && $ncalled === $i && $arr.length === $nsub && forall((k: Int) => implies(0 <= k && k < $nsub, num($unsubOf[k]) === idOf($arr[k]) && isFn($arr[k])), [$arr[k]]) && forall((k: Int) => implies(0 <= k && k < $i, num($called[k]) === num($unsubOf[k])), [$called[k]])' } }],
  callbacks: { '*': { modifies: ['$called', '$ncalled'], returns: 'Val', ensures: { a: '$ncalled === old($ncalled) + 1 && $called === store(old($called), old($ncalled), callee)' } } },
  curried: { entry: { ncalled: '0' } },
  modifies: ['$called', '$ncalled'],
  ensures: { 'each subscription is undone once': '$ncalled === $nsub && forall((k: Int) => implies(0 <= k && k < $nsub, num($called[k]) === num($unsubOf[k])), [$called[k]])' },
};
// The induction for the last two axioms on sums, from the first two only: the
// claims hold for n = 0, and for n + 1 if for n.
const sumsScript = (facts, goal) => `(set-logic ALL)
(declare-fun sums ((Array Int Int) Int) Int)
(declare-const A (Array Int Int))
(declare-const B (Array Int Int))
(declare-const n Int)
${cOpts.axioms.slice(0, 2).map((a) => `(assert ${a})`).join('\n')}
${facts.map((f) => `(assert ${f})`).join('\n')}
(assert (not ${goal}))
(check-sat)`;
const below = (n) => `(forall ((k Int)) (=> (and (<= 0 k) (< k ${n})) (<= (select A k) (select B k))))`;
const monotone = (n) => `(=> ${below(n)} (and (<= (sums A ${n}) (sums B ${n})) (=> (= (sums A ${n}) (sums B ${n})) (forall ((k Int)) (=> (and (<= 0 k) (< k ${n})) (= (select A k) (select B k)))))))`;
const nonneg = (n) => `(=> (forall ((k Int)) (=> (and (<= 0 k) (< k ${n})) (<= 0 (select A k)))) (<= 0 (sums A ${n})))`;
const unfold = ['(>= n 0)', '(= (sums A (+ n 1)) (+ (sums A n) (select A n)))', '(= (sums B (+ n 1)) (+ (sums B n) (select B n)))'];
const sumsLemmas = [
  { name: 'sums of smaller numbers are smaller (n = 0)', script: sumsScript([], monotone('0')) },
  { name: 'sums of smaller numbers are smaller (n + 1)', script: sumsScript([...unfold, monotone('n')], monotone('(+ n 1)')) },
  { name: 'sums of nonnegative numbers are nonnegative (n = 0)', script: sumsScript([], nonneg('0')) },
  { name: 'sums of nonnegative numbers are nonnegative (n + 1)', script: sumsScript([...unfold, nonneg('n')], nonneg('(+ n 1)')) },
];
const computedUnits = [
  {
    solve, opts: cOpts, closed: ['_memoizedResult', '_memoizedVersion'],
    contracts: {
      'get Signal.version': { assumed: 'the version of the signal', get: '$ver[this]', type: 'Int' },
      'get Signal.value': { assumed: 'the value of the signal (Computed: proved here, WritableSignal: above)', get: '$curOf[this]', type: 'Val' },
      'Computed.get version': getVersion,
      'Computed.get value': getValue,
      'Computed.constructor': { paramTypes: { computation: 'Ref!', dependencies: 'array:Signal', initialResult: 'Val', initialVersion: 'Int' }, noFrame: true, ensures: { 'what it is given': 'asRef(this._computation) === asRef(computation) && asRef(this._dependencies) === asRef(dependencies) && is(this._memoizedResult, initialResult === undefined ? null : initialResult)' } },
    },
    lemmas: [
      ...sumsLemmas,
    ],
  },
  { solve, opts: cOpts, contracts: { '*.subscribe': signalSubscribe, 'Computed.subscribe': computedSubscribe } },
  { solve, opts: cOpts, contracts: { '*.subscribe': signalSubscribe, 'Computed.subscribe (unsubscribe)': computedUnsubscribe } },
];
export default {
  property: 'C16',
  units: [
    ...computedUnits,
    { solve, opts, closed: ['next', 'prev', '_head', '_tail'], contracts: list },
    { solve, opts, closed: ['_version'], contracts: { 'WritableSignal.invalidate': invalidate, 'Atom.constructor': { paramTypes: { initialValue: 'Val' }, fresh: ['_value', '_version', '_subscribers', '_head', '_tail'], noFrame: true, ensures: { 'the initial value': 'is(this._value, initialValue) && this._version === 0' } } } },
    {
      solve, opts,
      contracts: {
        'WritableSignal.invalidate': { ...proved(invalidate), modifies: [...invalidate.modifies], ensures: { ...invalidate.ensures, e: '$event === asRef(event)' } },
        '*.read': read, '*.write': write, 'WritableSignal.set value': setValue,
      },
    },
    { solve, opts, contracts: { 'LinkedList.append': proved(list['LinkedList.append']), 'LinkedList.delete': proved(list['LinkedList.delete']), 'WritableSignal.subscribe': subscribe, 'WritableSignal.subscribe (unsubscribe)': unsubscribe } },
    {
      solve, opts,
      contracts: {
        'Atom.read': { returns: 'Val', ensures: { 'the value': 'is(result, this._value)' } },
        'Atom.write': { paramTypes: { value: 'Val' }, modifies: ['this._value'], ensures: { 'the value is kept': 'is(this._value, value)' } },
        'Accessor.read': { returns: 'Val', modifies: ['$gets', '$sent'], callbacks: { '*': { requires: { 'the getter': 'callee === this._getter' }, modifies: ['$gets', '$sent'], returns: 'Val', ensures: { a: '$gets === old($gets) + 1 && is($sent, result)' } } }, ensures: { 'what the getter returns, called once': '$gets === old($gets) + 1 && is(result, $sent)' } },
        'Accessor.write': { paramTypes: { value: 'Val' }, modifies: ['$sets', '$sent'], callbacks: { '*': { argNames: ['$x'], requires: { 'the setter': 'callee === this._setter' }, modifies: ['$sets', '$sent'], returns: 'Val', ensures: { a: '$sets === old($sets) + 1 && is($sent, $x)' } } }, ensures: { 'the setter is called once with the value': '$sets === old($sets) + 1 && is($sent, value)' } },
      },
    },
  ],
};
