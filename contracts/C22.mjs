// C22: navigation adapters.
const adding = { registered: '(Array Int Bool)' };
const decls = `(define-fun isPtr ((r Int)) Bool (> r 0))
(define-fun hashless ((s Str)) Str (ite (str.prefixof "#" s) (str.substr s 1 (- (str.len s) 1)) s))
(declare-fun pathOf (Str) Str)
(define-fun noHits () (Array Int Int) ((as const (Array Int Int)) 0))
(declare-fun searchOf (Str) Str)
(declare-fun hashOf (Str) Str)
(declare-fun stateOf (Int) Val)
(declare-fun theWindow () Int)
(declare-fun theLocation () Int)
(declare-fun theNavigation () Int)`;
const specFns = {
  isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' },
  noHits: { smt: 'noHits', args: [], ret: 'Raw:(Array Int Int)' },
  hashless: { smt: 'hashless', args: ['Str'], ret: 'Str' },
  pathOf: { smt: 'pathOf', args: ['Str'], ret: 'Str' },
  searchOf: { smt: 'searchOf', args: ['Str'], ret: 'Str' },
  hashOf: { smt: 'hashOf', args: ['Str'], ret: 'Str' },
  stateOf: { smt: 'stateOf', args: ['Ref'], ret: 'Val' },
  theLocation: { smt: 'theLocation', args: [], ret: 'Ref', h: 'Location' },
  theNavigation: { smt: 'theNavigation', args: [], ret: 'Ref', h: 'Navigation' },
  // what the navigation event says
  interceptable: { params: ['e'], types: ['NavigateEvent'], expr: 'e.canIntercept && e.destination.sameDocument' },
};
const opts = {
  strings: true, primitives: true,
  // registered[f]  f listens to navigate events; added  what has been registered last
  // calls          how often the listener has been called
  // waited, asked  the navigation requested; destUrl, destOptions what it was requested with
  ghosts: { registered: '(Array Int Bool)', added: 'Int', calls: 'Int', asked: 'Int', navs: 'Int', destUrl: 'Str', destOptions: 'Val', waited: 'Int', hits: '(Array Int Int)', all: 'Int', settled: 'Bool', pending: 'Int', handled: 'Int', handlerPromise: 'Val' },
  decls, specFns,
  fieldSorts: {
    _location: 'Location', _navigation: 'Navigation', pathname: 'Str', search: 'Str', hash: 'Str', canIntercept: 'Bool', sameDocument: 'Bool', hashChange: 'Bool',
    downloadRequest: 'Val', destination: 'Destination', url: 'Str', navigationType: 'Val', state: 'Val', currentEntry: '?Entry', finished: 'Ref!', location: '?Location', navigation: '?Navigation',
    _url: 'Str', _state: 'Val', history: 'Val', handler: '?Ref', intercept: 'Val', scroll: 'Val',
  },
};
const here = { 'an adapter': 'isPtr(this._location) && isPtr(this._navigation) && this._navigation.currentEntry !== undefined' };
const host = {
  'get window.location': { assumed: 'the location of the window', get: 'theLocation()', type: 'Location' },
  'get window.navigation': { assumed: 'the navigation of the window', get: 'theNavigation()', type: 'Navigation' },
  'new URL': {
    assumed: 'a URL consists of its parts', params: ['s'], paramTypes: { s: 'Str' }, returns: 'Address', freshResult: true, allocates: true, fresh: ['pathname', 'search', 'hash'],
    ensures: { a: 'result.pathname === pathOf(s) && result.search === searchOf(s) && result.hash === hashOf(s)' },
  },
  '*.getState': { assumed: 'the state of a history entry or destination', params: [], value: 'stateOf(this)', returns: 'Val' },
  '*.addEventListener': {
    assumed: 'registers a listener', caller: true, params: ['type', 'f'], paramTypes: { type: 'Str', f: 'Ref!' }, defers: 'navigate', defersParam: 1, returns: 'Val',
    requires: { 'of navigations': "type === 'navigate'", 'of the navigation given': 'asRef(this) === asRef($this._navigation)', 'once': '$added === 0' },
    modifies: ['$registered', '$added'],
    ensures: { a: '$registered === store(old($registered), f, true) && $added === asRef(f)' },
  },
  '*.removeEventListener': {
    assumed: 'removes a listener', caller: true, params: ['type', 'f'], paramTypes: { type: 'Str', f: 'Ref!' }, returns: 'Val',
    requires: { 'of navigations': "type === 'navigate'", 'of the navigation given': 'asRef(this) === asRef($this._navigation)' },
    modifies: ['$registered'],
    ensures: { a: '$registered === store(old($registered), f, false)' },
  },
  '*.navigate': {
    assumed: 'requests a navigation', caller: true, params: ['url', 'options'], paramTypes: { url: 'Str', options: 'Val' }, returns: 'NavigationResult', freshResult: true, allocates: true, fresh: ['finished'],
    requires: { 'of the navigation given': 'asRef(this) === asRef($this._navigation)' },
    modifies: ['$navs', '$destUrl', '$destOptions', '$asked'],
    ensures: { a: "$navs === old($navs) + 1 && $destUrl === url && is($destOptions, options) && $asked === asRef(result.finished) && isPtr(result.finished)" },
  },
};
const waitFinished = (v, s, value, cx, n) => {
  const sc = { ...cx, spec: true, env: undefined, bound: new Map([...v.verifyBound, ['w', value]]), old: s };
  v.oblige(s, 'await: the navigation requested is waited for', v.specBool('asRef(w) === $asked', s, sc), 'assertion');
  v.hset(s, 'g:waited', v.heap(s, 'g:asked').name);
  const t = s.clone();
  return [{ k: 'val', st: s, v: UNDEF }, { k: 'throw', st: t, v: v.freshVal('err', { s: 'Val' }, t) }];
};
const UNDEF = { s: 'Undef' };
const listening = (cls, qualifies, url) => ({
  [`${cls}.listen`]: {
    paramTypes: { listener: 'Ref!' }, returns: 'Ref!', allocates: true, requires: here, entry: { added: '0' },
    modifies: ['$registered', '$added'],
    callbacks: {
      listener: {
        argNames: ['scene', 'interceptor'],
        requires: {
          'the listener given': 'asRef(callee) === asRef(listener)',
          'only for these navigations': `${qualifies}`,
          'with the url': `typed(scene, 'Scene').url === ${url}`,
          'with the state': "is(typed(scene, 'Scene').state, stateOf(event.destination))",
          'with the type': "is(typed(scene, 'Scene').navigationType, event.navigationType)",
          'the event intercepts': 'asRef(interceptor) === asRef(event)',
        },
        modifies: ['$calls'], returns: 'Val', ensures: { a: '$calls === old($calls) + 1' },
      },
    },
    deferred: {
      navigate: {
        always: true, args: { event: 'NavigateEvent' }, entry: { calls: '0' },
        requires: { 'an event': 'isPtr(event) && isPtr(event.destination)' },
        ensures: { 'exactly these navigations are reported, once': `$calls === ((${qualifies}) ? 1 : 0)` },
      },
    },
    ensures: { 'a handler is registered, no other is removed': '$registered === store(old($registered), $added, true) && isPtr(typed($added, "Ref"))' },
  },
  [`${cls}.listen remove`]: {
    of: `${cls}.listen`, paramTypes: { listener: 'Ref!' }, returns: 'Val', allocates: true, requires: here, entry: { added: '0' },
    modifies: ['$registered'],
    curried: { havoc: ['$registered'] },
    ensures: { 'the handler is removed, and no other': '$registered === store(old($registered), $added, false)' },
  },
});
const navigating = (cls, dest) => ({
  [`${cls}.getCurrentState`]: { requires: here, returns: 'Val', ensures: { 'the state of the current entry': 'is(result, isPtr(this._navigation.currentEntry) ? stateOf(this._navigation.currentEntry) : undefined)' } },
  [`${cls}.navigate`]: {
    paramTypes: { url: 'Str', options: 'Val' }, requires: here, entry: { navs: '0', waited: '0', asked: '0' }, throws: true, allocates: true, noFrame: true,
    await: waitFinished,
    ensures: { 'one navigation, to the url': `$navs === 1 && $destUrl === ${dest} && is($destOptions, options)`, 'it has been waited for': '$waited === $asked' },
    throwsEnsures: { 'one navigation': '$navs === 1' },
  },
  [`${cls}.constructor`]: {
    params: ['o'], paramTypes: { o: 'Options' }, requires: { 'there is a window': 'isPtr(theLocation()) && isPtr(theNavigation())', 'options': 'isPtr(o)' },
    ensures: {
      'the location given, or that of the window': 'this._location === (o.location === undefined ? theLocation() : o.location)',
      'the navigation given, or that of the window': 'this._navigation === (o.navigation === undefined ? theNavigation() : o.navigation)',
    },
  },
});
// A listener: it is called with the scene and the interceptor. It may intercept
// (any number of times), subscribe and unsubscribe; intercepting calls the
// handler and makes the navigation wait for the promise it returns.
const inMemoryListener = {
  params: ['scene', 'interceptor'],
  hook: (v, { args, st, cx, n, scx }) => {
    const f = { s: 'Ref', t: v.co(scx.bound.get('callee'), 'Ref', st) };
    const sc = (s, extra = {}) => ({ ...cx, spec: true, bound: new Map([...v.verifyBound, ['scene', args[0]], ['interceptor', args[1]], ['f', f], ...Object.entries(extra)]), old: s });
    const must = (nm, e, s, c) => { const t = v.specBool(e, s, c ?? sc(s)); v.oblige(s, `listener: ${nm}`, t, 'precondition'); s.assume(t); };
    must('not called before', '$hits[asRef(f)] === 0', st);
    must('with the url and the state', "typed(scene, 'Scene').url === $url && is(typed(scene, 'Scene').state, $options.state)", st);
    must('with the type', "is(typed(scene, 'Scene').navigationType, $options.history === 'push' || $options.history === 'replace' ? $options.history : $url === entry(this._url) ? 'replace' : 'push')", st);
    must('the location is not changed yet', 'this._url === entry(this._url) && is(this._state, entry(this._state))', st);
    // intercepting, with any handler or none
    const s1 = st.clone();
    const o = v.freshVal('how', v.parseType('Interception'), s1);
    s1.assume(`(> ${o.t} 0)`);
    v.hset(s1, 'g:handled', '0');
    const base = s1.clone();
    for (const r of v.getProp(args[1], 'intercept', s1, cx, n)) {
      for (const q of v.callValue(r.v, [o], r.st, cx, n)) {
        if (q.k !== 'val') continue;
        const c = { ...sc(q.st, { how: o }), old: base };
        const chk = (nm, e) => v.oblige(q.st, `intercept: ${nm}`, v.specBool(e, q.st, c), 'postcondition');
        chk('the handler is called, once', '$handled === (isPtr(how.handler) ? 1 : 0)');
        chk('its promise is waited for', '$handled === 1 && $handlerPromise !== undefined ? promises.length === old(promises.length) + 1 && asVal(promises[old(promises.length)]) === $handlerPromise : promises.length === old(promises.length)');
        chk('those before, too', 'forall((k: Int) => implies(0 <= k && k < old(promises.length), promises[k] === old(promises[k])), [promises[k]])');
      }
    }
    // what it may do
    const before = st.clone();
    v.havocModifies({ modifies: ['entries(this._listeners)', 'elems(promises)', '$hits', '$pending'], allocates: true }, st, { ...sc(st), old: before });
    const after = { ...sc(st), old: before };
    for (const e of ['$pending === promises.length', '$hits === store(old($hits), asRef(f), 1)', 'promises.length >= old(promises.length)', 'forall((k: Int) => implies(0 <= k && k < old(promises.length), promises[k] === old(promises[k])), [promises[k]])']) st.assume(v.specBool(e, st, after));
    const t = st.clone();
    return [{ k: 'val', st, v: UNDEF }, { k: 'throw', st: t, v: v.freshVal('err', { s: 'Val' }, t) }];
  },
};
const handlerCall = {
  params: [], requires: { 'called once': '$handled === 0' }, modifies: ['$handled', '$handlerPromise', '$settled', '$pending'], returns: 'Val', throws: true,
  ensures: { a: '$handled === 1 && result === $handlerPromise && (result === undefined || isRef(result))' },
};
const waitAll = (v, s, value, cx, n) => {
  const sc = { ...cx, spec: true, bound: new Map([...v.verifyBound, ['w', value]]), old: s };
  const must = (nm, e) => v.oblige(s, `await: ${nm}`, v.specBool(e, s, sc), 'assertion');
  must('all promises are waited for', 'asRef(w) === $waited && $all === asRef(promises)');
  must('every current listener has been called', 'forall((f: Val) => implies(has(this._listeners, f), $hits[asRef(f)] === 1), [has(this._listeners, f)])');
  must('no listener has been called twice', 'forall((f: Val) => $hits[asRef(f)] <= 1, [$hits[asRef(f)]])');
  must('the location is not changed yet', 'this._url === entry(this._url) && is(this._state, entry(this._state))');
  const t = s.clone();
  v.hset(s, 'g:settled', 'true');
  v.hset(s, 'g:pending', '0');
  // other navigations may finish
  v.havocModifies({ modifies: ['entries(this._listeners)', 'this._url', 'this._state'], allocates: true }, s, sc);
  return [{ k: 'val', st: s, v: UNDEF }, { k: 'throw', st: t, v: v.freshVal('err', { s: 'Val' }, t) }];
};
export default {
  property: 'C22',
  units: [{
    opts,
    contracts: {
      ...host,
      toRelativeUrl: { paramTypes: { url: 'Address' }, requires: { 'a url': 'isPtr(url)' }, returns: 'Str', value: 'url.pathname + url.search + url.hash' },
      stripLeadingHashmark: { paramTypes: { s: 'Str' }, returns: 'Str', ensures: { 'without the leading mark': 'result === hashless(s)' } },
      ...listening('BrowserAdapter', 'interceptable(event) && event.downloadRequest === null && !event.hashChange', 'pathOf(event.destination.url) + searchOf(event.destination.url) + hashOf(event.destination.url)'),
      ...listening('HashAdapter', 'interceptable(event) && event.hashChange', 'hashless(hashOf(event.destination.url))'),
      ...navigating('BrowserAdapter', 'url'),
      ...navigating('HashAdapter', "'#' + url"),
      'BrowserAdapter.getCurrentURL': { requires: here, returns: 'Str', ensures: { 'the relative url': 'result === this._location.pathname + this._location.search + this._location.hash' } },
      'HashAdapter.getCurrentURL': { requires: here, returns: 'Str', ensures: { 'the hash without its mark': 'result === hashless(this._location.hash)' } },
    },
  }, {
    opts: { ...opts, strings: undefined, decls: decls.replace(/^\(define-fun hashless.*$/m, '(declare-fun hashless (Str) Str)') },
    contracts: {
      'InMemoryAdapter.constructor': { paramTypes: { url: 'Str', state: 'Val' }, fresh: ['dom'], allocates: true, ensures: { 'the location given': 'this._url === url && is(this._state, state)', 'nobody listens': 'isPtr(this._listeners) && forall((f: Val) => !has(this._listeners, f), [has(this._listeners, f)])' } },
      'InMemoryAdapter.getCurrentState': { returns: 'Val', ensures: { 'the state': 'is(result, this._state)' } },
      'InMemoryAdapter.getCurrentURL': { returns: 'Str', ensures: { 'the url': 'result === this._url' } },
      'InMemoryAdapter.listen': {
        paramTypes: { listener: 'Ref!' }, returns: 'Ref!', allocates: true, requires: { listeners: 'isPtr(this._listeners)' },
        modifies: ['entries(this._listeners)'],
        ensures: { 'exactly the listener is added': 'forall((f: Val) => has(this._listeners, f) === (old(has(this._listeners, f)) || f === asVal(listener)), [has(this._listeners, f)])' },
      },
      'InMemoryAdapter.listen remove': {
        of: 'InMemoryAdapter.listen', paramTypes: { listener: 'Ref!' }, returns: 'Val', allocates: true, requires: { listeners: 'isPtr(this._listeners)' },
        modifies: ['entries(this._listeners)'], curried: { havoc: ['entries(this._listeners)'] },
        ensures: { 'exactly the listener is removed': 'forall((f: Val) => has(this._listeners, f) === (old(has(this._listeners, f)) && f !== asVal(listener)), [has(this._listeners, f)])' },
      },
      'ext Promise.all': { assumed: 'Promise.all waits for all of the promises', params: ['ps'], paramTypes: { ps: 'array:Val' }, returns: 'Ref!', freshResult: true, allocates: true, modifies: ['$all', '$waited'], ensures: { a: '$all === asRef(ps) && $waited === asRef(result)' } },
      'InMemoryAdapter.navigate': {
        paramTypes: { url: 'Str', options: 'Options' }, allocates: true, throws: true,
        requires: { listeners: 'isPtr(this._listeners)', options: 'isPtr(options)' },
        entry: { hits: 'noHits()', settled: 'false', pending: '0' },
        modifies: ['entries(this._listeners)', 'this._url', 'this._state', '$hits', '$all', '$waited', '$handled', '$handlerPromise', '$settled', '$pending'],
        fresh: ['url', 'state', 'navigationType', 'intercept', 'scroll', 'len', 'elems:Ref', 'elems:Val'],
        callbacks: { listener: inMemoryListener, handler: handlerCall },
        loops: [{
          name: 'listeners',
          inv: {
            'every listener called so far was called once, no other': 'forall((f: Val) => $hits[asRef(f)] === ($seen[f] ? 1 : 0), [$seen[f]])',
            'promises to wait for': '!$settled && $pending === promises.length',
            'the location is not changed yet': 'this._url === entry(this._url) && is(this._state, entry(this._state))',
          },
        }],
        await: waitAll,
        ensures: {
          'every current listener has been called': '$settled || forall((f: Val) => implies(has(this._listeners, f), $hits[asRef(f)] === 1), [has(this._listeners, f)])',
          'all promises have been waited for': '$pending === 0',
          'the location is changed': 'this._url === url && is(this._state, options.state)',
        },
        throwsEnsures: { 'the location is not changed': 'this._url === old(this._url) && is(this._state, old(this._state))' },
      },
    },
  }],
  closed: ['_location', '_navigation', '_url', '_state', '_listeners'],
};
