// C25: roots mount, replace and remove exactly their own trees.
//
// Ghosts: rootOf[s] the root a session belongs to, age[s] when it was begun;
// live[n] node n is mounted (and not replaced or unmounted since); home[n] the
// session it was rendered for, base[n] the node it was made from by diff (0 if
// rendered afresh), elOf[n] its element, partOf[n] the part it was given.
const decls = `(define-fun isPtr ((r Int)) Bool (> r 0))
(define-fun num ((r Int)) Int r)
(define-fun idOf ((r Int)) Int r)
(declare-fun wrapped (Val) Int)
(declare-fun mark (Int) Bool)
(assert (forall ((r Int)) (! (mark r) :pattern ((mark r)))))`;
const specFns = {
  isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' },
  num: { smt: 'num', args: ['Int'], ret: 'Int' },
  idOf: { smt: 'idOf', args: ['Ref'], ret: 'Int' },
  // true; occurrences guide the instantiation of claims about pairs of sessions
  mark: { smt: 'mark', args: ['Ref'], ret: 'Bool' },
  wrapped: { smt: 'wrapped', args: ['Val'], ret: 'Int' },
};
const opts = {
  decls, specFns,
  ghosts: {
    rootOf: '(Array Int Int)', age: '(Array Int Int)', clock: 'Int',
    live: '(Array Int Bool)', home: '(Array Int Int)', base: '(Array Int Int)', elOf: '(Array Int Int)', partOf: '(Array Int Int)', coroutine: 'Int', scheduled: 'Int', options: 'Val', cursor: 'Int',
  },
  fieldSorts: { left: '?RenderNode', right: '?RenderNode', previous: '?RootSession', _session: 'RootSession', _container: 'Ref', _dispatcher: 'Ref', scope: 'Scope', owner: 'Ref', pendingLanes: 'BV', prepare: 'Ref', level: 'Int', parent: 'Ref', instances: 'array:Ref', type: 'Val' },
};
const solve = { order: ['cvc5', 'z3', 'z3nombqi', 'cvc5'], t1: 5, t2: 10, t3: 25 };
// the sessions of all roots; `links` says to which of them the claim about
// `previous` applies
const sessions = (links = 'true') => ({
  'sessions are known': 'forall((s: RootSession) => implies(num($rootOf[s]) !== 0, isPtr(s) && allocated(s) && num($age[s]) < $clock), [$rootOf[s]])',
  'one session at a time': 'forall((s: RootSession, t: RootSession) => implies(mark(s) && mark(t) && num($rootOf[s]) !== 0 && num($rootOf[s]) === num($rootOf[t]) && num($age[s]) === num($age[t]), idOf(s) === idOf(t)), [[mark(s), mark(t)]])',
  'the committed tree of a session is mounted': 'forall((s: RootSession) => implies(num($rootOf[s]) !== 0 && s.right !== null, isPtr(s.right) && $live[s.right] && num($home[s.right]) === idOf(s)), [$rootOf[s]])',
  'the rendered tree of a session': 'forall((s: RootSession) => implies(num($rootOf[s]) !== 0 && s.left !== null, isPtr(s.left) && num($home[s.left]) === idOf(s)), [$rootOf[s]])',
  'nothing else is': 'forall((n: RenderNode) => implies(isPtr(n) && $live[n] && num($home[n]) !== 0 && num($rootOf[$home[n]]) !== 0, idOf(typed($home[n], "RootSession").right) === idOf(n)), [$live[n]])',
  'trees are made for known sessions': 'forall((n: RenderNode) => implies(num($home[n]) !== 0, num($rootOf[$home[n]]) !== 0), [$home[n]])',
  'earlier sessions are unmounted or linked': `forall((s: RootSession, t: RootSession) => implies(mark(s) && mark(t) && num($rootOf[s]) !== 0 && num($rootOf[t]) === num($rootOf[s]) && num($age[t]) < num($age[s]) && ${links} && t.right !== null, s.previous !== null && num($age[t]) <= num($age[s.previous])), [[mark(s), mark(t)]])`,
  'links lead to earlier sessions': 'forall((s: RootSession) => implies(num($rootOf[s]) !== 0 && s.previous !== null, isPtr(s.previous) && num($rootOf[s.previous]) === num($rootOf[s]) && num($age[s.previous]) < num($age[s])), [$rootOf[s]])',
});
const current = (root = 'this') => ({
  'the current session is the latest': `isPtr(${root}) && isPtr(${root}._session) && mark(${root}._session) && num($rootOf[${root}._session]) === idOf(${root}) && forall((t: RootSession) => implies(num($rootOf[t]) === idOf(${root}), num($age[t]) <= num($age[${root}._session])), [$rootOf[t]])`,
});
const mountContract = {
  assumed: 'mounts the tree and connects its components (C05, C06, C08)', params: ['n'], paramTypes: { n: 'RenderNode' }, returns: 'Val',
  requires: { 'a rendered tree that is not mounted': 'isPtr(n) && !$live[n] && num($base[n]) === 0' },
  modifies: ['$live'], ensures: { a: '$live === store(old($live), n, true)' },
};
const patchContract = {
  assumed: 'replaces a mounted tree by the one made from it, patching in place (C05, C06, C08)', params: ['a', 'b'], paramTypes: { a: 'RenderNode', b: 'RenderNode' }, returns: 'Val',
  requires: { 'a mounted tree, and itself or one made from it': 'isPtr(a) && isPtr(b) && $live[a] && (idOf(a) === idOf(b) || !$live[b] && num($base[b]) === idOf(a))' },
  modifies: ['$live'], ensures: { a: '$live === store(store(old($live), a, false), b, true)' },
};
const unmountContract = {
  assumed: 'removes a mounted tree and disconnects its components (C05, C06, C08)', params: ['n'], paramTypes: { n: 'RenderNode' }, returns: 'Val',
  requires: { 'a mounted tree': 'isPtr(n) && $live[n]' },
  modifies: ['$live'], ensures: { a: '$live === store(old($live), n, false)' },
};
const rendererContracts = {
  wrap: { assumed: 'proved in C27', params: ['v'], paramTypes: { v: 'Val' }, returns: 'VElement', ensures: { a: 'idOf(result) === wrapped(v)' } },
  '*.diff': {
    assumed: 'makes a tree for the element from a committed one (C05)', params: ['old_', 'el', 'scope', 'index', 'parent'],
    paramTypes: { old_: 'RenderNode', el: 'VElement', scope: 'Scope', index: 'Int', parent: 'RootSession' }, returns: 'RenderNode', caller: true,
    requires: { 'the committed tree of the session it is made for': 'isPtr(parent) && isPtr(old_) && idOf(parent.right) === idOf(old_) && $live[old_] && num($home[old_]) === idOf(parent)' },
    modifies: ['$home', '$base', '$elOf'],
    ensures: { a: 'isPtr(result) && !$live[result] && $home === store(old($home), result, idOf(parent)) && $base === store(old($base), result, idOf(old_)) && $elOf === store(old($elOf), result, idOf(el)) && num(old($home[result])) === 0' },
  },
  '*.render': {
    assumed: 'makes a tree for the element (C05)', params: ['el', 'scope', 'index', 'parent', 'part'],
    paramTypes: { el: 'VElement', scope: 'Scope', index: 'Int', parent: 'RootSession', part: 'ContainerPart' }, returns: 'RenderNode',
    requires: { 'a session without a committed tree': 'isPtr(parent) && parent.right === null', 'a part for the container': 'isClass(part, "ContainerPart") && asRef(part._container) === asRef($this._container)' },
    caller: true,
    modifies: ['$home', '$base', '$elOf', '$partOf'],
    ensures: { a: 'isPtr(result) && !$live[result] && $home === store(old($home), result, idOf(parent)) && $base === store(old($base), result, 0) && $elOf === store(old($elOf), result, idOf(el)) && num(old($home[result])) === 0 && $partOf === store(old($partOf), result, idOf(part))' },
  },
};
const schedule = {
  assumed: 'accepts the update; it is prepared and committed later (C03, C04)', params: ['coroutine', 'o'], paramTypes: { coroutine: 'Ref!', o: 'Val' }, returns: 'Ref!',
  modifies: ['$coroutine', '$scheduled', '$options'], ensures: { a: '$coroutine === idOf(coroutine) && $scheduled === old($scheduled) + 1 && is($options, o)' },
};
const rootScope = { assumed: 'proved in C10', params: ['owner'], paramTypes: { owner: 'Ref' }, returns: 'Scope', freshResult: true, fresh: ['owner', 'level', 'parent', 'instances'], ensures: { a: 'isPtr(result) && asRef(result.owner) === asRef(owner)' } };
const common = { '*.schedule': schedule, 'Scope.root': rootScope };
const coroutine = {
  'an update of the whole tree is scheduled with the given options': `$scheduled === old($scheduled) + 1 && is($options, options)`,
  'for all lanes': 'typed($coroutine, "Coroutine").pendingLanes === -1',
  'in a scope of the root': 'isPtr(typed($coroutine, "Coroutine").scope) && asRef(typed($coroutine, "Coroutine").scope.owner) === asRef(this)',
};
const fresh = ['left', 'right', 'previous', 'type', 'owner', 'level', 'parent', 'instances', '_container', 'scope', 'pendingLanes', 'prepare', 'len', 'elems:Ref'];
const base = { paramTypes: { value: 'Val', options: 'Val' }, returns: 'Ref', allocates: true, fresh };
const worldMods = ['*.left', '*.right', '*.previous', '*._session', '$live', '$home', '$base', '$elOf', '$partOf', '$rootOf', '$age', '$clock'];
const S = 'this._session';
const prepareStage = {
  select: 'typed($coroutine, "Coroutine").prepare', params: { lanes: 'BV', renderer: 'Renderer' },
  havoc: worldMods,
  assume: { ...sessions(), ...current() },
};
// while a commit waits, other updates are prepared and committed
const commitStage = (extra) => ({
  params: {}, keep: { cursor: 'idOf(this._session)' },
  havoc: worldMods, assume: { ...sessions(), ...current(), ...extra },
});
const C = 'typed($cursor, "RootSession")';
const renderPrepare = {
  ...base, of: 'DOMRoot.render', returns: undefined, curried: prepareStage,
  modifies: ['this._session.left', '$home', '$base', '$elOf', '$partOf'],
  ensures: {
    'the value is rendered for the current session': `asRef(${S}) === asRef(old(${S})) && isPtr(${S}.left) && num($elOf[${S}.left]) === wrapped(value) && num($home[${S}.left]) === idOf(${S})`,
    'from the committed tree, or from scratch after unmounting': `num($base[${S}.left]) === idOf(${S}.right === null ? asRef(null) : asRef(${S}.right))`,
    'nothing is mounted or unmounted yet': '$live === old($live)',
    ...sessions(), ...current(),
  },
};
export { opts as rootOpts };
const unmountSession = {
  paramTypes: { session: '?RootSession' },
  requires: { ...sessions(), 'a session': 'session === null || isPtr(session) && num($rootOf[session]) !== 0' },
  modifies: ['*.right', '*.previous', '$live'],
  loops: [{
    name: 'sessions',
    inv: {
      ...Object.fromEntries(Object.entries(sessions('!($session !== null && num($rootOf[s]) === num($rootOf[$session]) && num($age[s]) <= num($age[$session]) && (session === null || num($age[s]) > num($age[session])))'))),
      'the cursor': 'mark($session) && mark(session) && session === null || mark($session) && mark(session) &&  $session !== null && num($rootOf[session]) === num($rootOf[$session]) && num($age[session]) <= num($age[$session]) && isPtr(session)',
      'those passed are unmounted': '$session === null || forall((t: RootSession) => implies(num($rootOf[t]) === num($rootOf[$session]) && num($age[t]) <= num($age[$session]) && (session === null || num($age[t]) > num($age[session])), t.right === null), [$rootOf[t]])',
      'others are not': 'forall((t: RootSession) => implies($session === null || num($rootOf[t]) !== num($rootOf[$session]) || num($age[t]) > num($age[$session]), asRef(t.right) === asRef(old(t.right)) && asRef(t.previous) === asRef(old(t.previous))), [$rootOf[t]])',
      'only trees of the passed sessions are removed': 'forall((n: RenderNode) => implies(old($live[n]) !== $live[n], old($live[n]) && num($home[n]) !== 0 && $session !== null && num($rootOf[$home[n]]) === num($rootOf[$session]) && num($age[$home[n]]) <= num($age[$session])), [$live[n]])',
    },
    dec: 'session === null ? 0 : num($age[session]) + 1',
  }],
  ensures: {
    'it and all earlier ones are unmounted': 'implies(session !== null, forall((t: RootSession) => implies(num($rootOf[t]) === num($rootOf[session]) && num($age[t]) <= num($age[session]), t.right === null), [$rootOf[t]]))',
    'later ones and those of other roots are not': 'forall((t: RootSession) => implies(session === null || num($rootOf[t]) !== num($rootOf[session]) || num($age[t]) > num($age[session]), asRef(t.right) === asRef(old(t.right)) && asRef(t.previous) === asRef(old(t.previous))), [$rootOf[t]])',
    'only trees of these sessions are removed': 'forall((n: RenderNode) => implies(old($live[n]) !== $live[n], old($live[n]) && session !== null && num($home[n]) !== 0 && num($rootOf[$home[n]]) === num($rootOf[session]) && num($age[$home[n]]) <= num($age[session])), [$live[n]])',
    ...sessions(),
  },
};
unmountSession.requires['time'] = 'forall((s: RootSession) => num($age[s]) >= 0, [$age[s]])';
const walk = { mount: mountContract, patch: patchContract, unmount: unmountContract };
const renderCommit = {
  ...base, of: 'DOMRoot.render', returns: undefined,
  curried: [prepareStage, commitStage({
    // commits run in the order of their prepare (C04): the session has not been
    // unmounted since, and its rendered tree was made from the committed one
    'the session of the prepare': `isPtr(${C}) && mark(${C}) && num($rootOf[$cursor]) === idOf(this)`,
    'not unmounted in between': `${C}.left !== null && (${C}.right === null ? !$live[${C}.left] && num($base[${C}.left]) === 0 : idOf(${C}.left) === idOf(${C}.right) || !$live[${C}.left] && num($base[${C}.left]) === idOf(${C}.right))`,
    'nor are later sessions committed': `forall((s: RootSession) => implies(mark(s) && num($rootOf[s]) === idOf(this) && num($age[s]) > num($age[$cursor]), s.previous !== null && num($age[$cursor]) <= num($age[s.previous])), [mark(s)])`,
    time: 'forall((s: RootSession) => num($age[s]) >= 0, [$age[s]])',
  })],
  modifies: ['*.right', '*.previous', '$live'],
  ensures: {
    'the rendered tree is the committed one, and mounted': `asRef(${C}.right) === asRef(${C}.left) && $live[${C}.left] && asRef(${C}.left) === asRef(old(${C}.left))`,
    'all earlier sessions are unmounted': `forall((t: RootSession) => implies(num($rootOf[t]) === idOf(this) && num($age[t]) < num($age[$cursor]), t.right === null), [$rootOf[t]])`,
    'nothing is removed but the former tree and those of earlier sessions': `forall((n: RenderNode) => implies(old($live[n]) && !$live[n], idOf(n) === idOf(old(${C}.right)) || num($rootOf[$home[n]]) === idOf(this) && num($age[$home[n]]) < num($age[$cursor])), [$live[n]])`,
    'nothing is mounted but the rendered tree': `forall((n: RenderNode) => implies(!old($live[n]) && $live[n], idOf(n) === idOf(${C}.left)), [$live[n]])`,
    ...sessions(), ...current(),
  },
};
const unmountPrepare = {
  ...base, of: 'DOMRoot.unmount', returns: undefined, curried: prepareStage,
  modifies: ['this._session', '$rootOf', '$age', '$clock'],
  ghostExit: { rootOf: 'store($rootOf, this._session, idOf(this))', age: 'store($age, this._session, $clock)', clock: '$clock + 1' },
  ensures: {
    'the following renders start from scratch': `fresh(${S}) && ${S}.left === null && ${S}.right === null`,
    'it remembers what is to be unmounted': `asRef(${S}.previous) === asRef(old(${S}))`,
    'nothing is mounted or unmounted yet': '$live === old($live)',
    ...sessions(), ...current(),
  },
};
const unmountCommit = {
  ...base, of: 'DOMRoot.unmount', returns: undefined,
  curried: [prepareStage, commitStage({
    'the session before the new one': `isPtr(${C}) && mark(${C}) && num($rootOf[$cursor]) === idOf(this)`,
    time: 'forall((s: RootSession) => num($age[s]) >= 0, [$age[s]])',
  })],
  modifies: ['*.right', '*.previous', '$live'],
  ensures: {
    'the session and all earlier ones are unmounted': `forall((t: RootSession) => implies(num($rootOf[t]) === idOf(this) && num($age[t]) <= num($age[$cursor]), t.right === null), [$rootOf[t]])`,
    'nothing else is removed': `forall((n: RenderNode) => implies(old($live[n]) && !$live[n], num($rootOf[$home[n]]) === idOf(this) && num($age[$home[n]]) <= num($age[$cursor])), [$live[n]])`,
    'nothing is mounted': 'forall((n: RenderNode) => implies($live[n], old($live[n])), [$live[n]])',
    ...sessions(), ...current(),
  },
};
// the session at the time of unmount.prepare is the one before the new one
unmountCommit.curried[1].keep = { cursor: 'idOf(this._session.previous)' };
export default {
  property: 'C25',
  units: [
    { solve, opts, contracts: { ...common, 'DOMRoot.render': { ...base, modifies: schedule.modifies, ensures: coroutine }, 'DOMRoot.unmount': { ...base, modifies: schedule.modifies, ensures: coroutine } } },
    { solve, opts, closed: ['_session'], contracts: { ...common, ...rendererContracts, 'DOMRoot.render (prepare)': renderPrepare, 'DOMRoot.unmount (prepare)': unmountPrepare } },
    { solve, opts, closed: ['previous'], contracts: { ...common, ...rendererContracts, ...walk, unmountSession, 'DOMRoot.render (commit)': renderCommit, 'DOMRoot.unmount (commit)': unmountCommit } },
  ],
};
