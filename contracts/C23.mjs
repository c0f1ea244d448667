// C23: the middleware pipeline, the logger and the profiler.
const opts = {
  // stage   the middleware that comes next; rendered  prepare calls
  // cur     the update passed on last; ret[i]  the commit returned at stage i
  // err     the error thrown last
  // renders, commits, inner, open, records, marks, measures, marked: the logger and the profiler
  ghosts: { stage: 'Int', rendered: 'Int', cur: 'Int', ret: '(Array Int Int)', total: 'Int', flush: 'BV', rend: 'Int', err: 'Val', marks0: 'Int', renders: 'Int', commits: 'Int', inner: 'Int', open: 'Int', records: 'Int', marks: 'Int', measures: 'Int', marked: '(Array Str Bool)' },
  decls: '(define-fun isPtr ((r Int)) Bool (> r 0))',
  specFns: { isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' } },
  fieldSorts: { _middlewares: 'array:Middleware', id: 'Int', _transactionIndex: 'Int', transaction: 'Transaction', scope: 'Scope', lanes: 'BV', _userTiming: 'UserTiming', _logger: 'Logger' },
};
const setG = (v, st, g, t) => {
  v.hset(st, `g:${g}`, t);
  v.onWrite?.(`g:${g}`, 'ghost', st);
};
const g = (v, st, x) => v.heap(st, `g:${x}`).name;
// A middleware calls the function it is given once, with any update, before
// it returns any commit, or it throws.
const handle = {
  assumed: 'a middleware calls the render function it is given once, with an update of its choice, and returns a commit; or throws',
  params: ['update', 'next'],
  hook: (v, { self, args, st, cx, n }) => {
    const sc = { spec: true, env: undefined, module: cx.module, self, bound: new Map([...v.verifyBound, ['u', args[0]], ['mw', self]]), old: st };
    const must = (nm, e, s) => { const f = v.specBool(e, s, sc); v.oblige(s, `handle: ${nm}`, f, 'precondition'); s.assume(f); };
    must('the middleware whose turn it is', '0 <= $stage && $stage < $total && $total === middlewares.length && asRef(mw) === asRef(middlewares[$stage])', st);
    must('it gets the update passed on', 'asRef(u) === $cur', st);
    const i = v.newConst('i', 'Int', g(v, st, 'stage'));
    const out = [];
    const fail = (s) => { const e = v.freshVal('err', { s: 'Val' }, s); setG(v, s, 'err', e.t); out.push({ k: 'throw', st: s, v: e }); };
    fail(st.clone());
    const u2 = v.freshVal('passed', v.parseType('Update'), st);
    st.assume(`(> ${u2.t} 0)`);
    setG(v, st, 'cur', u2.t);
    setG(v, st, 'stage', `(+ ${i} 1)`);
    for (const o of v.callValue(args[1], [u2], st, cx, n)) {
      if (o.k !== 'val') { out.push(o); continue; }
      sc.bound.set('r', o.v);
      sc.bound.set('i', { s: 'Int', t: i });
      must('the render function returns the commit of the next stage', 'asRef(r) === $ret[i + 1]', o.st);
      fail(o.st.clone());
      const r = v.freshVal('wrapped', { s: 'Ref', nn: true }, o.st);
      o.st.assume(`(isFn ${r.t})`);
      setG(v, o.st, 'ret', `(store ${g(v, o.st, 'ret')} ${i} ${r.t})`);
      out.push({ k: 'val', st: o.st, v: r });
    }
    return out;
  },
};
const stages = ['$stage', '$cur', '$ret', '$rendered', '$err'];
const pipeline = {
  continuePipeline: {
    returns: 'Ref!', throws: true, paramTypes: { update: 'Update', index: 'Int' },
    requires: { 'the stage': '0 <= $stage && $stage === index && index <= middlewares.length', 'the update passed on': 'isPtr(update) && asRef(update) === $cur', 'not rendered yet': '$rendered === 0' },
    modifies: stages,
    ensures: {
      'every remaining middleware has had its turn': '$stage === middlewares.length', 'rendered once': '$rendered === 1 && $total === old($total)',
      'the commit of this stage': 'asRef(result) === $ret[index]', 'is a commit': 'isPtr(result)',
    },
    throwsEnsures: { 'the error is passed on': 'asVal(result) === $err', 'rendered at most once': '$rendered <= 1' },
    noFrame: true,
  },
};
pipeline['*'] = { ...pipeline.continuePipeline };
const timing = {
  'ext performance.now': { assumed: 'returns a number', params: [], returns: 'Int' },
  '*.toFixed': { assumed: 'formats a number', params: ['d'], returns: 'Str' },
  nameOf: { requires: { 'an owner': 'isPtr(owner)' }, returns: 'Str', assumed: 'names an owner without effects' },
  captureOwnerStack: {
    requires: { 'a scope': 'isPtr(scope)' }, returns: 'array:Owner', allocates: true, freshResult: true, fresh: ['len', 'elems:Ref'],
    loops: [{ name: 'ancestors', inv: { 'the stack': 'isPtr(ownerStack) && isArr(ownerStack) && fresh(ownerStack)', 'a scope': 'isPtr(current) || (current === null && !$first)' } }],
  },
};
const logging = {
  '*.groupCollapsed': { assumed: 'opens a group', params: ['t', 'a', 'b', 'c', 'd', 'e'], modifies: ['$open'], requires: { 'no group is open': '$open === 0' }, ensures: { a: '$open === 1' } },
  '*.log': { assumed: 'prints a line', params: ['t', 'a', 'b', 'c'], requires: { 'within a group': '$open === 1' } },
  '*.groupEnd': { assumed: 'closes the group', params: [], modifies: ['$open', '$records'], requires: { 'a group is open': '$open === 1' }, ensures: { a: '$open === 0 && $records === old($records) + 1' } },
};
const idle = { 'no group is open': '$open === 0', 'an update': 'isPtr(update) && isPtr(update.transaction) && isPtr(update.transaction.scope) && isPtr(update.transaction.scope.owner)' };
const render = {
  argNames: ['u'], returns: 'Ref!', throws: true, allocates: true,
  requires: { 'the update is rendered once': 'asRef(u) === asRef(update) && $renders === 0' },
  modifies: ['$renders', '$inner', '$err'],
  ensures: { a: '$renders === 1 && $inner === asRef(result) && isFn(result)' },
  throwsEnsures: { a: '$renders === 1 && asVal(result) === $err' },
};
const commit = {
  argNames: [], returns: 'Val', throws: true, allocates: true,
  requires: { 'the commit of the update is called once': 'asRef(callee) === $inner && $commits === 0' },
  modifies: ['$commits', '$err'],
  ensures: { a: '$commits === 1' },
  throwsEnsures: { a: '$commits === 1 && asVal(result) === $err' },
};
export default {
  property: 'C23',
  units: [{
    opts,
    contracts: {
      '*.handle': handle,
      '*.prepare': {
        assumed: 'prepares the transaction', params: ['lanes', 'renderer'], returns: 'Ref!', throws: true,
        requires: {
          'after every middleware': '$stage === $total', 'of the update passed on': "asRef(this) === asRef(typed($cur, 'Update').transaction)",
          'once': '$rendered === 0', 'with the lanes of the flush and the runtime': 'lanes === $flush && asRef(renderer) === $rend',
        },
        modifies: ['$rendered', '$ret', '$err'],
        ensures: { a: '$rendered === 1 && $ret === store(old($ret), $stage, result) && isFn(result)' },
        throwsEnsures: { a: '$rendered === 1 && asVal(result) === $err' },
      },
      runPipeline: {
        paramTypes: { update: 'Update', renderer: 'Runtime' }, returns: 'Ref!', throws: true,
        requires: { 'an update and middleware': 'isPtr(update) && isPtr(middlewares) && isArr(middlewares) && forall((k: Int) => implies(0 <= k && k < middlewares.length, isPtr(middlewares[k])), [middlewares[k]])' },
        entry: { stage: '0', cur: 'asRef(update)', rendered: '0', total: 'middlewares.length', flush: 'flushLanes', rend: 'asRef(renderer)' },
        locals: pipeline, modifies: stages, ghosts: { },
        ensures: {
          'every middleware has had its turn': '$stage === middlewares.length',
          'the update is rendered once': '$rendered === 1',
          'the commit is that of the first stage': 'asRef(result) === $ret[0]',
        },
        throwsEnsures: { 'the error is passed on': 'asVal(result) === $err' },
      },
      'Runtime.use': {
        modifies: ['elems(this._middlewares)'], returns: 'Ref!',
        requires: { 'a middleware': 'isPtr(middleware)' },
        ensures: {
          'it is appended': 'this._middlewares.length === old(this._middlewares.length) + 1 && asRef(this._middlewares[old(this._middlewares.length)]) === asRef(middleware)',
          'the others are kept': 'forall((k: Int) => implies(0 <= k && k < old(this._middlewares.length), asRef(this._middlewares[k]) === old(asRef(this._middlewares[k]))), [this._middlewares[k]])',
        },
      },
      'Runtime.use remove': {
        of: 'Runtime.use',
        modifies: ['elems(this._middlewares)'], returns: 'Val', allocates: true,
        requires: { 'a middleware': 'isPtr(middleware)' },
        fresh: ['len', 'elems:Ref'],
        specFns: { L: { params: [], expr: 'this._middlewares' }, has: { params: [], expr: '' } },
        curried: { havoc: ['elems(this._middlewares)'] },
        ensures: {
          'a middleware that is not registered: nothing is removed': 'implies(forall((k: Int) => implies(0 <= k && k < old(this._middlewares.length), asRef(old(this._middlewares[k])) !== asRef(middleware)), [old(this._middlewares[k])]), this._middlewares.length === old(this._middlewares.length) && forall((k: Int) => implies(0 <= k && k < this._middlewares.length, asRef(this._middlewares[k]) === asRef(old(this._middlewares[k]))), [this._middlewares[k]]))',
          'otherwise the first registration is removed': 'forall((p: Int) => implies(0 <= p && p < old(this._middlewares.length) && asRef(old(this._middlewares[p])) === asRef(middleware) && forall((k: Int) => implies(0 <= k && k < p, asRef(old(this._middlewares[k])) !== asRef(middleware)), [old(this._middlewares[k])]), this._middlewares.length === old(this._middlewares.length) - 1 && forall((k: Int) => implies(0 <= k && k < this._middlewares.length, asRef(this._middlewares[k]) === (k < p ? asRef(old(this._middlewares[k])) : asRef(old(this._middlewares[k + 1])))), [this._middlewares[k]])), [old(this._middlewares[p])])',
        },
      },
    },
  }, {
    opts,
    contracts: {
      ...timing, ...logging,
      getPriorityFromLanes: { assumed: 'C02', params: ['lanes'], returns: 'Str' },
      emitLog: {
        modifies: ['$open', '$records'], allocates: true, returns: 'Val', paramTypes: { logger: 'Logger', update: 'Update' },
        requires: { ...idle, 'a logger': 'isPtr(logger)' },
        loops: [{ name: 'names', outEl: 'Str', inv: { a: 'true' } }],
        ensures: { 'one balanced record': '$open === 0 && $records === old($records) + 1' },
      },
      'UpdateLogger.handle': {
        returns: 'Ref!', throws: true, modifies: ['this._transactionIndex', '$renders', '$inner', '$err', '$open', '$records'], allocates: true,
        requires: { ...idle, 'a logger': 'isPtr(this._logger)' }, entry: { renders: '0' },
        callbacks: { '*': render },
        ensures: { 'rendered once': '$renders === 1', 'no record yet': '$records === old($records) && $open === 0', 'a commit': 'isFn(result)' },
        throwsEnsures: { 'rendered once': '$renders === 1', 'one balanced record': '$records === old($records) + 1 && $open === 0', 'the error is passed on': 'asVal(result) === $err' },
      },
      'UpdateLogger.handle commit': {
        of: 'UpdateLogger.handle', returns: 'Val', throws: true, noFrame: true, allocates: true,
        requires: { ...idle, 'a logger': 'isPtr(this._logger)' }, entry: { renders: '0' },
        callbacks: { render, '*': commit },
        curried: { allowThrow: true, entry: { commits: '0' }, havoc: ['this._transactionIndex', '$records', '$open'], assume: { a: '$open === 0' } },
        ensures: { 'committed once': '$commits === 1', 'not rendered again': '$renders === 1', 'one balanced record': '$records === old($records) + 1 && $open === 0' },
        throwsEnsures: { 'committed once': '$commits === 1', 'one balanced record': '$records === old($records) + 1 && $open === 0', 'the error is passed on': 'asVal(result) === $err' },
      },
    },
  }, {
    opts,
    contracts: {
      nameOf: timing.nameOf,
      '*.mark': { assumed: 'sets a mark', params: ['m'], paramTypes: { m: 'Str' }, modifies: ['$marks', '$marked'], ensures: { a: '$marks === old($marks) + 1 && $marked === store(old($marked), m, true)' } },
      '*.measure': { assumed: 'measures between marks', params: ['name', 'a', 'b'], paramTypes: { a: 'Str', b: 'Str' }, modifies: ['$measures'], requires: { 'the marks are set': '$marked[a] && $marked[b]' }, ensures: { a: '$measures === old($measures) + 1' } },
      'UpdateProfiler.handle': {
        returns: 'Ref!', throws: true, modifies: ['$renders', '$inner', '$err', '$marks', '$marked'], allocates: true,
        requires: { ...idle, 'the API': 'isPtr(this._userTiming)' }, entry: { renders: '0', marks0: '$marks' },
        callbacks: { '*': { ...render, requires: { ...render.requires, 'after the start mark': '$marks > $marks0' } } },
        ensures: { 'rendered once': '$renders === 1', 'the marks of the render': '$marks === old($marks) + 2', 'no record yet': '$measures === old($measures)', 'a commit': 'isFn(result)' },
        throwsEnsures: { 'rendered once': '$renders === 1', 'no record': '$measures === old($measures)', 'the error is passed on': 'asVal(result) === $err' },
      },
      'UpdateProfiler.handle commit': {
        of: 'UpdateProfiler.handle', returns: 'Val', throws: true, noFrame: true, allocates: true,
        requires: { ...idle, 'the API': 'isPtr(this._userTiming)' }, entry: { renders: '0' },
        callbacks: { render, '*': commit },
        curried: { allowThrow: true, entry: { commits: '0' }, havoc: ['$measures', '$marks'] },
        ensures: { 'committed once': '$commits === 1', 'not rendered again': '$renders === 1', 'one record': '$measures === old($measures) + 3 && $marks === old($marks) + 2' },
        throwsEnsures: { 'committed once': '$commits === 1', 'the error is passed on': 'asVal(result) === $err', 'no record': '$measures === old($measures)' },
      },
    },
  }],
};
