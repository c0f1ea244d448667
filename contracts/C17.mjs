// C17: external values and the hooks of the addons. Each hook is a function of
// the render context; the effects it registers are verified as later calls, in
// an arbitrary later state.
//
// Ghosts: state  what useState returned; forced  forced updates; cur, curVersion
// the value (snapshot) and the version the signal (store) has at the moment;
// sets, flag, flagOptions  calls of the setter of a state; handles, made, given
// creating and passing on handles; pending  scheduled checks; unsub  what
// subscribing returned; subs  subscriptions
const ghosts = {
  state: 'Val', setter: 'Int', forced: 'Int', cur: 'Val', curVersion: 'Int', sets: 'Int', flag: 'Val', snapOf: '(Array Int Val)', nextIs: 'Val', transition: 'Int', handles: 'Int', made: 'Val', given: 'Val', gave: 'Val', gives: 'Int',
  pending: 'Int', unsub: 'Val', subs: 'Int', subscribed: 'Val', applied: 'Int', err: 'Val', began: 'Bool', acted: 'Int', outcome: 'Val', store: 'Int', reads: 'Int', waits: 'Int', memoDeps: 'Int', refObj: 'Int', snaps: 'Int',
};
const specFns = {
  isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' },
  isPromise: { smt: 'isPromiseObj', args: ['Val'], ret: 'Bool' },
  only: { params: ['d', 'x'], types: ['array:Val'], expr: 'isPtr(d) && d.length === 1 && is(asVal(d[0]), asVal(x))' },
  both: { params: ['d', 'x', 'y'], types: ['array:Val'], expr: 'isPtr(d) && d.length === 2 && (is(asVal(d[0]), asVal(x)) && is(asVal(d[1]), asVal(y)) || is(asVal(d[0]), asVal(y)) && is(asVal(d[1]), asVal(x)))' },
};
const opts = {
  ghosts, specFns, primitives: true, valArrays: true,
  decls: '(define-fun isPtr ((r Int)) Bool (> r 0))\n(declare-fun isPromiseObj (Val) Bool)',
  fieldSorts: { current: 'Val', getSnapshot: 'Ref!', snapshot: 'Val', transition: 'Val', flushSync: 'Val', value: 'Val', version: 'Int', initialValue: 'Val', then: 'Val' },
};
const set = (v, st, g, t) => { v.hset(st, `g:${g}`, t); v.onWrite?.(`g:${g}`, 'ghost', st); };
const g = (v, st, x) => v.heap(st, `g:${x}`).name;
const must = (v, cx, st, nm, e, extra) => {
  const f = v.specBool(e, st, { ...cx, spec: true, bound: new Map([...v.verifyBound, ...Object.entries(extra)]), old: st });
  v.oblige(st, nm, f, 'precondition');
  st.assume(f);
};
const context = {
  'RenderContext.useState': {
    assumed: 'the state of the component and its setter (C07)', params: ['initial', 'options'],
    hook: (v, { st, cx, n }) => {
      const s = v.freshVal('state', { s: 'Val' }, st);
      set(v, st, 'state', s.t);
      const f = v.freshVal('setter', { s: 'Ref', nn: true, h: { k: 'fn' } }, st);
      st.assume(`(isFn ${f.t})`);
      st.assume(`(> ${f.t} 0)`);
      set(v, st, 'setter', f.t);
      return [{ k: 'val', st, v: { s: 'Tuple', items: [s, f] } }];
    },
  },
  'RenderContext.useRef': {
    assumed: 'the reference object of the component (C07, C09)', params: ['initial'], returns: 'Memo', modifies: ['$refObj'],
    ensures: { a: 'isPtr(result) && $refObj === asRef(result)' },
  },
  'RenderContext.useEffect': {
    assumed: 'runs the effect after the commit, at first and when the dependencies have changed (C08)',
    params: ['setup', 'deps'], paramTypes: { setup: 'Ref!', deps: '?array:Val' }, returns: 'Val', defers: 'effect#',
  },
  'RenderContext.useMemo': {
    assumed: 'the memoised object: that of an earlier render, or what the factory returns (C09)', params: ['factory', 'deps'],
    hook: (v, { args, st, cx, n }) => {
      const s1 = st.clone();
      for (const o of v.callValue(args[0], [], s1, cx, n)) {
        if (o.k !== 'val') v.oblige(o.st, 'the factory does not throw', 'false', 'precondition');
        else for (const [nm, e] of Object.entries(v.contract.memo ?? {})) must(v, cx, o.st, `useMemo: ${nm}`, e, { made: { ...o.v, h: o.v.h?.k === 'class' ? o.v.h : v.parseType('Memo').h }, deps: args[1] });
      }
      const r = v.freshVal('memo', v.parseType('Memo'), st);
      st.assume(`(> ${r.t} 0)`);
      st.assume(`(not (isFn ${r.t}))`);
      set(v, st, 'store', r.t);
      return [{ k: 'val', st, v: r }];
    },
  },
  'RenderContext.forceUpdate': {
    assumed: 'requests an update of the component (C03)', params: ['options'], paramTypes: { options: '?ForceOptions' }, modifies: ['$forced'], returns: 'Val', caller: true,
    ensures: { a: '$forced === old($forced) + 1' },
  },
  'RenderContext.startTransition': {
    assumed: 'calls the function once with a new transition and passes its result on (component.ts; C26)', params: ['f'],
    hook: (v, { args, st, cx, n }) => {
      const t = v.freshVal('transition', { s: 'Int' }, st);
      set(v, st, 'transition', t.t);
      return v.callValue(args[0], [t], st, cx, n);
    },
  },
};
const ctx = { params: { context: 'RenderContext' }, requires: { context: 'isPtr(context)' } };
const M = "typed($store, 'Memo')";
const changed = (x, y) => `(is(${x}, ${y}) ? 0 : 1)`;
const snapshotCall = { returns: 'Val', value: '$snapOf[callee]' };
const callable = { 'a function': `isPtr(${M}.getSnapshot) && isFn(${M}.getSnapshot)` };
const later = ['*.getSnapshot', '*.snapshot', '$snapOf'];
export default {
  property: 'C17',
  units: [{
    opts,
    contracts: {
      ...context,
      DeferredValue: {
        paramTypes: { value: 'Val', options: '?Options' }, returns: 'Val', curried: ctx, noFrame: true, allocates: true,
        callbacks: {
          setDeferredValue: {
            params: ['next', 'options'],
            hook: (v, { args, st, cx, n, scx }) => {
              must(v, cx, st, 'the setter of the state', 'asRef(c) === $setter', { c: scx.bound.get('callee') });
              must(v, cx, st, 'in the transition', "isPtr(asRef(o)) && typed(o, 'SetOptions').transition === asVal($transition)", { o: args[1] });
              set(v, st, 'sets', `(+ ${g(v, st, 'sets')} 1)`);
              for (const o of v.callValue(args[0], [], st.clone(), cx, n)) must(v, cx, o.st, 'to the value given', 'is(asVal(x), value)', { x: o.v });
              return [{ k: 'val', st, v: v.freshVal('handle', { s: 'Val' }, st) }];
            },
          },
        },
        deferred: { 'effect 1': { always: true, entry: { sets: '0' }, ensures: { 'when the value has changed': 'only(deps, value)', 'the value is deferred, once': '$sets === 1', 'no cleanup': 'result === undefined' } } },
        ensures: { 'the state is displayed': 'is(result, $state)' },
      },
    },
  }, {
    opts: { ...opts, fieldSorts: { ...opts.fieldSorts, current: 'Ref!' } },
    contracts: {
      ...context,
      EffectEvent: {
        paramTypes: { callback: 'Ref!' }, returns: 'Val', noFrame: true, allocates: true,
        curried: ctx, freshResult: undefined,
        deferred: { 'effect 1': { always: true, ensures: { 'when the callback has changed': 'only(deps, callback)', 'the callback becomes current': "typed($refObj, 'Ref').current === callback", 'no cleanup': 'result === undefined' } } },
      },
      'EffectEvent call': {
        of: 'EffectEvent', paramTypes: { callback: 'Ref!' }, returns: 'Val', noFrame: true, allocates: true, throws: true,
        curried: [ctx, { params: { self0: 'Ref', '...given': 'array:Val' }, receiver: 'self0', havoc: ['*.current'], assume: { a: "isPtr(typed($refObj, 'Memo').current) && isFn(typed($refObj, 'Memo').current)" }, entry: { applied: '0' } }],
        callbacks: {
          apply: {
            argNames: ['$args'], rest: true, returns: 'Val', throws: true, modifies: ['$applied', '$outcome'],
            requires: { 'the callback that is current': "callee === typed($refObj, 'Memo').current", 'called once, with the receiver and the arguments given': "$applied === 0 && asVal(receiver) === asVal(self0) && asRef($args) === asRef(given)" },
            ensures: { a: '$applied === old($applied) + 1 && is(result, $outcome)' }, throwsEnsures: { a: '$applied === old($applied) + 1' },
          },
        },
        ensures: { 'called once, and its result': '$applied === 1 && is(result, $outcome)' },
        throwsEnsures: { 'called once': '$applied === 1' },
      },
    },
  }, {
    opts,
    contracts: {
      ...context,
      ImperativeHandle: {
        paramTypes: { ref: 'Val', createHandle: 'Ref!', dependencies: '?array:Val' }, returns: 'Val', curried: ctx, noFrame: true, allocates: true,
        requires: { 'a reference': 'ref === null || ref === undefined || isRef(ref)', 'dependencies': 'dependencies !== null' },
        callbacks: {
          createHandle: { params: [], returns: 'Val', modifies: ['$handles', '$made'], ensures: { a: '$handles === old($handles) + 1 && result === $made' } },
          ref: {
            params: ['handle'], returns: 'Val', modifies: ['$gives', '$gave'],
            requires: { 'the reference given, with the handle': 'asVal(callee) === ref && $handles === 1 && is(asVal(handle), $made)' },
            ensures: { a: '$gives === old($gives) + 1 && is(result, $gave)' },
          },
        },
        deferred: {
          'effect 1': {
            always: true, entry: { handles: '0', gives: '0' },
            ensures: {
              'always, without dependencies': 'implies(dependencies === undefined, deps === undefined)',
              'when a dependency or the reference has changed': 'implies(dependencies !== undefined, isPtr(deps) && deps.length === dependencies.length + 1 && is(deps[dependencies.length], ref) && forall((k: Int) => implies(0 <= k && k < dependencies.length, is(deps[k], dependencies[k])), [dependencies[k]]))',
              'nothing without a reference': 'implies(!isRef(ref), $handles === 0 && $gives === 0 && result === undefined)',
              'a function is given the handle, its result cleans up': 'implies(isRef(ref) && isFn(asRef(ref)), $handles === 1 && $gives === 1 && is(asVal(result), $gave))',
              'an object refers to the handle': "implies(isRef(ref) && !isFn(asRef(ref)), $handles === 1 && $gives === 0 && typed(asRef(ref), 'Memo').current === $made)",
            },
            result: { unless: '!isRef(ref) || isFn(asRef(ref))', havoc: ['*.current'], ensures: { 'the object is cleared': "typed(asRef(ref), 'Memo').current === null", 'no result': 'result === undefined' } },
          },
        },
      },
      SyncExternalStore: {
        paramTypes: { subscribe: 'Ref!', getSnapshot: 'Ref!' }, returns: 'Val', curried: ctx, noFrame: true, allocates: true,
        memo: { 'an object of the component': 'made.getSnapshot === getSnapshot && is(made.snapshot, $snapOf[getSnapshot]) && isPtr(asRef(deps)) && typed(asRef(deps), "array:Val").length === 0' },
        callbacks: {
          getSnapshot: snapshotCall,
          subscribe: {
            params: ['f'], paramTypes: { f: 'Ref!' }, returns: 'Val', defers: 'change', modifies: ['$subs', '$unsub'],
            requires: { 'the store given': 'callee === subscribe' },
            ensures: { a: '$subs === old($subs) + 1 && is(result, $unsub)' },
          },
        },
        deferred: {
          'effect 1': {
            always: true, havoc: later, entry: { forced: '0' },
            ensures: {
              'when the store or its snapshot has changed': 'both(deps, getSnapshot, outer)',
              'later checks look at what is displayed': `${M}.getSnapshot === getSnapshot && is(${M}.snapshot, asVal(outer))`,
              'an update is forced if the snapshot has changed': `$forced === ${changed('$snapOf[getSnapshot]', 'asVal(outer)')}`,
              'no cleanup': 'result === undefined',
            },
          },
          'effect 2': {
            always: true, havoc: later, entry: { forced: '0', subs: '0' }, requires: callable,
            ensures: {
              'when the store has changed': 'only(deps, subscribe)',
              'one subscription, ended by the cleanup': '$subs === 1 && is(asVal(result), $unsub)',
              'an update is forced if the snapshot has changed': `$forced === ${changed(`$snapOf[${M}.getSnapshot]`, `${M}.snapshot`)}`,
            },
          },
          change: {
            havoc: later, entry: { forced: '0' }, requires: callable,
            ensures: { 'an update is forced if the snapshot has changed': `$forced === ${changed(`$snapOf[${M}.getSnapshot]`, `${M}.snapshot`)}` },
          },
        },
        ensures: { 'the snapshot is displayed': 'is(asVal(result), $snapOf[getSnapshot])' },
      },
      Transition: {
        returns: 'Val', curried: ctx, noFrame: true, allocates: true,
        ensures: { 'the state': "isPtr(typed(asRef(result), 'array:Val')) && is(typed(asRef(result), 'array:Val')[0], $state)" },
      },
      'Transition call': {
        of: 'Transition', returns: 'Val', noFrame: true, allocates: true, throws: true,
        curried: [ctx, { select: "asRef(typed(asRef(result), 'array:Val')[1])", params: { action: 'Ref!' }, entry: { acted: '0', waits: '0', sets: '0' } }],
        callbacks: {
          setIsPending: {
            params: ['x', 'options'], paramTypes: { x: 'Val', options: 'SetOptions' }, returns: 'Val', modifies: ['$flag', '$sets'],
            requires: { 'the setter of the state': 'callee === $setter', 'the flag falls with the transition': 'implies(x === false, isPtr(options) && is(options.transition, asVal($transition)))' },
            ensures: { a: '$sets === old($sets) + 1 && is($flag, x)' },
          },
          action: {
            params: ['t'], paramTypes: { t: 'Int' }, returns: 'Val', throws: true, modifies: ['$acted', '$outcome'],
            requires: { 'the action given, once, with the transition': 'callee === action && $acted === 0 && t === $transition', 'the transition is pending': 'is($flag, true)' },
            ensures: { a: '$acted === 1 && result === $outcome' },
            throwsEnsures: { a: '$acted === 1 && result === $outcome' },
          },
        },
        deferred: { settled: { entry: { sets: '0' }, ensures: { 'the transition ends': 'is($flag, false) && $sets === 1' } } },
        ensures: {
          'the result of the action': '$acted === 1 && is(result, $outcome)',
          'it remains pending until a promise is settled': 'implies(result instanceof Promise, $waits === 1 && is($flag, true))',
          'it ends at once otherwise': 'implies(!(result instanceof Promise), is($flag, false))',
        },
        throwsEnsures: { 'the error of the action': '$acted === 1 && is(result, $outcome)', 'it ends': 'is($flag, false)' },
      },
      '*.then': {
        assumed: 'calls one of the functions once the promise is settled', params: ['f', 'g'], paramTypes: { f: '?Ref', g: '?Ref' }, returns: 'Ref!', modifies: ['$waits'],
        defers: 'settled', defersParam: [0, 1], requires: { 'whether it is fulfilled or rejected': 'isPtr(f) && isFn(f) && isPtr(g) && isFn(g)', 'of the action': 'asVal(this) === $outcome' },
        caller: true, ensures: { a: '$waits === old($waits) + 1' },
      },
    },
  }, {
    opts,
    contracts: {
      ...context,
      'get Signal.value': { assumed: 'the current value', get: '$cur', type: 'Val' },
      'get Signal.version': { assumed: 'the current version', get: '$curVersion', type: 'Int' },
      'Signal.subscribe': {
        assumed: 'calls the function after each change (C16)', params: ['f'], paramTypes: { f: 'Ref!' }, returns: 'Val', defers: 'change', modifies: ['$subs', '$unsub'],
        ensures: { a: '$subs === old($subs) + 1 && is(result, $unsub)' },
      },
      'ext queueMicrotask': {
        assumed: 'calls the function exactly once, later', params: ['f'], paramTypes: { f: 'Ref!' }, returns: 'Val', defers: 'microtask', modifies: ['$pending'],
        ensures: { a: '$pending === old($pending) + 1' },
      },
      'Signal.onUse': {
        paramTypes: { context: 'RenderContext' }, returns: 'Val', noFrame: true, allocates: true, requires: { context: 'isPtr(context)' },
        memo: { 'an object of the component and the signal': 'is(made.value, $cur) && made.version === $curVersion && only(typed(asRef(deps), "array:Val"), $this)' },
        entry: { curVersion: 'shown', },
        logical: { shown: 'Int' },
        deferred: {
          'effect 1': {
            always: true, havoc: ['*.value', '*.version', '$cur', '$curVersion'], entry: { forced: '0' },
            requires: { 'versions grow': '$curVersion >= shown' },
            ensures: {
              'when the signal or its version has changed': 'both(deps, $this, shown)',
              'later checks look at what is displayed': `is(${M}.value, asVal(outer)) && ${M}.version === shown`,
              'an update is forced if the value has changed': `$forced === (shown < $curVersion && !is($cur, asVal(outer)) ? 1 : 0)`,
              'no cleanup': 'result === undefined',
            },
          },
          'effect 2': {
            always: true, havoc: ['*.value', '*.version', '$cur', '$curVersion'], entry: { pending: '0', subs: '0' },
            ensures: {
              'when the signal has changed': 'only(deps, $this)',
              'one subscription, ended by the cleanup': '$subs === 1 && is(asVal(result), $unsub)',
              'a check is pending': '$pending === 1',
            },
          },
          change: {
            havoc: ['*.value', '*.version', '$cur', '$curVersion', '$pending'], locals: { batched: 'Bool' },
            initially: { 'a check is pending iff it is noted': '$pending === (batched ? 1 : 0)' },
            requires: { 'a check is pending iff it is noted': '$pending === (batched ? 1 : 0)' },
            ensures: { 'a check is pending': '$pending === 1 && batched' },
          },
          microtask: {
            havoc: ['*.value', '*.version', '$cur', '$curVersion'], locals: { batched: 'Bool' }, entry: { pending: '0', forced: '0' },
            requires: { 'noted': 'batched' },
            ensures: {
              'an update is forced if the value has changed': `$forced === (${M}.version < $curVersion && !is($cur, ${M}.value) ? 1 : 0)`,
              'a check is pending iff it is noted': '$pending === (batched ? 1 : 0)',
            },
          },
        },
        ensures: { 'the value is displayed': 'is(asVal(result), $cur)' },
      },
    },
  }, {
    opts,
    contracts: {
      ...context,
      LocalAtom: {
        paramTypes: { initialValue: 'Val' }, returns: 'Val', curried: ctx, noFrame: true, allocates: true,
        memo: { 'an atom of the component, with the initial value': 'isClass(made, "Atom") && is(made._value, initialValue) && typed(asRef(deps), "array:Val").length === 0' },
        ensures: { 'the signal': 'asRef(result) === $store' },
      },
      LocalComputed: {
        paramTypes: { computation: 'Ref!', dependencies: 'array:Signal' }, returns: 'Val', curried: ctx, noFrame: true, allocates: true,
        memo: { 'a computed signal of the computation and the dependencies, as long as they stay': 'isClass(made, "Computed") && asRef(deps) === asRef(dependencies)' },
        ensures: { 'the signal': 'asRef(result) === $store' },
      },
    },
  }],
  closed: [],
};
