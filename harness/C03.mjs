// Bounded stand-in for C03: histories of update requests with arbitrary hosts.
import { HostAdapter } from './host.mjs';
export default async function (h) {
  const OPTS = (c, handlers) => c.pick([
    () => ({}), () => ({ flushSync: true }), () => ({ priority: 'user-blocking' }), () => ({ priority: 'user-visible' }), () => ({ priority: 'background' }),
    () => ({ transition: c.int(3) }), () => ({ transition: c.int(30), priority: 'background' }), () => ({ delay: c.pick([1, 500]) }), () => ({ priority: 'user-blocking', transition: c.int(2) }),
    () => ({ handler: handlers() }), () => ({ handler: handlers(), priority: 'background' }), () => ({ flushSync: true, handler: handlers() }),
  ])();
  const scenario = (failing) => async (c) => {
    const { Runtime } = c.B;
    const { Scope } = c.B.base;
    const ad = new HostAdapter(c, { priority: () => c.pick(['background', 'user-visible', 'user-blocking']) });
    const rt = new Runtime(ad);
    if (c.bool(3)) rt.use({ handle: (u, next) => next(u) });
    const rootScope = Scope.root({});
    const scopes = [rootScope, rootScope.enter({}), rootScope.enter({}).enter({})];
    const updates = [];
    const gates = [];
    const handlers = () => c.pick([
      (commit) => { commit(); },
      async (commit) => { await null; commit(); },
      (commit) => new Promise((r, j) => { gates.push(() => { try { commit(); r(); } catch (e) { j(e); } }); }),
      (commit) => { commit(); return new Promise((r) => gates.push(r)); },
    ]);
    let budget = 25;
    // observed batches: updates rendered and not yet committed or rejected
    let open = [];
    const request = (why) => {
      if (budget-- <= 0) return;
      const u = { n: updates.length, prepared: 0, committed: 0, settled: 0, error: undefined, mode: failing ? c.pick(['ok', 'ok', 'ok', 'throw', 'skip', 'nest', 'throwCommit']) : c.pick(['ok', 'ok', 'ok', 'skip', 'nest', 'nestCommit']) };
      updates.push(u);
      const opts = OPTS(c, handlers);
      c.log('request', u.n, u.mode, Object.fromEntries(Object.entries(opts).map(([k, v]) => [k, typeof v === 'function' ? 'f' : v])), why);
      const transaction = {
        scope: c.pick(scopes),
        get pendingLanes() { return u.mode === 'skip' ? 0 : -1; },
        prepare: () => {
          c.log('render', u.n);
          u.prepared++;
          c.ok(u.prepared === 1, `update ${u.n} was rendered ${u.prepared} times`);
          c.ok(u.settled === 0, `update ${u.n} was rendered after it had settled`);
          if (u.mode === 'nest') request(`from render ${u.n}`);
          if (u.mode === 'throw') {
            const e = (u.thrown = new Error(`render ${u.n}`));
            e.batch = [...open, u];
            open = [];
            throw e;
          }
          open.push(u);
          return () => {
            c.log('commit', u.n);
            u.committed++;
            c.ok(u.committed === 1, `update ${u.n} was committed ${u.committed} times`);
            c.ok(u.settled === 0, `update ${u.n} was committed after it had settled`);
            open = open.filter((x) => x !== u);
            if (u.mode === 'nestCommit') request(`from commit ${u.n}`);
            if (u.mode === 'throwCommit') { u.commitError = new Error(`commit ${u.n}`); open = []; throw u.commitError; }
          };
        },
      };
      u.lanesReq = opts;
      const handle = rt.schedule(transaction, opts);
      u.id = handle.id;
      handle.finished.then(
        () => {
          u.settled++;
          c.log('resolved', u.n);
          c.ok(u.settled === 1, 'settled twice');
          if (u.prepared && !u.committed) c.fail(`update ${u.n} settled although it has been rendered and not committed`);
          if (!u.prepared && u.mode !== 'skip') c.fail(`update ${u.n} settled without being rendered`);
        },
        (e) => {
          u.settled++;
          u.error = e;
          c.log('rejected', u.n, e.message);
        },
      ).catch((e) => c.async.push(e));
    };
    const steps = 5 + c.int(50);
    for (let i = 0; i < steps; i++) {
      const k = c.int(10);
      if (k < 4) request('from outside');
      else if (k < 6) { if (ad.run('callback')) c.log('callback'); }
      else if (k < 7) { if (ad.run('commit')) c.log('commit frame'); }
      else if (k < 8) { if (gates.length) { c.log('gate'); gates.splice(c.int(gates.length), 1)[0](); } }
      else await h.tick();
      if (c.async.length) throw c.async[0];
    }
    for (let i = 0; i < 200; i++) {
      await h.settle(2);
      if (gates.length) gates.shift()();
      else if (!ad.run()) { await h.settle(2); if (!gates.length && !ad.q.length && !ad.commits.length) break; }
    }
    await h.settle(2);
    if (c.async.length) throw c.async[0];
    for (const u of updates) {
      c.ok(u.settled === 1, `update ${u.n} has not been settled after the host has run everything`);
      if (u.error === undefined) {
        if (u.mode !== 'skip') c.ok(u.prepared === 1 && u.committed === 1, `update ${u.n} resolved, rendered ${u.prepared}x, committed ${u.committed}x`);
        else c.ok(u.prepared === 0, `update ${u.n} without pending lanes was rendered`);
      } else {
        const cause = updates.find((v) => v.thrown === u.error || v.commitError === u.error);
        c.ok(cause, `update ${u.n} was rejected with ${h.show(u.error)}`);
        if (cause.thrown === u.error) c.ok(u.committed === 0, `update ${u.n} of a failed batch was committed`);
      }
      if (u.thrown) {
        c.ok(u.error === u.thrown, `update ${u.n}, whose rendering threw, ${u.error ? `was rejected with ${h.show(u.error)}` : 'was resolved'}`);
        for (const v of u.thrown.batch) {
          c.ok(v.committed === 0, `update ${v.n} of the failed batch of ${u.n} was committed`);
          c.ok(v.error === u.thrown, `update ${v.n} of the failed batch of ${u.n} was not rejected with its error`);
        }
      }
      if (u.error !== undefined && !u.prepared) {
        const cause = updates.find((v) => v.thrown === u.error || v.commitError === u.error);
        // A batch holds updates requested before it was rendered.
        c.ok(u.n < updates.length && cause, 'rejected without a failed batch');
      }
    }
  };
  await h.cases('histories', 400, scenario(false), { bound: 'up to 25 updates, 55 host steps' });
  await h.cases('failures', 400, scenario(true), { bound: 'up to 25 updates, 55 host steps' });

  // An update in another lane that is requested around a failing batch is processed.
  await h.cases('outside the failed batch', 200, async (c) => {
    const { Runtime } = c.B;
    const scope = c.B.base.Scope.root({});
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    const done = [];
    const mk = (name, fail) => ({ scope, pendingLanes: -1, prepare: () => { if (fail) throw new Error(name); return () => { done.push(name); }; } });
    const P = ['user-blocking', 'user-visible', 'background'];
    const a = c.int(3);
    let b = c.int(3);
    if (b === a) b = (b + 1) % 3;
    c.log(P[a], P[b]);
    const f1 = rt.schedule(mk('bad', true), { priority: P[a] });
    const f2 = rt.schedule(mk('good', false), { priority: P[b] });
    const res = [];
    f1.finished.then(() => res.push('ok1'), (e) => res.push('err1 ' + e.message));
    f2.finished.then(() => res.push('ok2'), (e) => res.push('err2 ' + e.message));
    if (a < b) {
      // The failing batch is flushed on its own: the other one is not ready.
      ad.q.shift()();
      await h.settle();
      c.eq(res, ['err1 bad'], 'outcome after the first callback');
      const late = rt.schedule(mk('late', false), { priority: P[a] });
      await ad.drain();
      await late.finished;
      c.ok(done.includes('late') && done.includes('good'), `processed after the failure: ${done}`);
    } else {
      ad.q.pop()();
      await h.settle();
      ad.run('commit');
      await h.settle();
      c.eq(res, ['ok2'], 'outcome after the first callback');
      await ad.drain();
    }
    c.eq(res.toSorted(), ['err1 bad', 'ok2'], 'outcomes');
  });
}
