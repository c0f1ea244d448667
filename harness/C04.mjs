// Bounded stand-in for C04: order, batching and commit mode of updates.
import { HostAdapter } from './host.mjs';
export default async function (h) {
  await h.cases('histories', 700, async (c) => {
    const { Runtime } = c.B;
    const { Scope } = c.B.base;
    const L = c.B.lane;
    const ad = new HostAdapter(c, { priority: () => c.pick(['background', 'user-visible', 'user-blocking']) });
    const rt = new Runtime(ad);
    const root = Scope.root({});
    const mkScopes = (s, d) => [s, ...(d > 0 ? Array.from({ length: 2 }, () => mkScopes(s.enter({}), d - 1)).flat() : [])];
    const scopes = mkScopes(root, 2);
    const isAncestor = (a, b) => { for (let s = b.parent; s !== null; s = s.parent) if (s === a) return true; return false; };
    const updates = [];
    let batch = null; // {updates, start}
    let syncTick = 0;
    const gates = [];
    const origCommit = ad.requestCommit.bind(ad);
    ad.requestCommit = (cb) => {
      c.ok(batch !== null && !batch.via, 'a commit was requested for no batch');
      batch.via = 'frame';
      return origCommit(cb);
    };
    let cbOwner = null;
    const origCallback = ad.requestCallback.bind(ad);
    ad.requestCallback = (cb, o) => {
      const u = cbOwner;
      return origCallback(() => {
        if (u) u.ready = true;
        return cb();
      }, o);
    };
    const begin = (u) => {
      if (batch === null) {
        // The ready updates of now compete.
        const ready = updates.filter((v) => v.ready && !v.prepared);
        batch = { updates: [], best: Math.min(Infinity, ...ready.map((v) => v.lane)), tick: syncTick };
      }
      c.ok(!batch.via && !batch.committing, `update ${u.n} is rendered while the batch of ${batch.updates.map((v) => v.n)} waits for or is in its commit`);
    };
    const finishCheck = () => {
      const us = batch.updates;
      const top = Math.min(...us.map((v) => v.lane));
      c.ok(top <= batch.best, `the batch of ${us.map((v) => v.n)} has no update of the highest ready priority (${batch.best}, it has ${top})`);
      const sync = us.some((v) => v.lanes & 1);
      const hand = us.filter((v) => v.opts.handler);
      const mode = sync ? 'sync' : hand.length ? 'handler' : 'frame';
      c.eq(batch.via ?? 'sync', mode, `commit of the batch of ${us.map((v) => `${v.n}:${v.lanes}`)}`);
      if (mode === 'sync') c.ok(batch.tick === syncTick, 'a batch with a sync update is not committed synchronously');
      if (mode === 'handler') c.ok(hand.includes(batch.handlerOf), 'the commit uses the handler of another update');
    };
    const request = () => {
      const u = { n: updates.length, prepared: false, ready: false };
      const handler = (commit) => {
        c.ok(batch !== null && !batch.via, `the handler of ${u.n} is called for no batch`);
        batch.via = 'handler';
        batch.handlerOf = u;
        const k = c.int(3);
        if (k === 0) return void commit();
        if (k === 1) return new Promise((r) => gates.push(() => { commit(); r(); }));
        return Promise.resolve().then(commit);
      };
      const opts = c.pick([() => ({}), () => ({ flushSync: true }), () => ({ priority: 'user-blocking' }), () => ({ priority: 'user-visible' }), () => ({ priority: 'background' }), () => ({ transition: c.int(4) }), () => ({ priority: 'background', transition: c.int(2) }), () => ({ delay: c.pick([5, 500]) }), () => ({ handler }), () => ({ handler, priority: 'background' }), () => ({ handler, flushSync: true })])();
      u.opts = opts;
      u.scope = c.pick(scopes);
      updates.push(u);
      const transaction = {
        scope: u.scope,
        pendingLanes: -1,
        prepare: () => {
          c.log('render', u.n);
          begin(u);
          for (const v of updates) if (v.n < u.n && v.lanes === u.lanes && v.scope.level === u.scope.level) c.ok(v.prepared, `update ${u.n} is rendered before the earlier update ${v.n} of the same lanes and depth`);
          for (const v of batch.updates) c.ok(!isAncestor(u.scope, v.scope), `update ${u.n} of a component is rendered after update ${v.n} of its descendant`);
          u.prepared = true;
          batch.updates.push(u);
          if (c.bool(12)) request();
          return () => {
            c.log('commit', u.n);
            c.ok(batch !== null && batch.updates.includes(u), `update ${u.n} is committed outside its batch`);
            if (!batch.committing) {
              batch.committing = 0;
              finishCheck();
            }
            batch.committing++;
            if (batch.committing === batch.updates.length) batch = null;
          };
        },
      };
      cbOwner = u;
      const handle = rt.schedule(transaction, opts);
      cbOwner = null;
      u.lanes = handle.lanes;
      u.lane = L.getHighestPriorityLane(handle.lanes);
      if (opts.flushSync) queueMicrotask(() => { /* after the microtask of the update */ if (!u.prepared) u.ready = true; });
      c.log('request', u.n, handle.lanes, 'level', u.scope.level);
      handle.finished.then(() => c.ok(u.prepared, `update ${u.n} settled without being rendered`)).catch((e) => c.async.push(e));
    };
    const tick = async () => { syncTick++; await h.tick(); syncTick++; };
    const steps = 10 + c.int(50);
    let budget = 22;
    for (let i = 0; i < steps; i++) {
      const k = c.int(10);
      syncTick++;
      if (k < 5) { if (budget-- > 0) request(); }
      else if (k < 7) { if (ad.run('callback')) c.log('callback'); }
      else if (k < 8) { if (ad.run('commit')) c.log('frame'); }
      else if (gates.length && k < 9) { c.log('gate'); gates.shift()(); }
      else await tick();
      if (c.async.length) throw c.async[0];
    }
    for (let i = 0; i < 200; i++) {
      await tick();
      if (gates.length) gates.shift()();
      else if (!ad.run()) { await tick(); if (!gates.length && !ad.q.length && !ad.commits.length) break; }
      if (c.async.length) throw c.async[0];
    }
    await tick();
  }, { bound: 'up to 30 updates, 60 host steps' });

  // Real components: a child and its ancestors updated in one batch.
  await h.cases('components', 150, async (c) => {
    const { Runtime, DOMRoot, createComponent, html } = c.B;
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    const setters = [];
    const order = [];
    const depth = 3 + c.int(3);
    const N = createComponent(function Node_({ d }) {
      const [s, set] = this.useState(0);
      setters[d] = set;
      order.push(d);
      return d < depth ? html`<i>${s}<${N({ d: d + 1 })}></i>` : html`<b>${s}</b>`;
    }, { arePropsEqual: (a, b) => a.d === b.d });
    const root = new DOMRoot(document.createElement('div'), rt);
    await root.render(N({ d: 0 }), { flushSync: true }).finished;
    for (let r = 0; r < 4; r++) {
      order.length = 0;
      const which = c.shuffle([...Array(depth + 1).keys()]).slice(0, 1 + c.int(depth + 1));
      c.log('update', which);
      for (const d of which) set(d);
      await ad.drain();
      for (let i = 1; i < order.length; i++) c.ok(order[i - 1] < order[i], `components of depths ${order} were rendered in this order in one batch`);
      c.eq([...order].sort(), [...which].sort(), 'rendered components');
    }
    function set(d) { setters[d]((x) => x + 1, { priority: 'user-blocking' }).finished.catch((e) => c.async.push(e)); }
  });
}
