// Bounded stand-in for C28: the host adapter with simulated browser facilities.
const CONTINUOUS = ['drag', 'dragenter', 'dragleave', 'dragover', 'mouseenter', 'mouseleave', 'mousemove', 'mouseout', 'mouseover', 'pointerenter', 'pointerleave', 'pointermove', 'pointerout', 'pointerover', 'scroll', 'touchmove', 'wheel'];
const OTHERS = ['click', 'mousedown', 'mouseup', 'keydown', 'input', 'change', 'dragstart', 'dragend', 'drop', 'focus', 'blur', 'touchstart', 'touchend', 'pointerdown', 'pointerup', 'pointercancel', 'submit', 'load', 'scrollend', '', 'custom', 'mouse', 'DRAG', 'Scroll', 'dblclick', 'select'];
export default async function (h) {
  await h.cases('priorities', 2 * (CONTINUOUS.length + OTHERS.length) * 3 + 24, (c, i) => {
    const all = [...CONTINUOUS, ...OTHERS];
    const k = i >> 1;
    const state = ['loading', 'interactive', 'complete'][k % 3];
    const j = Math.floor(k / 3);
    const type = j < all.length ? all[j] : undefined;
    const window = { event: type === undefined ? undefined : { type } };
    const doc = { defaultView: c.bool(9) && type === undefined ? null : window, readyState: state };
    const ad = new c.B.DOMAdapter(doc);
    const want = type !== undefined ? (CONTINUOUS.includes(type) ? 'user-visible' : 'user-blocking') : state !== 'complete' ? 'user-blocking' : 'background';
    c.log(type, state);
    c.eq(ad.getTaskPriority(), want, 'the priority');
  }, { fixed: true, bound: `${CONTINUOUS.length + OTHERS.length} event types and no event, in 3 document states` });

  // The priorities reach the lanes of updates requested without one.
  await h.cases('updates', 90, async (c) => {
    const type = c.pick([...CONTINUOUS, ...OTHERS, undefined]);
    const state = c.pick(['loading', 'interactive', 'complete']);
    const doc = { defaultView: { event: type === undefined ? undefined : { type } }, readyState: state };
    const ad = new c.B.DOMAdapter(doc);
    const asked = [];
    ad.requestCallback = (f, o) => { asked.push(o); return Promise.resolve().then(f); };
    const rt = new c.B.Runtime(ad);
    const want = type !== undefined ? (CONTINUOUS.includes(type) ? 'user-visible' : 'user-blocking') : state !== 'complete' ? 'user-blocking' : 'background';
    const given = c.pick([undefined, 'user-blocking', 'user-visible', 'background']);
    c.log(type, state, given);
    const handle = rt.schedule({ scope: { level: 0, owner: null, instances: [], parent: null }, pendingLanes: 0, prepare: () => () => {} }, given ? { priority: given } : {});
    const got = c.B.lane.getPriorityFromLanes(handle.lanes);
    c.eq(got, given ?? want, 'the priority of the update');
    c.eq(asked[0].priority, given ?? want, 'the priority asked for');
    await handle.finished;
  }, { bound: '43 event types' });

  // Timers under control; the facilities of the browser present or absent.
  const G = ['setTimeout', 'clearTimeout', 'requestAnimationFrame', 'cancelAnimationFrame', 'requestIdleCallback', 'MessageChannel', 'scheduler'];
  const saved = {};
  async function simulated(c, config, fn) {
    for (const k of G) saved[k] = Object.getOwnPropertyDescriptor(globalThis, k);
    const savedW = Object.getOwnPropertyDescriptor(window, 'scheduler');
    const tasks = []; // {kind, run, time, cancelled}
    let serial = 1;
    const add = (kind, run, extra = {}) => { const t = { id: serial++, kind, run, ...extra }; tasks.push(t); return t.id; };
    const cancel = (kind) => (id) => { const i = tasks.findIndex((t) => t.id === id && t.kind === kind); if (i >= 0) tasks.splice(i, 1); };
    const set = (k, v) => { if (v === undefined) delete globalThis[k]; else Object.defineProperty(globalThis, k, { value: v, configurable: true, writable: true }); };
    const realTimeout = setTimeout;
    const channels = [];
    set('setTimeout', (f, ms = 0) => add('timer', f, { ms }));
    set('clearTimeout', cancel('timer'));
    set('requestAnimationFrame', (f) => add('frame', f));
    set('cancelAnimationFrame', cancel('frame'));
    set('requestIdleCallback', config.idle ? (f) => add('idle', () => f({ timeRemaining: () => 5, didTimeout: false })) : undefined);
    set('MessageChannel', class { constructor() { const ch = this; this.port1 = { onmessage: null, close() {}, start() {} }; this.port2 = { postMessage: (data) => add('message', () => ch.port1.onmessage?.({ data })), close() {} }; channels.push(this); } });
    if (config.scheduler) {
      const s = { postTask: (f, o) => new Promise((a, b) => { add('task', () => { try { a(f()); } catch (e) { b(e); } }, { o }); }) };
      set('scheduler', s);
      Object.defineProperty(window, 'scheduler', { value: s, configurable: true, writable: true });
    } else {
      set('scheduler', undefined);
      if (config.partial) Object.defineProperty(window, 'scheduler', { value: {}, configurable: true, writable: true }); else delete window.scheduler;
    }
    try {
      await fn(tasks);
    } finally {
      for (const k of G) if (saved[k]) Object.defineProperty(globalThis, k, saved[k]); else delete globalThis[k];
      if (savedW) Object.defineProperty(window, 'scheduler', savedW); else delete window.scheduler;
    }
    void realTimeout;
  }
  await h.cases('callbacks', 500, async (c) => {
    const config = { scheduler: c.bool(3), idle: c.bool(), partial: c.bool(4) };
    const frames = c.bool(); // whether animation frames ever fire
    c.log(config, frames ? '' : 'without frames');
    await simulated(c, config, async (tasks) => {
      const ad = new c.B.DOMAdapter(document);
      const jobs = [];
      for (let i = 1 + c.int(6); i > 0; i--) {
        const j = { ran: 0, outcome: null, kind: c.int(3), commit: c.bool() };
        const err = new Error('x');
        let inCall = true;
        const f = () => {
          if (inCall) c.fail('a callback runs synchronously');
          j.ran++;
          if (j.kind === 1) throw err;
          if (j.kind === 2 && !j.commit) return new Promise((a, b) => { j.finish = () => (c.bool() ? (a(), (j.want = 'resolved')) : (b(err), (j.want = 'rejected'))); });
        };
        j.want = j.kind === 1 ? 'rejected' : j.kind === 2 && !j.commit ? null : 'resolved';
        const options = c.pick([undefined, {}, { priority: 'user-blocking' }, { priority: 'user-visible' }, { priority: 'background' }, { priority: 'background', delay: 5 }]);
        c.log(j.commit ? 'commit' : 'callback', options, j.kind);
        const p = j.commit ? ad.requestCommit(f) : ad.requestCallback(f, options);
        inCall = false;
        c.ok(typeof p?.then === 'function', 'no promise is returned');
        p.then(() => { j.outcome = 'resolved'; }, (e) => { j.outcome = e === err ? 'rejected' : `rejected with ${e}`; });
        jobs.push(j);
        if (c.bool()) await h.tick();
        if (c.bool()) step();
      }
      await h.tick();
      for (const j of jobs) c.ok(j.ran <= 1, 'a callback runs more than once');
      for (let n = 0; n < 100; n++) {
        await h.tick();
        if (!step()) break;
        // Late and repeated firing of what should have been cancelled.
      }
      await h.settle(2);
      for (const j of jobs) {
        c.ok(j.ran === 1, `a ${j.commit ? 'commit' : 'callback'} runs ${j.ran} times`);
        if (j.finish) { c.ok(j.outcome === null, 'a promise settles before the callback has finished'); j.finish(); }
      }
      await h.settle(2);
      for (const j of jobs) c.ok(j.outcome === j.want, `the promise is ${j.outcome} instead of ${j.want}`);
      function step() {
        const ready = tasks.filter((t) => (t.kind === 'frame' ? frames : true));
        if (ready.length === 0) return false;
        const t = c.pick(ready);
        tasks.splice(tasks.indexOf(t), 1);
        t.run(0);
        return true;
      }
    });
  }, { bound: 'up to 6 callbacks and commits, facilities present or absent' });
  await h.cases('real timers', 12, async (c) => {
    const ad = new c.B.DOMAdapter(document);
    let n = 0;
    const ps = [];
    for (const priority of ['user-blocking', 'user-visible', 'background', undefined]) ps.push(ad.requestCallback(() => { n++; }, priority && { priority }));
    ps.push(ad.requestCommit(() => { n++; }));
    c.ok(n === 0, 'a callback runs synchronously');
    await Promise.all(ps);
    c.ok(n === 5, `${n} of 5 callbacks ran`);
  }, { bound: '5 callbacks', thorough: 12 });
}
