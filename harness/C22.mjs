// Bounded stand-in for C22: navigation adapters against simulated navigations.
export default async function (h) {
  class FakeNavigation {
    listeners = [];
    calls = [];
    currentEntry = null;
    addEventListener(t, f) { if (!this.listeners.some(([a, b]) => a === t && b === f)) this.listeners.push([t, f]); }
    removeEventListener(t, f) { const i = this.listeners.findIndex(([a, b]) => a === t && b === f); if (i >= 0) this.listeners.splice(i, 1); }
    dispatch(e) { for (const [t, f] of [...this.listeners]) if (t === 'navigate') f(e); }
    navigate(url, options) {
      const call = { url, options };
      const committed = Promise.resolve();
      call.finished = new Promise((a, b) => { call.resolve = a; call.reject = b; });
      this.calls.push(call);
      return { committed, finished: call.finished };
    }
  }
  const url = (c) => ({ pathname: c.pick(['/', '/a', '/a/b', '/%20']), search: c.pick(['', '?q=1', '?']), hash: c.pick(['', '#', '#x', '##y', '#/a/b', '#%23']) });
  for (const kind of ['BrowserAdapter', 'HashAdapter']) {
    await h.cases(kind, 400, async (c) => {
      const A = c.B.router[kind];
      const navigation = new FakeNavigation();
      const location = url(c);
      const ad = new A({ location, navigation });
      const strip = (s) => (s.startsWith('#') ? s.slice(1) : s);
      const rel = (u) => (kind === 'HashAdapter' ? strip(u.hash) : u.pathname + u.search + u.hash);
      c.ok(ad.getCurrentURL() === rel(location), `the current URL ${ad.getCurrentURL()}`);
      c.ok(ad.getCurrentState() === undefined, 'the state without an entry');
      const state = {};
      navigation.currentEntry = { getState: () => state };
      c.ok(ad.getCurrentState() === state, 'the current state');
      const subs = [];
      for (let i = 4 + c.int(16); i > 0; i--) {
        const op = c.int(6);
        if (op === 0) {
          const s = { live: true, calls: [] };
          s.off = ad.listen((scene, interceptor) => { if (!s.live) c.fail('a removed listener is called'); s.calls.push([scene, interceptor]); });
          subs.push(s);
          c.log('listen');
        } else if (op === 1 && subs.length) {
          const s = c.pick(subs);
          s.off();
          s.live = false;
          c.log('remove');
        } else if (op === 2) {
          const to = c.pick(['/x', '', 'y']);
          const options = c.pick([undefined, { history: 'push' }, { state: 1, history: 'replace' }]);
          const p = ad.navigate(to, options);
          const call = navigation.calls.at(-1);
          c.log('navigate', to, options);
          c.ok(call.url === (kind === 'HashAdapter' ? `#${to}` : to) && call.options === options, `the navigation started is ${call.url}`);
          let done = null;
          p.then(() => { done = 'resolved'; }, () => { done = 'rejected'; });
          await h.settle(1);
          c.ok(done === null, 'a navigation finishes too early');
          const fails = c.bool();
          if (fails) call.reject(new Error('x')); else call.resolve();
          await h.settle(1);
          c.ok(done === (fails ? 'rejected' : 'resolved'), 'the outcome of a navigation');
        } else {
          const u = new URL('http://h.test/');
          const d = url(c);
          u.pathname = d.pathname; u.search = d.search; u.hash = d.hash;
          if (d.search === '?') u.href = `http://h.test${d.pathname}?${d.hash}`;
          const st = { st: 1 };
          const e = {
            canIntercept: c.int(5) > 0, downloadRequest: c.bool(4) ? c.pick(['', 'f.txt']) : null, hashChange: c.bool(), navigationType: c.pick(['push', 'replace', 'reload', 'traverse']),
            destination: { sameDocument: c.int(5) > 0, url: u.href, getState: () => st },
            intercept() {}, scroll() {},
          };
          if (kind === 'HashAdapter') e.downloadRequest = null; // a download is no hash change
          for (const s of subs) s.calls.length = 0;
          c.log(e.destination.url, e.canIntercept, e.destination.sameDocument, e.downloadRequest, e.hashChange);
          navigation.dispatch(e);
          const reported = e.canIntercept && e.destination.sameDocument && (kind === 'HashAdapter' ? e.hashChange : e.downloadRequest === null && !e.hashChange);
          const parsed = new URL(u.href);
          for (const s of subs) {
            c.ok(s.calls.length === (reported && s.live ? 1 : 0), `a listener is called ${s.calls.length} times`);
            for (const [scene, interceptor] of s.calls) {
              c.ok(scene.url === rel(parsed), `the URL reported is ${scene.url} instead of ${rel(parsed)}`);
              c.ok(scene.state === st && scene.navigationType === e.navigationType && interceptor === e, 'the scene reported');
            }
          }
        }
      }
    }, { bound: 'up to 19 navigations and listeners' });
  }

  let waiting = [];
  await h.cases('InMemoryAdapter', 500, async (c) => {
    const { InMemoryAdapter } = c.B.router;
    let u = c.pick(['/', '/a']), state = c.pick([undefined, { s: 0 }]);
    const ad = new InMemoryAdapter(u, state);
    const subs = [];
    const open = []; // unfinished navigations
    const check = () => {
      c.ok(ad.getCurrentURL() === u, `the URL is ${ad.getCurrentURL()} instead of ${u}`);
      c.ok(ad.getCurrentState() === state, 'the state');
    };
    for (let i = 4 + c.int(14); i > 0; i--) {
      const op = c.int(8);
      if (op < 2) {
        const s = { live: true, calls: [], mode: c.int(5), victims: [] };
        s.off = ad.listen((scene, x) => {
          if (!s.live) c.fail('a removed listener is called');
          s.calls.push(scene);
          x.scroll?.();
          // A listener may remove any listener, itself included.
          for (const v of s.victims.splice(0)) {
            v.off();
            v.live = false;
            c.log('removed by a listener', subs.indexOf(v));
          }
          // Listeners may intercept with any number of handlers.
          for (let j = s.mode === 0 ? 0 : s.mode === 4 ? 2 : 1; j > 0; j--) {
            if (s.mode === 1) { x.intercept(); continue; }
            if (s.mode === 2) { x.intercept({ handler: () => { s.ran = (s.ran ?? 0) + 1; } }); continue; }
            x.intercept({ handler: () => { s.ran = (s.ran ?? 0) + 1; return new Promise((a, b) => waiting.push({ a, b })); } });
          }
        });
        subs.push(s);
        c.log('listen', s.mode);
      } else if (op === 2 && subs.length) {
        const s = c.pick(subs);
        s.off();
        if (c.bool()) s.off();
        s.live = false;
        c.log('remove', subs.indexOf(s));
      } else {
        const to = c.bool() ? u : c.pick(['/', '/a', '/b', '']);
        const st = c.pick([undefined, 1, {}]);
        const history = c.pick([undefined, 'auto', 'push', 'replace']);
        c.log('navigate', to, history);
        for (const s of subs) { s.calls.length = 0; s.ran = 0; s.victims.length = 0; s.was = s.live; }
        if (subs.length && c.int(4) === 0) c.pick(subs).victims.push(c.pick(subs));
        waiting = [];
        const plain = history === undefined && st === undefined && c.bool();
        const p = plain ? ad.navigate(to) : ad.navigate(to, { state: st, history });
        let done = null;
        p.then(() => { done = 'resolved'; }, () => { done = 'rejected'; });
        const type = history === 'push' || history === 'replace' ? history : to === u ? 'replace' : 'push';
        for (const s of subs) {
          // One removed by another listener is called only if it comes before.
          const removed = s.was && !s.live;
          c.ok(removed ? s.calls.length <= 1 : s.calls.length === (s.live ? 1 : 0), `a listener is called ${s.calls.length} times`);
          for (const x of s.calls) c.ok(x.url === to && x.state === st && x.navigationType === type, () => `the scene reported is ${h.show(x)}`);
          if (s.live && s.mode >= 2) c.ok(s.ran === (s.mode === 4 ? 2 : 1), `handlers ran ${s.ran} times`);
        }
        check();
        await h.settle(1);
        let failed = false;
        while (waiting.length > 0 && !failed) {
          c.ok(done === null, 'a navigation finishes before its handlers');
          check();
          const w = waiting.splice(c.int(waiting.length), 1)[0];
          if (c.bool(6)) { failed = true; w.b(new Error('x')); c.log('a handler fails'); } else w.a();
          await h.settle(1);
        }
        await h.settle(1);
        for (const w of waiting) w.a();
        await h.settle(1);
        c.ok(done === (failed ? 'rejected' : 'resolved'), `the navigation is ${done}`);
        if (!failed) { u = to; state = st; }
      }
      check();
    }
    void open;
  }, { bound: 'up to 17 navigations and listeners' });

  await h.cases('SyncNavigation', 150, async (c) => {
    const { InMemoryAdapter, SyncNavigation, NavigationContext } = c.B.router;
    const { Runtime, DOMRoot, DOMAdapter, createComponent, html } = c.B;
    const ad = new InMemoryAdapter('/0', null);
    const host = document.createElement('div');
    const root = new DOMRoot(host, new Runtime(new DOMAdapter()));
    const seen = [];
    const X = createComponent(function X() {
      const ctx = this.use(SyncNavigation(ad));
      c.ok(ctx.adapter === ad && this.inject(NavigationContext) === ctx, 'the navigation context');
      seen.push(ctx.scene);
      return html`<i>${ctx.scene.url}</i>`;
    });
    await root.render(X({}), { flushSync: true }).finished;
    c.ok(host.querySelector('i').textContent === '/0' && seen[0].navigationType === null, 'the first scene');
    for (let i = 1 + c.int(3); i > 0; i--) {
      const to = c.pick(['/1', '/2', '/3']);
      const state = { i };
      await ad.navigate(to, { state });
      c.ok(ad.getCurrentURL() === to && host.querySelector('i').textContent === to, `the page shows ${host.textContent} instead of ${to}`);
      c.ok(seen.at(-1).state === state, 'the state of the scene');
    }
    await root.unmount({ flushSync: true }).finished;
    const n = seen.length;
    await ad.navigate('/9');
    c.ok(ad.getCurrentURL() === '/9' && seen.length === n, 'a removed listener');
  }, { bound: 'up to 3 navigations', thorough: 150 });
}
