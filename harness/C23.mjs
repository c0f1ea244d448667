// Bounded stand-in for C23.
import { HostAdapter } from './host.mjs';
export default async function (h) {
  await h.cases('pipeline', 500, async (c) => {
    const { Runtime } = c.B;
    const scope = c.B.base.Scope.root({});
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    const active = []; // {mw, off}
    const mws = Array.from({ length: 4 }, (_, i) => ({ i }));
    let trace = [];
    for (const m of mws) {
      m.wrap = c.bool();
      m.handle = function (update, next) {
        c.ok(this === m, 'middleware called with another receiver');
        trace.push(['in', m.i, update.id]);
        const commit = next(update);
        trace.push(['out', m.i, update.id]);
        if (!m.wrap) return commit;
        return () => { trace.push(['c', m.i, update.id]); commit(); };
      };
    }
    const offs = [];
    for (let r = 0; r < 12; r++) {
      const k = c.int(5);
      if (k === 0) {
        const m = c.pick(mws);
        if (active.includes(m)) continue; // registering one object twice is a different matter
        c.log('use', m.i);
        const off = rt.use(m);
        active.push(m);
        offs.push({ m, off, used: false });
      } else if (k === 1 && offs.length) {
        const o = c.pick(offs);
        // Only the first call of a removal removes; a second one nothing else.
        c.log('remove', o.m.i, o.used ? 'again' : '');
        if (o.used && active.includes(o.m)) continue; // registered anew: ambiguous
        o.off();
        const at = active.indexOf(o.m);
        if (!o.used && at >= 0) active.splice(at, 1);
        o.used = true;
      } else {
        trace = [];
        const n = 1 + c.int(3);
        const want = [];
        const hs = [];
        const lanes = c.pick([{ flushSync: true }, { priority: 'background' }]);
        const commits = [];
        for (let j = 0; j < n; j++) {
          const skip = c.bool(5), boom = false;
          let id;
          const hd = rt.schedule({ scope, pendingLanes: skip ? 0 : -1, prepare: () => { trace.push(['render', id]); return () => { trace.push(['commit', id]); }; } }, lanes);
          id = hd.id;
          hs.push(hd);
          if (skip) continue;
          for (const m of active) want.push(['in', m.i, id]);
          want.push(['render', id]);
          for (const m of active.toReversed()) want.push(['out', m.i, id]);
          for (const m of active) if (m.wrap) commits.push(['c', m.i, id]);
          commits.push(['commit', id]);
        }
        c.log('updates', n);
        for (const x of hs) x.finished.catch((e) => c.async.push(e));
        await ad.drain();
        c.eq(trace, [...want, ...commits], `calls with the middleware ${active.map((m) => m.i)}`);
      }
    }
  }, { bound: '12 steps, up to 4 middleware' });

  // The commit used is what the outermost middleware returns; errors and
  // replacement updates pass through.
  await h.cases('substitution', 200, async (c) => {
    const { Runtime } = c.B;
    const scope = c.B.base.Scope.root({});
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    const log = [];
    const n = 1 + c.int(3);
    const which = c.int(n);
    const kind = c.pick(['replace', 'double', 'swallow', 'throw', 'update']);
    let sub = null;
    for (let i = 0; i < n; i++) {
      rt.use({
        handle(u, next) {
          if (i !== which) { const cm = next(u); return () => { log.push(`c${i}`); cm(); }; }
          if (kind === 'replace') { next(u); return () => log.push('replaced'); }
          if (kind === 'double') { const cm = next(u); return () => { cm(); log.push('after'); }; }
          if (kind === 'swallow') return () => log.push('none');
          if (kind === 'throw') throw new Error('mw');
          sub = { ...u, transaction: { scope, pendingLanes: -1, prepare: () => { log.push('r2'); return () => log.push('c-sub'); } } };
          return next(sub);
        },
      });
    }
    const hd = rt.schedule({ scope, pendingLanes: -1, prepare: () => { log.push('r'); return () => log.push('commit'); } }, { priority: 'background' });
    let err = null;
    hd.finished.catch((e) => { err = e; });
    await ad.drain();
    await h.settle(1);
    const outer = Array.from({ length: which }, (_, i) => `c${i}`), inner = Array.from({ length: n - which - 1 }, (_, i) => `c${i + which + 1}`);
    const want = { replace: ['r', ...outer, 'replaced'], double: ['r', ...outer, ...inner, 'commit', 'after'], swallow: [...outer, 'none'], throw: [], update: ['r2', ...outer, ...inner, 'c-sub'] }[kind];
    c.log(kind, which, n);
    c.eq(log, want, `calls with ${kind} at ${which} of ${n}`);
    c.eq(err?.message ?? null, kind === 'throw' ? 'mw' : null, 'outcome');
  });

  await h.cases('logger and profiler', 400, (c) => {
    const { UpdateLogger } = c.B.logger;
    const { UpdateProfiler } = c.B.profiler;
    const L = c.B.lane;
    const scope = c.B.base.Scope.root(new (class Owner {})()).enter(function Comp() {});
    const rec = [];
    const marks = new Map();
    const measures = [];
    const useLogger = c.bool();
    const mw = useLogger
      ? new UpdateLogger({ groupCollapsed: (...a) => rec.push(['open', ...a]), groupEnd: () => rec.push(['close']), log: (...a) => rec.push(['log', ...a]) })
      : new UpdateProfiler({ mark: (n) => { marks.set(n, (marks.get(n) ?? 0) + 1); }, measure: (...a) => { measures.push(a); } });
    const n = 1 + c.int(4);
    const commits = [];
    let records = 0;
    for (let id = 0; id < n; id++) {
      const lanes = c.pick([1, 2, 4, 8, 16, 32, 3, 5]);
      const fail = c.pick([null, null, null, 'render', 'commit']);
      const update = { id, lanes, handler: null, controller: null, transaction: { scope, pendingLanes: -1, prepare() { throw new Error('no'); } } };
      let renders = 0, cs = 0;
      const E = new Error(`e${id}`);
      const next = (u) => { c.ok(u === update, 'another update is passed on'); renders++; if (fail === 'render') throw E; return () => { cs++; if (fail === 'commit') throw E; }; };
      const before = rec.length;
      let commit = null, err = null;
      try { commit = mw.handle(update, next); } catch (e) { err = e; }
      c.log('update', id, lanes, fail);
      c.eq(renders, 1, 'renders of one update');
      c.eq(cs, 0, 'commits before the commit');
      c.ok(err === (fail === 'render' ? E : null), `error of the render: ${h.show(err)}`);
      const check = () => {
        if (!useLogger) return;
        const r = rec.slice(before);
        const opens = rec.filter((x) => x[0] === 'open').length, closes = rec.filter((x) => x[0] === 'close').length;
        c.ok(opens === closes, 'unbalanced record');
        c.ok(opens === records, `${opens} records after ${records} updates`);
        let depth = 0;
        for (const x of rec) { if (x[0] === 'open') depth++; else if (x[0] === 'close') depth--; c.ok(depth === 0 || depth === 1, 'nested records'); if (x[0] === 'log') c.ok(depth === 1, 'log outside a record'); }
        const head = rec.filter((x) => x[0] === 'open').at(-1)[1];
        return head;
      };
      if (fail === 'render') {
        records++;
        const head = check();
        if (useLogger) c.ok(head.includes(`#${id}`) && head.includes('FAILED'), `record of a failed update: ${head}`);
        continue;
      }
      commits.push(() => {
        let err2 = null;
        const r = (() => { try { return commit(); } catch (e) { err2 = e; } })();
        c.eq(cs, 1, 'commits of one update');
        c.ok(err2 === (fail === 'commit' ? E : null), `error of the commit: ${h.show(err2)}`);
        records++;
        if (useLogger) {
          const head = check();
          c.ok(head.includes(`#${id} `) && head.includes('COMPLETED') && head.includes('Comp'), `record: ${head}`);
          const logs = rec.slice(rec.findLastIndex((x) => x[0] === 'open')).filter((x) => x[0] === 'log').map((x) => x[1]);
          const mode = lanes & 1 ? 'synchronous' : lanes & 2 ? 'user-handler' : 'animation-frame';
          c.ok(logs.some((l) => l.includes(mode)), `mode ${mode}: ${logs}`);
          c.ok(logs.some((l) => l.includes(L.getPriorityFromLanes(lanes))), `priority: ${logs}`);
          c.ok(logs.some((l) => l.includes('Owner > Comp')), `owner stack: ${logs}`);
        } else if (fail !== 'commit') {
          const mine = measures.filter((m) => m[1].endsWith(`:${id}`) && m[2].endsWith(`:${id}`));
          c.eq(mine.map((m) => m[0].split(' ')[0]).toSorted(), ['Commit', 'Render', 'Update'], `measures of update ${id}`);
          for (const [name, from, to] of mine) {
            c.ok(marks.get(from) === 1 && marks.get(to) === 1, `marks of ${name}: ${from}, ${to}`);
            const k = name.split(' ')[0];
            const want = { Update: ['render-start', 'commit-end'], Render: ['render-start', 'render-end'], Commit: ['commit-start', 'commit-end'] }[k];
            c.ok(from.includes(want[0]) && to.includes(want[1]), `${name} is measured from ${from} to ${to}`);
            c.ok(name === `${k} Comp`, `name ${name}`);
          }
        }
      });
    }
    for (const f of commits) f();
    if (!useLogger) for (const [k, v] of marks) c.eq(v, 1, `marks ${k}`);
  });
}
