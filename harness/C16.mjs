// Bounded stand-in for C16: signals, computed signals and subscriptions.
const VALUES = [0, -0, NaN, 1, 'a', '', null, undefined, true];
export default async function (h) {
  await h.cases('atoms', 500, (c) => {
    const { Atom, Accessor } = c.B.signal;
    let held = c.pick(VALUES);
    const accessor = c.bool(3);
    let cell = held;
    const s = accessor ? new Accessor(() => cell, (x) => { cell = x; }) : new Atom(held);
    const subs = []; // {calls, off, live}
    let writes = 0;
    for (let i = 5 + c.int(20); i > 0; i--) {
      const op = c.int(10);
      if (op < 3) {
        const sub = { live: true, calls: 0, id: subs.length };
        // Shared callbacks are separate subscriptions.
        const same = subs.length && c.bool(5) ? c.pick(subs).owner : null;
        sub.owner = same ?? { events: [], hit: null };
        sub.owner.hit ??= (e) => sub.owner.events.push(e);
        sub.off = s.subscribe(sub.owner.hit);
        subs.push(sub);
        c.log('subscribe', sub.id, same ? 'again' : '');
      } else if (op < 5 && subs.length) {
        const x = c.pick(subs);
        x.off();
        x.live = false;
        c.log('unsubscribe', x.id);
      } else {
        const v = c.pick(VALUES);
        const version = s.version;
        for (const x of subs) x.owner.events.length = 0;
        const order = [];
        s.value = v;
        c.log('write', h.show(v));
        const changed = !Object.is(held, v);
        if (changed) writes++;
        c.ok(changed ? s.version > version : s.version === version, `the version goes from ${version} to ${s.version}`);
        const want = new Map();
        for (const x of subs) want.set(x.owner, (want.get(x.owner) ?? 0) + (changed && x.live ? 1 : 0));
        for (const [o, n] of want) {
          c.ok(o.events.length === n, `a subscriber is notified ${o.events.length} times instead of ${n}`);
          for (const e of o.events) c.ok(e.type === 'set' && e.source === s && Object.is(e.oldValue, held) && Object.is(e.newValue, v), 'the event');
        }
        held = v;
        void order;
      }
      c.ok(Object.is(s.value, held), () => `the value is ${h.show(s.value)} instead of ${h.show(held)}`);
    }
  }, { bound: 'up to 24 operations' });

  // Subscribers that subscribe, unsubscribe and write while being notified.
  await h.cases('reentrant', 400, (c) => {
    const { Atom } = c.B.signal;
    const s = new Atom(0);
    const subs = [];
    let calls = [];
    let depth = 0;
    const add = (plan) => {
      const x = { id: subs.length, plan, live: true };
      x.off = s.subscribe(() => {
        calls.push(x.id);
        c.ok(x.live, `subscriber ${x.id} is notified after unsubscribing`);
        for (const p of x.plan) p(x);
      });
      subs.push(x);
      return x;
    };
    const n = 2 + c.int(5);
    const plans = Array.from({ length: n }, () => []);
    for (let i = 0; i < n; i++) {
      if (c.bool()) for (let j = c.int(4); j > 0; j--) {
        const t = c.int(n);
        plans[i].push(() => { subs[t].off(); subs[t].live = false; });
        c.log(`${i} removes ${t}`);
      }
      if (c.bool(5)) { c.log(`${i} writes`); plans[i].push(() => { if (depth++ < 2) s.value = s.value + 1; }); }
    }
    for (const p of plans) add(p);
    const before = subs.map((x) => x.live);
    const written = s.value;
    const quiet = !plans.flat().length;
    s.value = written + 100;
    if (quiet) c.eq(calls, subs.map((x) => x.id), 'the calls');
    for (const x of subs) {
      const k = calls.filter((id) => id === x.id).length;
      if (x.live) c.ok(k === 1 + Math.min(depth, 2), `subscriber ${x.id} is notified ${k} times of ${1 + Math.min(depth, 2)} changes`);
      else c.ok(k <= 1 + Math.min(depth, 2), `subscriber ${x.id} is notified ${k} times`);
    }
    void before;
    calls = [];
    depth = 9;
    s.value = 'z';
    const removers = calls.length;
    for (const x of subs) if (x.live) c.ok(calls.filter((id) => id === x.id).length === 1, `subscriber ${x.id} is not notified once afterwards`);
    void removers;
  }, { bound: 'up to 6 subscribers that unsubscribe one another and write again' });

  await h.cases('computed', 700, (c) => {
    const { Atom, Computed, Accessor } = c.B.signal;
    const atoms = Array.from({ length: 1 + c.int(4) }, (_, i) => ({ s: new Atom(i), v: i, changed: new Set() }));
    const nodes = atoms.map((a) => ({ s: a.s, eval: () => a.v, atoms: new Set([a]) }));
    const count = 1 + c.int(5);
    const comps = [];
    for (let i = 0; i < count; i++) {
      const deps = Array.from({ length: c.int(4) }, () => c.pick(nodes));
      const rec = { runs: 0, dirty: true, deps };
      const map = deps.length === 1 && c.bool();
      const flat = c.int(4); // some functions return a constant, null or undefined
      const tag = (j, a) => (flat === 0 ? null : flat === 1 && i % 2 ? undefined : tagged(j, a));
      const f = (...a) => { rec.runs++; return tag(i, a); };
      rec.s = map ? deps[0].s.map(f) : new Computed(f, deps.map((d) => d.s));
      rec.eval = () => tag(i, deps.map((d) => d.eval()));
      rec.atoms = new Set(deps.flatMap((d) => [...d.atoms]));
      c.log(`c${i} depends on`, deps.map((d) => nodes.indexOf(d)));
      nodes.push(rec);
      comps.push(rec);
    }
    const subs = [];
    for (let i = 4 + c.int(16); i > 0; i--) {
      const op = c.int(8);
      if (op < 3) {
        const a = c.pick(atoms);
        const v = c.pick([0, 1, 2, NaN, -0, 'q']);
        const changed = !Object.is(a.v, v);
        c.log(`a${atoms.indexOf(a)} =`, h.show(v));
        for (const s of subs) s.calls = 0;
        const versions = comps.map((x) => x.s.version);
        a.s.value = v;
        a.v = v;
        comps.forEach((x, j) => {
          if (changed && x.atoms.has(a)) { x.dirty = true; c.ok(x.s.version > versions[j], `the version of c${j} does not increase`); } else c.ok(x.s.version === versions[j], `the version of c${j} changes`);
        });
        for (const s of subs) {
          const want = s.live && changed ? s.paths.filter((p) => p === a).length : 0;
          c.ok(s.calls === want, `a subscriber of a computed signal is notified ${s.calls} times instead of ${want}`);
        }
      } else if (op < 6) {
        const x = c.pick(comps);
        const runs = x.runs;
        const got = x.s.value;
        c.log(`read c${comps.indexOf(x)}`);
        c.ok(got === x.eval(), () => `c${comps.indexOf(x)} is ${got} instead of ${x.eval()}`);
        c.ok(x.runs - runs === (x.dirty ? 1 : 0), `the function of c${comps.indexOf(x)} runs ${x.runs - runs} times ${x.dirty ? 'after a change' : 'although nothing changed'}`);
        x.dirty = false;
        // Reading it reads what it depends on.
        const clean = (d) => { if (d.deps) for (const e of d.deps) { if (e.dirty) { e.dirty = false; clean(e); } } };
        if (x.runs > runs) clean(x);
      } else if (op === 6) {
        const x = c.pick(comps);
        const s = { calls: 0, live: true, paths: paths(x) };
        s.off = x.s.subscribe(() => { s.calls++; });
        c.log(`subscribe c${comps.indexOf(x)}`);
        subs.push(s);
      } else if (subs.length) {
        const s = c.pick(subs);
        s.off();
        s.live = false;
        c.log('unsubscribe');
      }
    }
    function tagged(i, a) { return `c${i}(${a.map((x) => (Object.is(x, -0) ? '-0' : String(x))).join()})`; }
    // The ways in which a computed signal depends on atoms.
    function paths(x) { return x.deps ? x.deps.flatMap(paths) : [...x.atoms]; }
    void Accessor;
  }, { bound: 'up to 4 atoms, 5 computed signals and 19 operations' });

  await h.cases('failing', 60, (c) => {
    const { Atom, Computed } = c.B.signal;
    const a = new Atom(0);
    const x = new Computed((v) => { if (v % 2 === 1) throw new Error(`odd ${v}`); return v * 10; }, [a]);
    let v = 0;
    for (let i = 0; i < 8; i++) {
      if (c.bool()) { v = c.int(6); a.value = v; }
      if (v % 2 === 1) c.throws(() => x.value, `an odd value ${v}`); else c.eq(x.value, v * 10, 'the value');
      if (c.bool()) { if (v % 2 === 1) c.throws(() => x.value, `an odd value ${v}`); else c.eq(x.value, v * 10, 'the value'); }
    }
  }, { bound: '8 steps' });
}
