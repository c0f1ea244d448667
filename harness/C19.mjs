// Bounded stand-in for C19: drafts and property signals against a deep copy.
const K = ['a', 'b', 'c', 'd'];
const isObj = (x) => x !== null && typeof x === 'object';
// (copies of objects that occur twice are two objects)
const clone = (x) => (Array.isArray(x) ? x.map(clone) : isObj(x) ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, clone(v)])) : x);
const J = (x) => JSON.stringify(x, (k, v) => (isObj(v) && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort(([a], [b]) => (a < b ? -1 : 1))) : v === undefined ? '<undefined>' : v));
const leaf = (c) => c.pick([0, 1, 2, 'x', null, undefined, true]);
function gen(c, d, arr) {
  if (d <= 0 || c.bool(3)) return leaf(c);
  if (arr && c.bool()) return Array.from({ length: c.int(4) }, () => gen(c, d - 1, arr));
  const o = {};
  for (const k of K) if (c.int(3)) o[k] = gen(c, d - 1, arr);
  return o;
}
const root = (c, arr) => { for (;;) { const g = gen(c, 3, arr); if (isObj(g)) return g; } };
export default async function (h) {
  const fresh = (c, v) => clone(v);
  // One operation somewhere below a draft and its model; `touch` gets the paths.
  function step(c, draft, model, arr, touch) {
    let d = draft, m = model;
    const path = [];
    for (;;) {
      const keys = Object.keys(m).filter((k) => isObj(m[k]));
      if (!keys.length || c.bool(3)) break;
      const k = c.pick(keys);
      d = d[k]; m = m[k]; path.push(k);
    }
    const p = path.join('.');
    const v = gen(c, 2, arr);
    if (Array.isArray(m)) {
      const op = c.int(11);
      c.log(`${p}: array operation ${op}`, J(v));
      if (op !== 6) touch(path);
      switch (op) {
        case 0: c.ok(d.push(clone(v)) === m.push(clone(v)), 'push'); break;
        case 1: c.ok(J(d.pop()) === J(m.pop()), 'pop'); break;
        case 2: if (m.length) { const i = c.int(m.length); d[i] = clone(v); m[i] = clone(v); } break;
        case 3: c.ok(J(d.splice(0, 1)) === J(m.splice(0, 1)), 'splice'); break;
        case 4: d.reverse(); m.reverse(); break;
        case 5: c.ok(d.unshift(clone(v)) === m.unshift(clone(v)), 'unshift'); break;
        case 6: c.ok(J([...d]) === J([...m]) && d.length === m.length, 'iteration'); c.ok(J(d.map((x) => J(x))) === J(m.map((x) => J(x))), 'map'); break;
        case 7: { const n = c.int(m.length + 1); d.length = n; m.length = n; break; }
        case 9: { const i = m.length + c.int(2); d[i] = clone(v); m[i] = clone(v); c.ok(d.length === m.length, 'the length'); break; }
        case 10: { const n = m.length + c.int(2); d.length = n; m.length = n; c.ok(d.length === m.length, 'the length'); break; }
        case 8: { const f = (x, y) => (J(x) < J(y) ? -1 : 1); d.sort(f); m.sort(f); break; }
      }
      return;
    }
    const k = c.pick(K);
    const op = c.int(9);
    c.log(`${p}.${k}: operation ${op}`, J(v));
    switch (op) {
      case 0: case 1: touch([...path, k]); d[k] = clone(v); m[k] = clone(v); break;
      case 2: touch([...path, k]); delete d[k]; delete m[k]; break;
      case 3: c.eq(Object.keys(d).sort(), Object.keys(m).sort(), `the keys of ${p}`); c.eq(Reflect.ownKeys(d).sort(), Reflect.ownKeys(m).sort(), `the keys of ${p}`); break;
      case 4: c.ok((k in d) === (k in m), `whether ${k} is in ${p}`); c.ok(Object.hasOwn(d, k) === Object.hasOwn(m, k), `whether ${k} is in ${p}`); break;
      case 5: c.ok(J(d[k]) === J(m[k]), () => `reading ${p}.${k}: ${J(d[k])} instead of ${J(m[k])}`); break;
      case 6: { const k2 = c.pick(K); if (k2 !== k && m[k2] !== undefined) { touch([...path, k]); touch([...path, k2]); d[k] = d[k2]; m[k] = clone(m[k2]); c.log('copied from', k2); } break; }
      case 7: c.ok(J({ ...d }) === J({ ...m }), () => `copying ${p}: ${J({ ...d })} instead of ${J({ ...m })}`); c.ok(J(Object.entries(d)) !== '', 'entries'); break;
      case 8: { const x = Object.getOwnPropertyDescriptor(d, k), y = Object.getOwnPropertyDescriptor(m, k); c.ok((x === undefined) === (y === undefined), `the descriptor of ${p}.${k}`); if (x) c.ok(x.enumerable && x.writable && x.configurable, `the descriptor of ${p}.${k}`); break; }
    }
  }
  for (const arr of [false, true]) {
    await h.cases(arr ? 'arrays' : 'objects', 1200, (c) => {
      const { Derivable } = c.B.signal;
      const init = root(c, arr);
      const src = clone(init);
      const D = Derivable.from(src);
      let model = clone(init);
      c.log(J(init));
      const snaps = [[src, J(src)]];
      let last = src;
      let touched = [];
      const touch = (p) => touched.push(p);
      let held = []; // [path, signal]
      const forget = (p) => { held = held.filter(([q]) => !(q.length > p.length && p.every((k, i) => q[i] === k))); };
      const at = (p) => p.reduce((o, k) => (isObj(o) ? o[k] : undefined), model);
      const check = (v) => {
        c.ok(J(v) === J(model), () => `the value is ${J(v)} instead of ${J(model)}`);
        // Identity of everything untouched.
        const visit = (a, b, p) => {
          if (!isObj(a) || !isObj(b)) return;
          if (!touched.some((t) => t.every((k, i) => i >= p.length || p[i] === k))) {
            c.ok(a === b, `${p.join('.') || 'the value'} is not touched but copied`);
            return;
          }
          if (touched.some((t) => t.length <= p.length)) { if (touched.some((t) => t.length <= p.length && t.every((k, i) => p[i] === k))) return; }
          if (Array.isArray(a)) return;
          for (const k of Object.keys(a)) if (Object.hasOwn(b, k)) visit(a[k], b[k], [...p, k]);
        };
        visit(last, v, []);
        last = v;
        touched = [];
        snaps.push([v, J(v)]);
      };
      const snapshots = () => { for (const [o, s] of snaps) c.ok(J(o) === s, () => `an earlier value changed from ${s} to ${J(o)}`); };
      // Subscribers may read values when they are notified.
      const ks = Object.keys(init);
      const readers = ks.length > 0 && c.bool(3) ? [D, D.get(c.pick(ks))] : [];
      if (readers.length > 0) { c.log('with subscribers that read'); for (const r of readers) r.subscribe(() => { for (const q of readers) void J(q.value); }); }
      for (let i = 1 + c.int(6); i > 0; i--) {
        const mode = c.int(5);
        if (mode < 2) {
          const n = 1 + c.int(4);
          c.log('draft');
          const out = D.scope((d) => { for (let j = 0; j < n; j++) step(c, d, model, arr, (p) => { touch(p); if (arr) held = []; else forget(p); }); return 42; });
          c.ok(out === 42, 'the result of the callback');
        } else if (mode === 2 && c.bool(2)) {
          // A new value altogether.
          model = root(c, arr);
          c.log('assigned', J(model));
          const copy = clone(model);
          D.value = copy;
          touch([]);
          held = [];
        } else {
          let x = D, m = model;
          const path = [];
          for (;;) {
            const keys = Object.keys(m).filter((k) => isObj(m[k]));
            if (!keys.length || c.bool()) break;
            const k = c.pick(keys);
            x = x.get(k); m = m[k]; path.push(k);
          }
          const k = Array.isArray(m) ? (m.length ? String(c.int(m.length)) : null) : c.pick(K);
          if (k !== null) {
            const s = x.get(c.bool() && Array.isArray(m) ? Number(k) : k);
            const v = gen(c, 2, arr);
            const full = [...path, k];
            if (c.bool(5) && !Array.isArray(m)) { c.log(`delete ${full.join('.')}`); touch(full); s.delete(); delete m[k]; c.ok(s.value === undefined, () => `the deleted ${full.join('.')} has the value ${J(s.value)}`); if (!arr) forget(full); }
            else if (c.bool(4)) { c.log(`read ${full.join('.')}`); c.ok(J(s.value) === J(m[k]), () => `reading ${full.join('.')}: ${J(s.value)} instead of ${J(m[k])}`); if (!arr && Object.hasOwn(m, k)) held.push([full, s]); }
            else if (c.bool(4)) {
              // What it was when last read: the same object, which is not changed.
              const old = full.reduce((o, q) => (isObj(o) ? o[q] : undefined), last);
              c.log(`${full.join('.')} = what it was, ${J(old)}`);
              touch(full); s.value = old; m[k] = clone(old); if (!arr) forget(full);
              c.ok(J(s.value) === J(m[k]), () => `${full.join('.')} is ${J(s.value)} instead of ${J(m[k])}`);
              if (isObj(old)) for (const q of Object.keys(old)) c.ok(J(s.get(q).value) === J(old[q]), () => `${full.join('.')}.${q} is ${J(s.get(q).value)} instead of ${J(old[q])}`);
            }
            else { c.log(`${full.join('.')} = ${J(v)}`); touch(full); s.value = clone(v); m[k] = clone(v); if (!arr) forget(full); if (!arr && Object.hasOwn(at(path), k)) held.push([full, s]); }
          }
        }
        // Property signals obtained earlier.
        for (const [p, s] of held) if (isObj(at(p.slice(0, -1)))) c.ok(J(s.value) === J(at(p)), () => `an earlier signal of ${p.join('.')} has ${J(s.value)} instead of ${J(at(p))}`);
        if (c.int(3)) { c.log('read'); check(D.value); }
        snapshots();
      }
      check(D.value);
      c.ok(D.value === last, 'reading again copies the value');
      snapshots();
    }, { bound: `trees of depth 3${arr ? ' with arrays' : ''}, up to 6 groups of operations` });
  }

  await h.cases('notifications', 500, (c) => {
    const { Derivable } = c.B.signal;
    const init = root(c, false);
    const D = Derivable.from(clone(init));
    const model = clone(init);
    c.log(J(init));
    const counts = new Map();
    const sigs = new Map();
    const walk = (s, m, p) => {
      sigs.set(p, s);
      counts.set(p, 0);
      s.subscribe(() => {
        counts.set(p, counts.get(p) + 1);
        // Values read when notified are the new ones.
        const q = c.pick([...sigs.keys()]);
        c.ok(J(sigs.get(q).value) === J(get(q)), () => `the subscriber of "${p}" reads ${J(sigs.get(q).value)} at "${q}" instead of ${J(get(q))}`);
      });
      if (isObj(m)) for (const k of Object.keys(m)) walk(s.get(k), m[k], `${p}.${k}`);
    };
    walk(D, model, '');
    for (let i = 1 + c.int(5); i > 0; i--) {
      // Change a leaf, or the same value again.
      const leaves = [...sigs.keys()].filter((p) => p !== '' && !isObj(get(p)));
      if (leaves.length === 0) break;
      const p = c.pick(leaves);
      const v = c.bool(3) ? get(p) : c.pick([10, 11, 'z', NaN, -0, null, undefined]);
      c.log(p, '=', h.show(v));
      for (const k of counts.keys()) counts.set(k, 0);
      const old = get(p);
      const ver = new Map([...sigs].map(([k, s]) => [k, s.version]));
      set(p, v);
      if (c.bool()) sigs.get(p).value = v;
      else D.scope((d) => { const ks = p.split('.').slice(1); const last = ks.pop(); ks.reduce((o, k) => o[k], d)[last] = v; });
      const changed = !Object.is(old, v);
      for (const [q, n] of counts) {
        if (q === p || p.startsWith(`${q}.`)) {
          if (changed) c.ok(n === 1 && sigs.get(q).version > ver.get(q), `the subscriber of "${q}" is notified ${n} times of a change of "${p}"`);
          else if (q === p) c.ok(n === 0, `the subscriber of "${q}" is notified of no change`);
        } else c.ok(n === 0 && sigs.get(q).version === ver.get(q), `the subscriber of "${q}" is notified of a change of "${p}"`);
      }
      c.ok(J(D.value) === J(model), () => `the value is ${J(D.value)} instead of ${J(model)}`);
    }
    function get(p) { return p.split('.').slice(1).reduce((o, k) => o[k], model); }
    function set(p, v) { const ks = p.split('.').slice(1); const last = ks.pop(); ks.reduce((o, k) => o[k], model)[last] = v; }
  }, { bound: 'trees of depth 3, up to 5 changes of leaves' });

  await h.cases('primitives', 100, (c) => {
    const { Derivable, unwrap } = c.B.signal;
    const v = leaf(c);
    const D = Derivable.from(v);
    c.log(h.show(v));
    c.ok(D.value === v && D.get('a') === undefined, 'a primitive value');
    c.ok(D.scope((x) => x) === v, 'the draft of a primitive value');
    const w = gen(c, 2, true);
    D.value = w;
    c.ok(D.value === w, 'the value assigned');
    if (isObj(w)) D.scope((d) => { c.ok(unwrap(d) === w, 'an unwrapped draft'); });
    c.ok(unwrap(w) === w, 'unwrapping a plain value');
    let leaked;
    const O = Derivable.from({ a: { b: 1 } });
    O.scope((d) => { leaked = d; });
    let threw = false;
    try { void leaked.a; } catch { threw = true; }
    c.ok(threw, 'a draft stays usable after its scope');
  }, { bound: 'one value' });
}
