// Bounded stand-in for C24.
export default async function (h) {
  const VALS = [undefined, null, 0, -0, NaN, '', 'a', '0', false, true, {}, [], 1];
  const gen = (c) => c.pick(VALS);
  const eqs = [[undefined, Object.is], [(a, b) => a === b, (a, b) => a === b], [(a, b) => typeof a === typeof b, (a, b) => typeof a === typeof b], [() => true, () => true]];
  await h.cases('sequential', 1500, (c) => {
    const C = c.B.compare;
    const xs = Array.from({ length: c.int(5) }, () => gen(c));
    const ys = c.int(6) === 0 ? xs : c.bool() ? xs.map((x) => (c.bool(5) ? gen(c) : x)) : Array.from({ length: c.int(5) }, () => gen(c));
    if (ys !== xs && c.bool(5)) ys.push(gen(c));
    const [eq, m] = c.pick(eqs);
    const want = xs === ys || (xs.length === ys.length && xs.every((x, i) => m(x, ys[i])));
    c.log(xs, ys, eqs.findIndex((e) => e[0] === eq));
    c.eq(eq ? C.sequentialEqual(xs, ys, eq) : C.sequentialEqual(xs, ys), want, `sequentialEqual(${h.show(xs)}, ${h.show(ys)})`);
    const wantIs = xs === ys || (xs.length === ys.length && xs.every((x, i) => Object.is(x, ys[i])));
    c.eq(C.areDependenciesChanged(xs, ys), !wantIs, `areDependenciesChanged(${h.show(xs)}, ${h.show(ys)})`);
    for (const [a, b] of [[null, ys], [xs, undefined], [undefined, undefined], [null, null], [undefined, ys], [xs, null]]) c.eq(C.areDependenciesChanged(a, b), true, 'missing dependencies');
    c.eq(C.areDependenciesChanged([], []), false, 'empty dependencies');
    // array likes
    const al = Object.assign({ length: xs.length }, { ...xs });
    c.eq(eq ? C.sequentialEqual(al, ys, eq) : C.sequentialEqual(al, ys), xs.length === ys.length && xs.every((x, i) => m(x, ys[i])), 'array-likes');
  });
  await h.cases('shallow', 1500, (c) => {
    const C = c.B.compare;
    const K = ['a', 'b', 'c', '0', 'toString', 'length', '__proto_', 'constructor'];
    const obj = () => {
      const o = c.bool(6) ? Object.create({ a: 1, b: undefined, c: 0 }) : c.bool(6) ? Object.create(null) : {};
      for (const k of c.shuffle(K)) if (c.bool(3)) o[k] = gen(c);
      if (c.bool(5)) Object.defineProperty(o, 'hidden', { value: c.int(3), enumerable: false });
      if (c.bool(6)) o[Symbol.iterator] = 1;
      return o;
    };
    const xs = obj();
    let ys;
    if (c.bool(8)) ys = xs;
    else if (c.bool()) {
      ys = c.bool(5) ? Object.create(xs) : {};
      for (const k of c.shuffle(Object.keys(xs))) if (!c.bool(8)) ys[k] = c.bool(6) ? gen(c) : xs[k];
      if (c.bool(4)) ys[c.pick(K)] = gen(c);
    } else ys = obj();
    const [eq, m] = c.pick(eqs);
    const kx = Object.keys(xs), ky = Object.keys(ys);
    const want = xs === ys || (kx.length === ky.length && kx.every((k) => ky.includes(k) && m(xs[k], ys[k])));
    c.log(xs, ys, eqs.findIndex((e) => e[0] === eq));
    c.eq(eq ? C.shallowEqual(xs, ys, eq) : C.shallowEqual(xs, ys), want, `shallowEqual(${h.show(xs)}, ${h.show(ys)})`);
  });
}
