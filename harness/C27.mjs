// Bounded stand-in for C27.
export default async function (h) {
  await h.cases('wrap', 1500, (c) => {
    const B = c.B;
    const { Bind, Fragment, toElement } = B.base;
    const wrap = B.velement.wrap;
    const div = document.createElement('div');
    class Box { constructor(v) { this.v = v; } }
    const leafs = [() => 0, () => -0, () => NaN, () => '', () => 'str', () => null, () => undefined, () => true, () => false, () => 1n, () => Symbol('s'), () => new Box(1), () => () => 1, () => new Date(0), () => ({ length: 2 }), () => Object.create(null), () => function* () {}, () => Promise.resolve(), () => new String('ab').valueOf()];
    const expect = (v, e, d = 0) => {
      if (v.el) return c.ok(e === v.value, 'an element does not stay itself');
      if (v.conv) return c.ok(e === v.conv, 'a bindable is not converted by its conversion method');
      if (v.items) {
        c.ok(e.type === Fragment, `an iterable becomes ${h.show(e.type)}`);
        c.ok(e.children.length === v.items.length, `an iterable of ${v.items.length} items becomes ${e.children.length} children`);
        v.items.forEach((x, i) => expect(x, e.children[i], d + 1));
        return;
      }
      c.ok(e.type === Bind, `${h.show(v.value)} becomes ${h.show(e.type)}`);
      c.ok(Object.is(e.props.value, v.value), `${h.show(v.value)} becomes the plain value ${h.show(e.props.value)}`);
    };
    const gen = (d) => {
      const k = c.int(10);
      if (d === 0 || k < 4) return { value: c.pick(leafs)() };
      if (k === 4) {
        const el = c.pick([() => B.createBind(1), () => B.createFragment([]), () => B.html(['<a></a>']), () => B.createPortal(1, div), () => B.createComponent(function X() {})({})])();
        return { value: c.bool() ? el.withKey('k') : el, el: true };
      }
      if (k === 5) {
        const el = B.createBind(c.int(9));
        const o = c.pick([() => ({}), () => function f() {}, () => [1, 2], () => new Box(2)])();
        let calls = 0;
        o[toElement] = function () { c.ok(this === o, 'conversion method called with another receiver'); calls++; return el; };
        return { value: o, conv: el };
      }
      if (k === 6) { // a function or a string is iterable but no iterable object
        const f = () => {};
        f[Symbol.iterator] = function* () { yield 1; };
        return { value: f };
      }
      const items = Array.from({ length: c.int(4) }, () => gen(d - 1));
      const vs = items.map((x) => x.value);
      const kind = c.int(5);
      if (kind === 0) { const s = new Set(vs); if (s.size === vs.length && !vs.some((x) => Object.is(x, -0))) return { value: s, items }; }
      if (kind === 1) return { value: { *[Symbol.iterator]() { yield* vs; } }, items };
      if (kind === 2) return { value: (function* () { yield* vs; })(), items, once: true };
      if (kind === 3) return { value: { get [Symbol.iterator]() { return () => vs.values(); } }, items };
      return { value: vs, items };
    };
    const v = gen(3);
    c.log(v.value);
    expect(v, wrap(v.value));
    // constructors
    const one = gen(1), two = gen(1), el = B.createBind('child');
    const strings = Object.freeze(['a', 'b', 'c']);
    const mode = c.pick(['html', 'svg', 'math', 'text']);
    const t = B[mode](strings, one.value, two.value);
    c.ok(t.type === strings, 'strings of the template');
    c.eq(t.props.mode, mode === 'text' ? 'textarea' : mode, 'mode of the template');
    c.ok(t.children.length === 2, 'children of the template');
    // a generator can be consumed only once; this is its first consumption
    expect(one, t.children[0]);
    expect(two, t.children[1]);
    const t2 = B.createTemplate('svg', strings, [el, 5]);
    c.ok(t2.type === strings && t2.props.mode === 'svg' && t2.children[0] === el && t2.children[1].props.value === 5, 'createTemplate');
    const p = B.createPortal(el, div);
    c.ok(p.type === div && p.children.length === 1 && p.children[0] === el, 'createPortal');
    const f = B.createFragment(new Set([el, 'x']));
    c.ok(f.type === Fragment && f.children.length === 2 && f.children[0] === el && f.children[1].props.value === 'x', 'createFragment');
    c.ok(B.createBind(one.value).props.value === one.value || Object.is(B.createBind(one.value).props.value, one.value), 'createBind');
    // keys
    for (const e of [t, t2, p, f, el]) {
      c.ok(e.key === undefined, 'default key');
      const key = c.pick([undefined, null, NaN, 0, '', {}]);
      const k = e.withKey('first').withKey(key);
      c.ok(Object.is(k.key, key) && k.type === e.type && k.props === e.props && k.children === e.children, 're-keying changes more than the key');
      c.ok(k.constructor === e.constructor && wrap(k) === k, 're-keyed element is no element');
      c.ok(e.key === undefined, 're-keying changes the original');
    }
    const props = { a: 1 };
    const C = B.createComponent(function C() {});
    const ce = C(props);
    c.ok(ce.type === C && ce.props === props && ce.children.length === 0, 'component element');
  });
}
