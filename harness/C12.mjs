// Bounded stand-in for C12: nested partials against writing them in place.
export default async function (h) {
  await h.cases('compositions', 1200, (c) => {
    const { Partial } = c.B;
    const words = ['', 'a', 'b', '<p>', ' ', 'x="', '"', ','];
    // a fixed set of call sites: the same strings object each time
    const sites = Array.from({ length: 1 + c.int(3) }, () => Object.freeze(Array.from({ length: 1 + c.int(4) }, () => c.pick(words))));
    const byShape = new Map(); // site -> shape -> strings
    const shapes = new Map(); // strings object -> site+shape
    let vid = 0;
    // returns [partial, strings, values, shape]
    const gen = (d) => {
      const k = c.int(6);
      if (k === 0 || d === 0) {
        const s = c.pick(words);
        const p = Partial.literal(s);
        return [p, [s], [], `L${s}`];
      }
      if (k === 1) {
        const strings = Array.from({ length: 1 + c.int(3) }, () => c.pick(words));
        const values = strings.slice(1).map(() => vid++);
        return [Partial.parse(strings, ...values), strings, values, 'P'];
      }
      return compose(d);
    };
    const compose = (d) => {
      const site = c.int(sites.length), strings = sites[site];
      const args = [];
      let ms = [strings[0]];
      const mv = [];
      let parts = 0;
      const lits = [];
      for (let i = 1; i < strings.length; i++) {
        if (c.int(5) < 3) {
          const [p, ss, vs] = gen(d - 1);
          args.push(p);
          ms[ms.length - 1] += ss[0];
          ms.push(...ss.slice(1));
          ms[ms.length - 1] += strings[i];
          mv.push(...vs);
          parts++;
          lits.push([i, ss]);
        } else {
          const v = c.pick([vid++, null, undefined, '', c.pick([[], ['x']])]);
          args.push(v);
          mv.push(v);
          ms.push(strings[i]);
        }
      }
      const how = c.int(2);
      c.log('compose', strings, args);
      const p = Partial.parse(strings, ...args);
      c.eq([...p.strings], ms, 'strings of the composition');
      c.ok(p.values.length === mv.length && p.values.every((v, i) => Object.is(v, mv[i])), `values of the composition: got ${h.show(p.values)}, expected ${h.show(mv)}`);
      const shape = `${site}:${JSON.stringify(lits)}`;
      const prev = byShape.get(shape);
      if (prev !== undefined) c.ok(prev === p.strings, 'repeated compositions of one shape do not share their strings');
      byShape.set(shape, p.strings);
      const other = shapes.get(p.strings);
      c.ok(other === undefined || other === shape, 'compositions of different shapes share their strings');
      shapes.set(p.strings, shape);
      if (how) {
        const mode = c.pick(['html', 'svg', 'math']);
        const t = Partial[mode](strings, ...args);
        c.ok(t.type === p.strings, 'template composition does not share its strings');
        c.eq(t.props.mode, mode, 'mode');
        c.ok(t.children.length === mv.length, 'number of children');
        t.children.forEach((ch, i) => {
          if (!Array.isArray(mv[i])) c.ok(ch.type === c.B.base.Bind && Object.is(ch.props.value, mv[i]), `child ${i} of the composition`);
        });
      }
      return [p, ms, mv, shape];
    };
    for (let i = 0; i < 6; i++) compose(3);
    // string form
    const [p, ss, vs] = compose(2);
    let want = ss[0];
    vs.forEach((v, i) => { want += `${v}` + ss[i + 1]; });
    c.eq(p.toString(), want, 'string form');
  }, { bound: 'nesting depth 3, up to 5 strings per site' });
}
