// Bounded stand-in for C20: random route trees against a reference matcher.
export default async function (h) {
  const W = ['a', 'b', 'c', '', '1', '2', '10'];
  await h.cases('routes', 1500, (c) => {
    const { Router, route } = c.B.router;
    const calls = [];
    let n = 0;
    const FALSYCAP = [0, '', false, null];
    const mk = (d) => {
      const patterns = Array.from({ length: c.pick([0, 1, 1, 1, 2, 2, 3]) }, () => {
        const k = c.int(5);
        if (k < 2) return { s: c.pick(W) };
        if (k === 2) return { m: (x) => (/^\d+$/.test(x) ? Number(x) : undefined), name: 'int' };
        if (k === 3) return { m: (x) => x, name: 'any' };
        const w = c.pick(W), r = c.pick(FALSYCAP);
        return { m: (x) => (x === w ? r : undefined), name: `only ${w}` };
      });
      return { id: n++, patterns, resolver: c.bool(6) ? null : c.pick([() => 'R', () => undefined, () => null, () => 0]), kids: d > 0 ? Array.from({ length: c.int(4) }, () => mk(d - 1)) : [] };
    };
    const routes = Array.from({ length: 1 + c.int(4) }, () => mk(2));
    const conv = (r) => route(r.patterns.map((p) => (p.m ? (x, u) => p.m(x, u) : p.s)), r.resolver && ((caps, url, ...rest) => { calls.push([r.id, [...caps], url, rest.length]); return r.resolver(); }), ...(r.kids.length || c.bool() ? [r.kids.map(conv)] : []));
    const router = new Router(routes.map(conv));
    c.log(JSON.stringify(routes, (k, v) => (typeof v === 'function' ? 'f' : v)));
    for (let q = 0; q < 4; q++) {
      const comps = Array.from({ length: 1 + c.int(5) }, () => c.pick(W));
      const url = (c.bool(4) ? '' : '/') + comps.join('/');
      const path = (url[0] === '/' ? url.slice(1) : url).split('/');
      // reference
      let level = routes, at = 0, caps = [], sel = null, done = false;
      while (!done) {
        let next = null;
        for (const r of level) {
          if (at + r.patterns.length > path.length) continue;
          const cs = [];
          const ok = r.patterns.every((p, i) => {
            const x = path[at + i];
            if (!p.m) return p.s === x;
            const v = p.m(x);
            if (v === undefined) return false;
            cs.push(v);
            return true;
          });
          if (!ok) continue;
          const end = at + r.patterns.length === path.length;
          if (!end && r.kids.length === 0) continue;
          next = { r, cs, end };
          break;
        }
        if (next === null) { done = true; break; }
        caps = caps.concat(next.cs);
        at += next.r.patterns.length;
        if (next.end) { sel = next.r; done = true; } else level = next.r.kids;
      }
      calls.length = 0;
      c.log('match', url);
      const got = router.match(url);
      if (sel === null || sel.resolver === null) {
        c.eq(got, undefined, `result for ${url}`);
        c.eq(calls, [], `resolvers called for ${url}`);
      } else {
        c.eq(calls, [[sel.id, caps, url, 0]], `resolvers called for ${url}`);
        c.ok(Object.is(got, sel.resolver()), `result for ${url}: ${h.show(got)}`);
      }
    }
  }, { bound: 'trees of depth 3, up to 4 routes per level, paths of up to 5 components' });
}
