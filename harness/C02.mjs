// Bounded stand-in for C02: option combinations and lane sets against bit lists.
export default async function (h) {
  const PRI = ['user-blocking', 'user-visible', 'background'];
  await h.cases('options', 1500, (c) => {
    const L = c.B.lane;
    const o = {};
    const want = new Set();
    if (c.bool()) { o.flushSync = c.bool(); if (o.flushSync) want.add(0); }
    if (c.bool()) { o.handler = () => {}; want.add(1); }
    if (c.bool()) { const i = c.int(3); o.priority = PRI[i]; want.add(2 + i); }
    if (c.bool()) { o.transition = c.pick([c.int(24), c.int(100), 24, 23, 48, c.int(1000000)]); want.add(5 + (o.transition % 24)); }
    if (c.bool()) { o.delay = c.pick([0, 1, 99, 100, 101, 100.5, 1000, c.int(300), Infinity]); want.add(o.delay <= 100 ? 29 : 30); }
    c.log({ ...o, handler: !!o.handler });
    let exp = 0;
    for (const b of want) exp |= 1 << b;
    c.eq(L.getRenderLanes(o) | 0, exp | 0, `lanes of ${h.show(o)}`);
  });
  await h.cases('lanes', 4000, (c, i) => {
    const L = c.B.lane;
    let lanes = 0;
    const bits = [];
    const density = c.pick([2, 4, 12]);
    for (let b = 0; b < 32; b++) if (i < 32 ? b === i : c.int(density) === 0) { lanes |= 1 << b; bits.push(b); }
    if (c.bool(8)) { const lo = 5 + c.int(24); for (let b = lo; b < 32; b++) lanes &= ~(1 << b); }
    const has = (b) => ((lanes >>> b) & 1) === 1;
    const any = (from, to) => { for (let b = from; b <= to; b++) if (has(b)) return true; return false; };
    c.log(lanes);
    let low = 0;
    for (let b = 0; b < 32; b++) if (has(b)) { low = 1 << b; break; }
    c.eq(L.getHighestPriorityLane(lanes) | 0, low | 0, `highest-priority lane of ${lanes}`);
    const pr = any(0, 2) ? 'user-blocking' : has(3) ? 'user-visible' : any(4, 30) ? 'background' : null;
    if (pr !== null) c.eq(L.getPriorityFromLanes(lanes), pr, `priority of ${lanes}`);
    let t = -1;
    for (let b = 5; b <= 28; b++) if (has(b)) t = b - 5;
    c.eq(L.getTransitionIndex(lanes), t, `transition index of ${lanes}`);
  });
  await h.cases('priorities', 3, (c, i) => {
    c.eq(c.B.lane.getLaneFromPriority(PRI[i]), 4 << i, `lane of ${PRI[i]}`);
  }, { fixed: true });
}
