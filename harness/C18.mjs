// Bounded stand-in for C18: linked lists against arrays.
export default async function (h) {
  await h.cases('histories', 600, (c) => {
    const { LinkedList } = c.B.linkedList;
    const lists = Array.from({ length: 2 + c.int(2) }, () => ({ l: new LinkedList(), m: [] }));
    const nodes = [];
    const n = 3 + c.int(40);
    const check = () => {
      for (const { l, m } of lists) c.eq([...l], m.map((x) => x.v), 'iteration');
    };
    for (let i = 0; i < n; i++) {
      const s = c.pick(lists);
      if (c.int(5) < 3) {
        const v = c.int(4);
        c.log('append', lists.indexOf(s), v);
        const node = s.l.append(v);
        c.eq(node.value, v, 'value of the node');
        const e = { v, node, s };
        s.m.push(e);
        nodes.push(e);
      } else if (nodes.length) {
        const e = c.bool(4) ? nodes[0] : c.bool(3) ? nodes[nodes.length - 1] : c.pick(nodes);
        const t = c.bool(4) ? c.pick(lists) : e.s;
        const at = t.m.indexOf(e);
        c.log('delete', lists.indexOf(t), nodes.indexOf(e));
        c.eq(t.l.delete(e.node), at >= 0, 'result of the deletion');
        if (at >= 0) t.m.splice(at, 1);
      }
      check();
    }
    for (const { l } of lists) { const a = [...l], b = [...l]; c.eq(a, b, 'repeated iteration'); }
  }, { bound: 'up to 43 operations on up to 3 lists' });
}
