// Bounded stand-in for C01: random histories of a priority queue against a bag.
export default async function (h) {
  await h.cases('histories', 600, (c) => {
    const { PriorityQueue } = c.B.queue;
    const mode = c.int(5);
    const compare = [
      (a, b) => a.k - b.k,
      (a, b) => b.k - a.k,
      (a, b) => (a.k % 3) - (b.k % 3),
      () => 0,
      (a, b) => (a.k === b.k ? 0 : a.k < b.k ? -Infinity : 1e-9),
    ][mode];
    const q = new PriorityQueue(compare);
    let bag = [];
    c.log('compare', mode);
    const check = (x, op) => {
      if (bag.length === 0) return c.ok(x === undefined, `${op} of an empty queue returned ${h.show(x)}`);
      c.ok(x !== undefined, `${op} returned nothing although ${bag.length} elements are held`);
      c.ok(bag.includes(x), `${op} returned ${h.show(x)}, which is not held`);
      for (const y of bag) c.ok(compare(y, x) >= 0, `${op} returned ${h.show(x)} although ${h.show(y)} precedes it`);
    };
    const pool = [];
    const range = c.pick([2, 5, 50, 1000]);
    const bias = c.int(4);
    const n = 5 + c.int(60);
    for (let i = 0; i < n; i++) {
      const op = c.int(8);
      if (op < 3 + bias) {
        const x = pool.length && c.bool(6) ? c.pick(pool) : { k: c.int(range), i };
        pool.push(x);
        q.enqueue(x);
        bag.push(x);
        c.log('+', x.k);
      } else if (op < 7) {
        const x = q.dequeue();
        c.log('-', x?.k);
        check(x, 'dequeue');
        if (x !== undefined) bag.splice(bag.indexOf(x), 1);
      } else {
        const x = q.peek();
        check(x, 'peek');
        c.ok(q.peek() === x, 'peek changed the queue');
      }
    }
    while (bag.length > 0) {
      const p = q.peek();
      check(p, 'peek');
      const x = q.dequeue();
      check(x, 'dequeue');
      bag.splice(bag.indexOf(x), 1);
    }
    check(q.dequeue(), 'dequeue');
    check(q.peek(), 'peek');
  }, { bound: 'up to 65 operations' });
}
