// Bounded stand-in for C14: sequences of listeners in event holes.
import { HostAdapter } from './host.mjs';

let serial = 0;
const controllers = []; // whose signals remove listeners
const active = (l) => l !== null && !l.options.signal?.aborted;
function listener(c, calls) {
  const id = serial++;
  const options = {};
  if (c.bool()) options.capture = c.bool();
  if (c.bool(3)) options.passive = c.bool();
  if (c.bool(3)) {
    if (controllers.length > 4) controllers.length = 0;
    if (controllers.length === 0 || c.bool()) controllers.push(new window.AbortController());
    const ac = c.pick(controllers);
    options.signal = ac.signal;
  }
  const hit = (e, self) => { calls.push({ id, event: e, phase: e.eventPhase, self }); e.preventDefault(); };
  if (c.bool()) {
    const f = function (e) { hit(e, undefined); };
    return { id, value: Object.assign(f, options), options, self: undefined };
  }
  const o = { ...options, handleEvent(e) { hit(e, this); } };
  return { id, value: o, options, self: o };
}
const NONE = [null, undefined];
const BAD = [0, 1, 'f', true, {}, [], { handleEvent: 1 }, Symbol.iterator, 10n];
export default async function (h) {
  await h.cases('holes', 500, async (c) => {
    controllers.length = 0;
    const { Runtime, DOMRoot, html } = c.B;
    const host = document.createElement('div');
    const root = new DOMRoot(host, new Runtime(new HostAdapter(c)));
    const calls = [];
    const types = ['click', 'fooBar'];
    let current = [null, null, null];
    let e, inner;
    const fire = (type) => {
      const ev = new window.Event(type, { bubbles: true, cancelable: true });
      calls.length = 0;
      inner.dispatchEvent(ev);
      // Outer and inner listeners: capturing ones of the outer element come first.
      const [a, b, d] = current.map((l) => (active(l) ? l : null));
      const outer = type === 'click' ? a : null;
      const own = type === 'click' ? d : null;
      const order = [];
      if (outer?.options.capture) order.push([outer, 1]);
      if (own) order.push([own, 2]);
      if (outer && !outer.options.capture) order.push([outer, 3]);
      if (type === 'fooBar' && b) order.push([b, b.options.capture ? 1 : 3]);
      c.eq(calls.map((x) => [x.id, x.phase]), order.map(([l, p]) => [l.id, p]), `the listeners called for ${type}`);
      calls.forEach((x, i) => c.ok(x.event === ev && x.self === order[i][0].self, 'a listener is called with something else'));
      c.ok(ev.defaultPrevented === order.some(([l]) => !l.options.passive), 'the passive option is not respected');
    };
    const next = (old) => {
      switch (c.int(5)) {
        case 0: return null;
        case 1: return old;
        default: return listener(c, calls);
      }
    };
    const pool = [];
    for (let i = 2 + c.int(7); i > 0; i--) {
      current = current.map((o) => {
        const l = pool.length && c.bool(4) ? c.pick(pool) : next(o);
        if (l) pool.push(l);
        return l;
      });
      c.log(current.map((l) => (l ? `${l.id}${JSON.stringify({ ...l.options, signal: controllers.findIndex((x) => x.signal === l.options.signal) })}${l.self ? 'o' : ''}` : null)));
      const v = current.map((l) => (l ? l.value : c.pick(NONE)));
      await root.render(html`<p @click=${v[0]} @fooBar=${v[1]}><b @click=${v[2]}>x</b></p>`, { flushSync: true }).finished;
      c.ok(e === undefined || e === host.firstElementChild, 'the element is not kept');
      e = host.firstElementChild;
      inner = e.firstElementChild;
      fire('click');
      fire('fooBar');
      if (controllers.length > 0 && c.bool(4)) { c.log('abort'); c.pick(controllers).abort(); fire('click'); fire('fooBar'); }
      if (c.bool(3)) fire('click');
    }
    await root.unmount({ flushSync: true }).finished;
    current = [null, null, null];
    fire('click');
    fire('fooBar');
  }, { bound: 'three holes, up to 8 renders' });

  await h.cases('rejected', 200, async (c) => {
    controllers.length = 0;
    const e = document.createElement('p');
    const p = new c.B.domPart.EventPart(e, 'x');
    const calls = [];
    let last = null;
    let prev;
    for (let i = 3 + c.int(6), first = true; i > 0; i--) {
      const bad = c.bool(3);
      const l = bad ? null : c.bool(4) ? null : listener(c, calls);
      const v = bad ? c.pick(BAD) : l ? l.value : c.pick(NONE);
      c.log(bad ? `bad ${h.show(v)}` : l ? l.id : 'none');
      const commit = () => (first ? p.commitMount(v) : p.commitUpdate(prev, v));
      if (bad) c.throws(commit, 'a value that is no listener');
      else { commit(); last = l; prev = v; first = false; }
      calls.length = 0;
      e.dispatchEvent(new window.Event('x'));
      c.eq(calls.map((x) => x.id), last ? [last.id] : [], 'the listeners called');
    }
    p.commitUnmount(prev, c.bool());
    calls.length = 0;
    e.dispatchEvent(new window.Event('x'));
    c.eq(calls, [], 'the listeners called after unmounting');
    // And it can be mounted again.
    const l = listener(c, calls);
    p.commitMount(l.value);
    e.dispatchEvent(new window.Event('x'));
    c.eq(calls.map((x) => x.id), [l.id], 'the listeners called after mounting again');
  }, { bound: 'up to 8 values' });

  // A value that is no listener fails the render, the previous one stays.
  await h.cases('rejected renders', 60, async (c) => {
    controllers.length = 0;
    const { Runtime, DOMRoot, html } = c.B;
    const host = document.createElement('div');
    const root = new DOMRoot(host, new Runtime(new HostAdapter(c)));
    const calls = [];
    const l = c.bool(4) ? null : listener(c, calls);
    const t = (v) => html`<p @x=${v}></p>`;
    await root.render(t(l?.value), { flushSync: true }).finished;
    const bad = c.pick(BAD.filter((b) => !Array.isArray(b)));
    c.log(l?.id, h.show(bad));
    let failed = false;
    try { await root.render(t(bad), { flushSync: true }).finished; } catch { failed = true; }
    c.ok(failed, `${h.show(bad)} is accepted as a listener`);
    host.firstElementChild.dispatchEvent(new window.Event('x'));
    c.eq(calls.map((x) => x.id), l ? [l.id] : [], 'the listeners called');
  }, { bound: 'one listener, one other value' });

  // Listeners of components and of elements exchanged for others.
  await h.cases('components', 150, async (c) => {
    controllers.length = 0;
    const { Runtime, DOMRoot, html, createComponent, createFragment } = c.B;
    const host = document.createElement('div');
    const root = new DOMRoot(host, new Runtime(new HostAdapter(c)));
    const calls = [];
    const Row = createComponent(function Row({ l, n }) { return html`<i id=${n} @x=${l?.value}></i>`; });
    let rows = [];
    const gone = new Map();
    for (let i = 2 + c.int(5); i > 0; i--) {
      const old = new Map([...host.querySelectorAll('i')].map((e) => [e, 1]));
      rows = c.shuffle(['a', 'b', 'c', 'd']).slice(0, c.int(5)).map((k) => ({ k, l: c.bool(4) ? null : listener(c, calls) }));
      c.log(rows.map((r) => [r.k, r.l?.id]));
      await root.render(html`<u><${createFragment(rows.map((r) => Row({ l: r.l, n: r.k }).withKey(r.k)))}></u>`, { flushSync: true }).finished;
      for (const e of host.querySelectorAll('i')) old.delete(e);
      for (const e of old.keys()) gone.set(e, 1);
      for (const r of rows) {
        calls.length = 0;
        host.querySelector(`#${r.k}`).dispatchEvent(new window.Event('x'));
        c.eq(calls.map((x) => x.id), r.l ? [r.l.id] : [], `the listeners of ${r.k}`);
      }
      calls.length = 0;
      for (const e of gone.keys()) e.dispatchEvent(new window.Event('x'));
      c.eq(calls, [], 'the listeners of removed elements');
    }
  }, { bound: 'up to 4 rows, 6 renders' });
}
