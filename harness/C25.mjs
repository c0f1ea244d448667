// Bounded stand-in for C25: roots, parts of the tree and portals.
import { HostAdapter, norm } from './host.mjs';
export default async function (h) {
  const mkWorld = (c) => {
    const B = c.B;
    const { createComponent, html } = B;
    const w = { mounts: [], live: new Set() };
    w.C = createComponent(function C({ n, v, child }) {
      const id = this.useMemo(() => ({ n, disconnects: 0 }), []);
      this.useEffect(() => {
        if (id.mounted) c.fail(`${n} connected twice`);
        id.mounted = true;
        w.live.add(id);
        w.mounts.push(id);
        return () => { id.disconnects++; w.live.delete(id); };
      }, []);
      return html`<i class="c">${n}:${v}</i><${child}>`;
    });
    return w;
  };
  await h.cases('roots', 400, async (c) => {
    const { Runtime, DOMRoot, html, createFragment } = c.B;
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    const container = document.createElement('div');
    container.innerHTML = c.pick(['', '<b>foreign</b>', '<b>1</b><!--x-->text']);
    const foreign = [...container.childNodes];
    const w = mkWorld(c);
    const root = new DOMRoot(container, rt);
    const second = c.bool(3) ? new DOMRoot(container, rt) : null;
    if (second) await second.render(html`<em>other root</em>`, { flushSync: true }).finished;
    const extra = [...container.childNodes].filter((n) => !foreign.includes(n));
    const gen = () => c.pick([
      () => ({ el: w.C({ n: 'a', v: 1 }), out: '<i class="c">a:1</i>', comps: 1 }),
      () => ({ el: html`<p>${'x'}</p>`, out: '<p>x</p>', comps: 0 }),
      () => ({ el: createFragment([w.C({ n: 'b', v: 2 }), html`<hr>`, w.C({ n: 'c', v: 3, child: html`<u></u>` })]), out: '<i class="c">b:2</i><hr><i class="c">c:3</i><u></u>', comps: 2 }),
      () => ({ el: createFragment([]), out: '', comps: 0 }),
      () => ({ el: html`<${html`<s></s>`}>`, out: '<s></s>', comps: 0 }),
      () => ({ el: html`<${createFragment([w.C({ n: 'd', v: 1, child: w.C({ n: 'e', v: 2 }) })])}><br>`, out: '<i class="c">d:1</i><i class="c">e:2</i><br>', comps: 2 }),
    ])();
    const nothing = { out: '', comps: 0 };
    let now = nothing;
    for (let r = 0; r < 8; r++) {
      const ops = 1 + c.int(3);
      // All with one priority, so that they are processed in order; batched or not.
      const o = c.pick([{ flushSync: true }, { priority: 'user-visible' }]);
      for (let i = 0; i < ops; i++) {
        const unmount = c.int(3) === 0;
        if (unmount) { c.log('unmount', o); root.unmount(o).finished.catch((e) => c.async.push(e)); now = nothing; }
        else { now = gen(); c.log('render', now.out, o); root.render(now.el, o).finished.catch((e) => c.async.push(e)); }
        if (c.bool()) await ad.drain();
      }
      await ad.drain();
      const html_ = norm([...container.childNodes].filter((n) => !foreign.includes(n) && !extra.includes(n)).map((n) => n.outerHTML ?? (n.nodeType === 3 ? n.data : '')).join(''));
      c.eq(html_, now.out, 'content of the root');
      for (const n of [...foreign, ...extra]) c.ok(n.parentNode === container, 'a foreign node was removed');
      c.eq(foreign.length ? [...container.childNodes].filter((n) => foreign.includes(n)).length : 0, foreign.length, 'foreign nodes');
      c.eq(w.live.size, now.comps, 'connected components');
      for (const id of w.mounts) c.ok(id.disconnects === (w.live.has(id) ? 0 : 1), `${id.n} was disconnected ${id.disconnects} times`);
      if (now === nothing) c.eq([...container.childNodes].filter((n) => !foreign.includes(n) && !extra.includes(n)).length, 0, 'nodes left after unmounting');
    }
    // Starting from scratch: state and nodes of before are not reused.
    await root.render(w.C({ n: 'z', v: 0 }), { flushSync: true }).finished;
    const before = container.querySelector('i.c'), count = w.mounts.length;
    root.unmount({ flushSync: true });
    await root.render(w.C({ n: 'z', v: 0 }), { flushSync: true }).finished;
    await ad.drain();
    c.ok(container.querySelector('i.c') !== before && !container.contains(before), 'the node survived unmounting');
    c.eq(w.mounts.length, count + 1, 'components connected after unmounting');
  }, { bound: '8 rounds of up to 3 operations' });

  await h.cases('portals', 400, async (c) => {
    const { Runtime, DOMRoot, html, createFragment, createPortal } = c.B;
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    const container = document.createElement('div');
    const targets = [0, 1].map((i) => { const e = document.createElement('section'); e.innerHTML = c.pick(['', '<b>foreign</b>']); return e; });
    const foreign = targets.map((t) => [...t.childNodes]);
    const w = mkWorld(c);
    const root = new DOMRoot(container, rt);
    const child = (d) => c.pick([
      () => ({ el: () => html`<p>${'q'}</p>`, out: '<p>q</p>', comps: 0 }),
      () => { const v = c.int(3); return { el: () => w.C({ n: 'a', v }), out: `<i class="c">a:${v}</i>`, comps: 1 }; },
      () => ({ el: () => createFragment([]), out: '', comps: 0 }),
      () => { const ks = c.shuffle(c.sub([1, 2, 3])); return { el: () => createFragment(ks.map((k) => w.C({ n: `k${k}`, v: 0 }).withKey(k))), out: ks.map((k) => `<i class="c">k${k}:0</i>`).join(''), comps: ks.length }; },
      () => { const ks = c.shuffle(c.sub([1, 2, 3, 4])); return { el: () => createFragment(ks.map((k) => html`<u>${k}</u><s></s>`.withKey(k))), out: ks.map((k) => `<u>${k}</u><s></s>`).join(''), comps: 0 }; },
    ])();
    let shape = c.int(3);
    const memo = new Map();
    for (let r = 0; r < 7; r++) {
      if (c.bool(3)) shape = c.int(4);
      const a = c.bool(8) ? null : { at: c.int(2), ...child() };
      const b = shape === 1 ? { at: 1 - (a?.at ?? 0), ...child() } : null;
      const pa = a && createPortal(a.el(), targets[a.at]), pb = b && createPortal(b.el(), targets[b.at]);
      let el, out;
      if (shape === 0) { el = html`<div><${pa}><hr></div>`; out = '<div><hr></div>'; }
      else if (shape === 1) { el = createFragment([pa, html`<br>`, pb].filter((x) => x !== null).map((x, i) => x.withKey(x === pa ? 'a' : x === pb ? 'b' : 'm'))); out = '<br>'; if (c.bool()) el = createFragment(el.children.toReversed()); }
      else if (shape === 2) { el = pa ?? createFragment([]); out = ''; }
      else { el = w.C({ n: 'host', v: 0, child: pa }); out = '<i class="c">host:0</i>'; }
      c.log('render', shape, a && [a.at, a.out], b && [b.at, b.out]);
      const useA = a !== null;
      root.render(el, { flushSync: true }).finished.catch((e) => c.async.push(e));
      await ad.drain();
      c.eq(norm(container.innerHTML), out, 'content of the container');
      targets.forEach((t, i) => {
        const own = [...t.childNodes].filter((n) => !foreign[i].includes(n)).map((n) => n.outerHTML ?? (n.nodeType === 3 ? n.data : '')).join('');
        const want = [useA && a.at === i ? a.out : '', b && b.at === i ? b.out : ''].join('');
        c.eq(norm(own), want, `content of portal target ${i}`);
        c.ok(foreign[i].every((n) => n.parentNode === t), 'a foreign node of the target was removed');
      });
      c.eq(w.live.size, (a?.comps ?? 0) + (b?.comps ?? 0) + (shape === 3 ? 1 : 0), 'connected components');
      for (const id of w.mounts) c.ok(id.disconnects === (w.live.has(id) ? 0 : 1), `${id.n} was disconnected ${id.disconnects} times`);
    }
    await root.unmount({ flushSync: true }).finished;
    targets.forEach((t, i) => c.eq([...t.childNodes].filter((n) => n.nodeType !== 8).length, foreign[i].length, `nodes left in portal target ${i}`));
    c.eq(container.childNodes.length, 0, 'nodes left in the container');
    c.eq(w.live.size, 0, 'components left');
  }, { bound: '7 renders, 2 targets' });

  // The last of several renders of one root decides.
  await h.cases('last render', 150, async (c) => {
    const { Runtime, DOMRoot, html, createFragment } = c.B;
    const ad = new HostAdapter(c);
    const rt = new Runtime(ad);
    const container = document.createElement('div');
    const root = new DOMRoot(container, rt);
    const o = c.pick([{ priority: 'background' }, { priority: 'user-blocking' }, {}, { transition: 3 }, { delay: 3 }]);
    let want = '';
    for (let r = 0; r < 3; r++) {
      const n = 1 + c.int(4);
      for (let i = 0; i < n; i++) {
        const ks = c.shuffle(c.sub(['a', 'b', 'c']));
        want = ks.map((k) => `<p>${k}${r}${i}</p>`).join('');
        c.log(want);
        root.render(createFragment(ks.map((k) => html`<p>${k + r + i}</p>`.withKey(k))), o).finished.catch((e) => c.async.push(e));
        if (c.bool(4)) ad.run();
        if (c.bool(4)) await h.tick();
      }
      await ad.drain();
      c.eq(norm(container.innerHTML), want, 'content');
    }
  });
}
