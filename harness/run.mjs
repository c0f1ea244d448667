// Runs the bounded checks of one property against bundles of the real code.
//   node harness/run.mjs <ID> <spec.json>
// spec: {debug, prod: bundle paths, out: result file, seed, tier, scale, only?: {suite, index}, deadline: ms}
import fs from 'node:fs';
import path from 'node:path';
import './env.mjs';
import { AsyncLocalStorage } from 'node:async_hooks';

const [id, specFile] = process.argv.slice(2);
const spec = JSON.parse(fs.readFileSync(specFile, 'utf8'));
const quiet = () => {};
console.warn = console.error = console.debug = quiet;
const [D, P] = await Promise.all([import(spec.debug), import(spec.prod)]);
const { default: property } = await import(path.resolve(import.meta.dirname, `${id}.mjs`));

const result = { suites: [], violations: [], known: [], evaluations: 0, distinct: 0, samples: [], done: false };
const started = Date.now();
const { setTimeout: later, clearTimeout: cancelLater } = globalThis;
const flush = () => fs.writeFileSync(spec.out, JSON.stringify(result));
const strHash = (s) => {
  let h = 0x811c9dc5;
  for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 0x01000193);
  return h >>> 0;
};

export class Case {
  constructor(seed, B, debug) {
    this.seed = seed | 0;
    this.B = B;
    this.debug = debug;
    this.lines = [];
    this.async = [];
  }
  int(n) {
    this.seed = (this.seed + 0x9e3779b9) | 0;
    let t = this.seed ^ (this.seed >>> 16);
    t = Math.imul(t, 0x21f0aaad);
    t ^= t >>> 15;
    t = Math.imul(t, 0x735a2d97);
    t ^= t >>> 15;
    return (t >>> 0) % n;
  }
  bool(n = 2) {
    return this.int(n) === 0;
  }
  pick(a) {
    return a[this.int(a.length)];
  }
  shuffle(a) {
    a = [...a];
    for (let i = a.length - 1; i > 0; i--) {
      const j = this.int(i + 1);
      [a[i], a[j]] = [a[j], a[i]];
    }
    return a;
  }
  sub(a) {
    return a.filter(() => this.bool());
  }
  log(...a) {
    this.lines.push(a.map((x) => (typeof x === 'string' ? x : show(x))).join(' '));
  }
  fail(msg) {
    throw new Violation(msg);
  }
  ok(c, msg) {
    if (!c) throw new Violation(typeof msg === 'function' ? msg() : msg);
  }
  eq(got, want, msg) {
    if (!same(got, want)) throw new Violation(`${msg}: got ${show(got)}, expected ${show(want)}`);
  }
  throws(f, msg, type) {
    try {
      f();
    } catch (e) {
      if (e instanceof Violation) throw e;
      if (type && !(e instanceof type) && e?.name !== type.name) throw new Violation(`${msg}: threw ${show(e)}`);
      return e;
    }
    throw new Violation(`${msg}: nothing was thrown`);
  }
}
class Violation extends Error {}
export function show(v, d = 0) {
  if (typeof v === 'string') return JSON.stringify(v);
  if (Object.is(v, -0)) return '-0';
  if (typeof v === 'function') return `function ${v.name}`;
  if (typeof v === 'symbol') return String(v);
  if (typeof v === 'bigint') return `${v}n`;
  if (v instanceof Error) return `${v.name}: ${v.message}${v.cause ? ` (cause: ${show(v.cause)})` : ''}`;
  if (v === null || typeof v !== 'object') return String(v);
  if (d > 4) return '...';
  if (v.nodeType) return `<${v.nodeName} ${v.outerHTML ?? v.data ?? ''}>`;
  if (Array.isArray(v)) return '[' + Array.from(v, (x) => show(x, d + 1)).join(', ') + ']';
  if (v instanceof Set) return 'Set' + show([...v], d);
  if (v instanceof Map) return 'Map' + show([...v], d);
  return '{' + Reflect.ownKeys(v).map((k) => { let x; try { x = show(v[k], d + 1); } catch { x = '?'; } return `${String(k)}: ${x}`; }).join(', ') + '}';
}
// Structural equality of plain data; everything else by Object.is.
export function same(a, b) {
  if (Object.is(a, b)) return true;
  if (typeof a !== 'object' || typeof b !== 'object' || a === null || b === null) return false;
  const pa = Object.getPrototypeOf(a);
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (!Array.isArray(a) && pa !== Object.prototype && pa !== null) return false;
  const ka = Reflect.ownKeys(a), kb = Reflect.ownKeys(b);
  return ka.length === kb.length && ka.every((k) => Object.hasOwn(b, k) && same(a[k], b[k]));
}
export const tick = () => new Promise((r) => setImmediate(r));
export const settle = async (n = 4) => {
  for (let i = 0; i < n; i++) await tick();
};

const als = new AsyncLocalStorage();
let current = null;
process.on('unhandledRejection', (e) => {
  (als.getStore() ?? current)?.async.push(e);
});
process.on('uncaughtException', (e) => {
  (als.getStore() ?? current)?.async.push(e);
});
window.addEventListener('error', (e) => {
  current?.async.push(e.error ?? new Error(e.message));
  e.preventDefault();
});

const seen = new Set();
const api = {
  B: P,
  D,
  tier: spec.tier,
  show,
  same,
  tick,
  settle,
  /** Runs `fn(case)` for `quick` (scaled for thorough runs) random cases. */
  async cases(suite, quick, fn, { thorough, fixed = false, asyncErrors = true, bound = '' } = {}) {
    const n = spec.tier === 'thorough' ? (thorough ?? (fixed ? quick : quick * 20)) : quick;
    const total = fixed ? quick : Math.ceil(n * (spec.scale ?? 1));
    const rec = { suite, cases: 0, planned: total, bound };
    result.suites.push(rec);
    const from = spec.only ? spec.only.index : 0;
    if (spec.only && spec.only.suite !== suite) return;
    for (let i = from; i < total || spec.only; i++) {
      if (Date.now() - started > spec.deadline) {
        rec.truncated = true;
        break;
      }
      const debug = i % 2 === 0;
      const c = new Case(strHash(`${spec.seed}/${suite}/${i}`), debug ? D : P, debug);
      c.index = i;
      current = c;
      result.current = { suite, index: i };
      if (i % 8 === 0) flush();
      let failure = null;
      try {
        const run = als.run(c, () => fn(c, i));
        if (run && typeof run.then === 'function') {
          let timer;
          await Promise.race([
            run,
            new Promise((_, j) => {
              timer = later(() => j(new Violation('did not finish within 20 s')), 20000);
            }),
          ]).finally(() => cancelLater(timer));
        }
        if (asyncErrors && c.async.length > 0) throw c.async[0];
      } catch (e) {
        failure = e;
      }
      rec.cases++;
      result.evaluations++;
      const text = c.lines.join('\n');
      seen.add(strHash(suite + text + (c.lines.length ? '' : i)));
      if (result.samples.length < 12 && rec.cases <= 2) result.samples.push(`${suite}#${i}: ${text.slice(0, 300)}`);
      if (failure !== null) {
        const what = failure instanceof Violation ? failure.message : `unexpected ${show(failure)}\n${String(failure?.stack ?? '').split('\n').slice(0, 6).join('\n')}`;
        const v = { suite, index: i, seed: spec.seed, debugBuild: debug, what: what.slice(0, 4000), history: c.lines.slice(-200) };
        if (c.known) {
          result.known.push({ ...v, id: c.known });
        } else {
          result.violations.push(v);
          break; // one failing input per suite
        }
      }
      if (spec.only) break;
    }
    flush();
  },
};
await property(api);
result.distinct = seen.size;
result.done = true;
delete result.current;
flush();
process.exit(0);
