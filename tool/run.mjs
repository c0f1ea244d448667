// Developer entry: node tool/run.mjs C01 [--only name] [-v] [--repo dir] [--dump dir]
import path from 'node:path';
import { runSuite } from './suite.mjs';
const a = process.argv.slice(2);
const opt = (n) => { const i = a.indexOf(n); return i < 0 ? undefined : a[i + 1]; };
const { default: suite } = await import(path.resolve(import.meta.dirname, `../contracts/${a[0]}.mjs`));
const r = await runSuite(suite, opt('--repo') ?? '/repo', { verbose: a.includes('-v'), only: opt('--only'), dump: opt('--dump'), t1: opt('--t1') ? Number(opt('--t1')) : undefined, t2: opt('--t1') ? Number(opt('--t1')) : undefined });
for (const f of r.failures) console.log(`FAIL ${f.fn}: ${f.name}\n     ${f.detail}`);
console.log(`${r.functions.length} functions, ${r.discharged}/${r.obligations} obligations, solver ${r.solverMs} ms, wall ${r.wallMs} ms`, r.backends, [...r.assumptions], 'inlined', [...r.inlined].join(' '));
