// The check of one property: node tool/check.mjs <ID> [--quick|--thorough]
// [--repo dir] [--replay file] [--no-proof] [--no-harness]
//
// 1. extracts the functions under contract from /repo's current source,
//    generates every obligation and has the solvers discharge them;
// 2. runs the bounded stand-ins of the property against a bundle of the same
//    source (also the search for a concrete failing input when an obligation
//    fails);
// 3. writes evidence/<ID>.json and reports.
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { spawn, spawnSync } from 'node:child_process';
import { runSuite } from './suite.mjs';

const VERIF = path.resolve(import.meta.dirname, '..');
const argv = process.argv.slice(2);
const id = argv[0];
const opt = (n) => {
  const i = argv.indexOf(n);
  return i < 0 ? undefined : argv[i + 1];
};
const repo = opt('--repo') ?? '/repo';
const tier = argv.includes('--thorough') ? 'thorough' : argv.includes('--quick') ? 'quick' : (process.env.VERIF_TIER ?? 'quick');
const seed = Number(process.env.VERIF_SEED ?? 1);
const NODE = ['/opt/node/node_modules/.bin/node', '/opt/node/bin/node'].find((f) => fs.existsSync(f)) ?? 'node';
const ESBUILD = '/opt/veriftools/node/node_modules/.bin/esbuild';
const t0 = Date.now();
const meta = JSON.parse(fs.readFileSync(path.join(VERIF, 'checks.json'), 'utf8'))[id];
if (!meta) {
  console.error(`unknown property ${id}`);
  process.exit(2);
}
const evidenceDir = path.join(VERIF, 'evidence');
const replayDir = path.join(evidenceDir, 'replay');
fs.mkdirSync(replayDir, { recursive: true });
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), `barebind-${id}-`));
process.on('exit', () => fs.rmSync(tmp, { recursive: true, force: true }));

// ---------------------------------------------------------------- the bundle
const MODULES = {
  '': 'index', base: 'base', commit: 'commit', compare: 'compare', component: 'component', debugMod: 'debug', error: 'error', lane: 'lane', queue: 'queue', runtime: 'runtime', velement: 'velement',
  domAdapter: 'dom/adapter', domBlock: 'dom/block', domPart: 'dom/part', domRoot: 'dom/root', domTemplate: 'dom/template', domError: 'dom/error',
  hooks: 'addons/hooks', router: 'addons/router', signal: 'addons/signal', linkedList: 'addons/signal/linked-list', signalMod: 'addons/signal/signal', derivable: 'addons/signal/derivable',
  logger: 'addons/update-logger', profiler: 'addons/update-profiler',
};
function bundle(which) {
  const lines = [];
  for (const [ns, f] of Object.entries(MODULES)) {
    const p = path.join(repo, 'src', f + '.ts');
    if (!fs.existsSync(p)) continue;
    lines.push(ns === '' ? `export * from ${JSON.stringify(p)};` : `export * as ${ns} from ${JSON.stringify(p)};`);
  }
  const entry = path.join(tmp, 'entry.ts');
  fs.writeFileSync(entry, lines.join('\n'));
  const out = path.join(tmp, `${which}.mjs`);
  const r = spawnSync(ESBUILD, [entry, '--bundle', '--format=esm', '--target=esnext', '--log-level=error', `--outfile=${out}`, ...(which === 'prod' ? ['--drop-labels=DEBUG'] : [])], { encoding: 'utf8' });
  if (r.status !== 0) throw new Error(`the source does not bundle: ${r.stderr.slice(0, 2000)}`);
  return out;
}
function runHarness({ scale = 1, deadline, only }) {
  return new Promise((resolve) => {
    const spec = { debug: path.join(tmp, 'debug.mjs'), prod: path.join(tmp, 'prod.mjs'), out: path.join(tmp, `out-${Math.random().toString(36).slice(2)}.json`), seed, tier, scale, deadline, only };
    const specFile = spec.out + '.spec';
    fs.writeFileSync(specFile, JSON.stringify(spec));
    const child = spawn(NODE, ['--max-old-space-size=4096', path.join(VERIF, 'harness/run.mjs'), id, specFile], { stdio: ['ignore', 'ignore', 'pipe'], env: { ...process.env, VERIF_REPO: repo } });
    let err = '';
    child.stderr.on('data', (d) => {
      err = (err + d).slice(-4000);
    });
    let killed = false;
    const timer = setTimeout(() => {
      killed = true;
      child.kill('SIGKILL');
    }, deadline + 45000);
    child.on('close', (code) => {
      clearTimeout(timer);
      let r = { suites: [], violations: [], known: [], evaluations: 0, distinct: 0, samples: [] };
      try {
        r = JSON.parse(fs.readFileSync(spec.out, 'utf8'));
      } catch {}
      if (!r.done && r.violations.length === 0) {
        if (r.current) {
          r.violations.push({ ...r.current, seed, what: killed ? 'the code under test did not terminate' : `the run ended abnormally (${code})`, history: [err] });
        } else {
          r.broken = err || `exit ${code}`;
        }
      }
      resolve(r);
    });
  });
}

const harnessFile = path.join(VERIF, `harness/${id}.mjs`);
const contractFile = path.join(VERIF, `contracts/${id}.mjs`);
const hasHarness = fs.existsSync(harnessFile) && !argv.includes('--no-harness');
const hasProof = fs.existsSync(contractFile) && !argv.includes('--no-proof');

let bundleError = null;
if (hasHarness) {
  try {
    bundle('debug');
    bundle('prod');
  } catch (e) {
    bundleError = String(e.message);
  }
}
if (opt('--replay')) {
  const f = JSON.parse(fs.readFileSync(opt('--replay'), 'utf8'));
  const r = f.suite ? await runHarness({ deadline: 60000, only: { suite: f.suite, index: f.index } }) : null;
  console.log(JSON.stringify(r ?? f, null, 2));
  process.exit(r && r.violations.length === 0 ? 0 : 1);
}

const harnessP = hasHarness && !bundleError ? runHarness({ deadline: tier === 'thorough' ? 600000 : 90000 }) : Promise.resolve(null);
let proof = null;
if (hasProof) {
  const { default: suite } = await import(contractFile);
  proof = await runSuite(suite, repo, { ...(tier === 'thorough' ? { t1: 20, t2: 60 } : {}) });
}
let harness = await harnessP;
// A failed obligation gives no input by itself: search longer for one.
if (proof && proof.failures.length > 0 && harness && harness.violations.length === 0) {
  const again = await runHarness({ scale: 6, deadline: 120000 });
  again.evaluations += harness.evaluations;
  harness = again;
}

// ------------------------------------------------------------------ findings
const findings = [];
const findingsFile = path.join(VERIF, 'known-findings.txt');
for (const line of fs.existsSync(findingsFile) ? fs.readFileSync(findingsFile, 'utf8').split('\n') : []) {
  const m = line.match(/^known: property=(\S+) id=(\S+) (.*)$/);
  if (m && m[1] === id) findings.push({ id: m[2], what: m[3] });
}
const violations = [];
const reported = new Set();
for (const k of harness?.known ?? []) {
  const f = findings.find((f) => f.id === k.id);
  if (f) {
    if (!reported.has(f.id)) console.log(`KNOWN-FINDING: property=${id} ${f.what}`);
    reported.add(f.id);
  } else violations.push({ kind: 'input', ...k });
}
for (const v of harness?.violations ?? []) violations.push({ kind: 'input', ...v });
for (const f of proof?.failures ?? []) violations.push({ kind: 'obligation', ...f });
if (bundleError) violations.push({ kind: 'obligation', fn: '*', name: 'the source bundles', detail: bundleError });
if (harness?.broken) {
  // The machinery itself could not run; neither answer would be honest.
  console.error(`the harness of ${id} did not run: ${harness.broken}`);
  if (violations.length === 0) process.exit(3);
}

// ------------------------------------------------------------------ evidence
const obligations = proof?.obligations ?? 0;
const evidence = {
  property: id,
  tier,
  seed,
  level: meta.level,
  coverage: {
    ...(meta.level === 'other' ? { explanation: `Mixed: the functions listed under functions_under_contract are proved for all inputs (every obligation discharged on this run); the rest of the statement is checked on bounded histories only. ${meta.note}` } : {}),
    obligations,
    discharged: proof?.discharged ?? 0,
    checker_cmd: `node tool/check.mjs ${id} --${tier}`,
    functions_under_contract: proof?.functions.map((f) => ({ function: f.fn, obligations: f.obligations + f.trivial, terminates: f.terminates })) ?? [],
    inlined_functions: [...(proof?.inlined ?? [])],
    backends: proof?.backends ?? {},
    solver_ms: proof?.solverMs ?? 0,
    trusted_base: [
      ...TRUSTED(),
      ...(proof?.trusted ?? []).map((t) => `assumed contract ${t.contract}: ${t.why}`),
    ],
    evaluations: Math.max(1, harness?.evaluations ?? 0),
    distinct_nontrivial: harness?.distinct ?? 0,
    rule: meta.rule ?? 'distinct histories of operations generated by the bounded stand-ins (hash of the logged operations); these are bounded checks and no part of the proof',
    bounded: (harness?.suites ?? []).map((s) => ({ suite: s.suite, cases: s.cases, bound: s.bound, ...(s.truncated ? { truncated: true } : {}) })),
    samples: (harness?.samples ?? []).slice(0, 12),
  },
  assumptions: [...new Set([...(proof?.assumptions ?? []), ...(meta.assumptions ?? [])])],
  wall_s: (Date.now() - t0) / 1000,
  violations: violations.map((v) => (v.kind === 'input' ? `${v.suite}#${v.index}: ${v.what}`.slice(0, 500) : `${v.fn}: ${v.name}`)),
};
function TRUSTED() {
  return [
    'the obligation generator /verif/tool (front end over the TypeScript 5.9 compiler API, symbolic execution, encoding)',
    'z3 5.3.2 / 4.8.12 and cvc5 1.1.2',
    'DEBUG-labelled blocks are dropped from the verified text (production builds drop them)',
    'type annotations of the source (a value has its declared type)',
  ];
}
fs.writeFileSync(path.join(evidenceDir, `${id}.json`), JSON.stringify(evidence, null, 2) + '\n');

// ------------------------------------------------------------------- verdict
for (const f of fs.readdirSync(replayDir)) if (f.startsWith(`${id}-`)) fs.rmSync(path.join(replayDir, f));
const concrete = violations.filter((v) => v.kind === 'input');
const obl = violations.filter((v) => v.kind === 'obligation');
let n = 0;
for (const v of concrete.slice(0, 5)) {
  const f = path.join(replayDir, `${id}-${n++}.json`);
  fs.writeFileSync(f, JSON.stringify({ property: id, ...v, failed_obligations: obl.slice(0, 20).map((o) => `${o.fn}: ${o.name}`), replay_cmd: `node tool/check.mjs ${id} --replay ${f}` }, null, 2));
  console.log(`VIOLATION property=${id} replay=${f}`);
  console.log(`  ${v.suite}#${v.index}: ${String(v.what).split('\n')[0].slice(0, 300)}`);
}
for (const v of concrete.length > 0 ? [] : obl.slice(0, 5)) {
  const f = path.join(replayDir, `${id}-${n++}.json`);
  fs.writeFileSync(f, JSON.stringify({ property: id, function: v.fn, obligation: v.name, solver: v.detail, script: v.script }, null, 2));
  console.log(`  obligation not discharged: ${v.fn}: ${v.name} (${String(v.detail).slice(0, 200)})`);
  console.log(`VIOLATION property=${id} replay=${f} no-failing-input-found`);
}
if (concrete.length > 0) for (const v of obl.slice(0, 10)) console.log(`  obligation not discharged: ${v.fn}: ${v.name}`);
console.log(`${id} ${tier}: ${proof ? `${evidence.coverage.discharged}/${obligations} obligations of ${evidence.coverage.functions_under_contract.length} functions` : 'no contracts'}; ${evidence.coverage.evaluations} bounded evaluations; ${evidence.wall_s.toFixed(1)} s`);
process.exit(violations.length > 0 ? 1 : 0);
