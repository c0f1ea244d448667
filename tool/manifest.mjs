// Writes MANIFEST.json from checks.json and properties.jsonl.
import fs from 'node:fs';
import path from 'node:path';
const V = path.resolve(import.meta.dirname, '..');
const checks = JSON.parse(fs.readFileSync(path.join(V, 'checks.json'), 'utf8'));
const ids = fs.readFileSync(path.join(V, 'properties.jsonl'), 'utf8').trim().split('\n').map((l) => JSON.parse(l).id);
const TECH = {
  proof: 'contract-based deductive verification: contracts on the functions of /repo/src, obligations generated from the current source and discharged by z3/cvc5',
  other: 'contract-based deductive verification of the functions listed in the evidence (obligations discharged by z3/cvc5), with labelled bounded stand-ins for the functions out of the verifier’s reach',
  exploration: 'bounded stand-in (labelled) for contracts: randomised histories on the real code against an independent oracle',
};
const m = {
  version: 1,
  setup_cmd: 'node tool/setup.mjs',
  checks: [],
  not_applicable: [],
  notes: 'Every check re-extracts the functions from /repo/src and re-bundles it on every run. tool/check.mjs <ID> --replay <file> replays a failing input.',
};
for (const id of ids) {
  const c = checks[id];
  if (!c) continue;
  if (c.not_applicable) {
    m.not_applicable.push({ property: id, reason: c.not_applicable });
    continue;
  }
  m.checks.push({ property: id, quick_cmd: `node tool/check.mjs ${id} --quick`, thorough_cmd: `node tool/check.mjs ${id} --thorough`, technique: c.technique ?? TECH[c.level], level: c.level, level_note: c.note });
}
fs.writeFileSync(path.join(V, 'MANIFEST.json'), JSON.stringify(m, null, 2) + '\n');
console.log(`${m.checks.length} checks, ${m.not_applicable.length} not applicable`);
