// Nothing is built ahead of the checks: this only verifies that the tools the
// checks need are there.
import fs from 'node:fs';
import { spawnSync } from 'node:child_process';
for (const f of ['/opt/veriftools/node/node_modules/.bin/esbuild', '/opt/veriftools/node/node_modules/typescript/package.json']) {
  if (!fs.existsSync(f)) throw new Error(`${f} is missing`);
}
for (const s of ['z3-new', 'z3', 'cvc5']) {
  const r = spawnSync(s, ['--version'], { encoding: 'utf8' });
  console.log(`${s}: ${r.status === 0 ? r.stdout.split('\n')[0] : 'not available'}`);
}
