// Rewrites the list of section 4 of DESIGN.md from properties.jsonl and checks.json.
import fs from 'node:fs';
const root = new URL('..', import.meta.url).pathname;
const checks = JSON.parse(fs.readFileSync(`${root}checks.json`, 'utf8'));
const props = fs.readFileSync(`${root}properties.jsonl`, 'utf8').trim().split('\n').map((l) => JSON.parse(l));
const md = fs.readFileSync(`${root}DESIGN.md`, 'utf8');
const list = props.map((p) => {
  const c = checks[p.id];
  return `* **${p.id} ${p.title}** — level \`${c.level}\`. ${c.how ? `${c.how} ` : ''}${c.note}`;
}).join('\n');
fs.writeFileSync(`${root}DESIGN.md`, md.replace(/(## 4\. Per property\n)[\s\S]*?(\n\nHarness oracles)/, (_, a, b) => a + list + b));
