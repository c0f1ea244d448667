// Runs the contract suite of one property.
import path from 'node:path';
import fs from 'node:fs';
import { Program, ts, SK } from './front.mjs';
import { Verifier, Unsupported } from './engine.mjs';
import { pool, discharge, runSolver } from './verify.mjs';

export async function runSuite(suite, repo, { jobs = 8, verbose = false, only, dump, t1, t2 } = {}) {
  const t0 = Date.now();
  const res = { functions: [], obligations: 0, discharged: 0, failures: [], solverMs: 0, trusted: [], assumptions: new Set(), backends: {}, inlined: new Set(), debugDropped: 0 };
  let prog;
  try {
    prog = new Program(repo);
  } catch (e) {
    res.failures.push({ fn: '*', name: 'front end', detail: String(e.message) });
    return res;
  }
  const jobsList = [];
  for (const unit of suite.units) {
    const contracts = new Map();
    for (const [k, c] of Object.entries(unit.contracts ?? {})) {
      contracts.set(k, { ...c, key: k });
    }
    const v = new Verifier(prog, contracts, unit.opts ?? {});
    const used = new Set();
    for (const [key, c] of contracts) {
      if (c.assumed || c.inline || c.abstract) continue;
      if (only && !key.includes(only)) continue;
      let r;
      v.usedContracts = new Set();
      try {
        r = v.verify(key);
      } catch (e) {
        if (!(e instanceof Unsupported) && process.env.VERIF_DEBUG) throw e;
        res.obligations++;
        res.failures.push({ fn: key, name: 'within the reach of the verifier', detail: e instanceof Unsupported ? e.message : String(e.stack ?? e) });
        continue;
      }
      for (const u of v.usedContracts) used.add(u);
      res.functions.push({ fn: key, obligations: r.obls.length, trivial: r.trivial, terminates: !v.noTermination });
      for (const o of r.obls) {
        let script;
        script = v.script(o.facts, o.goal);
        jobsList.push({ fn: key, name: o.name, kind: o.kind, script, opts: c.solve ?? unit.solve });
      }
      res.obligations += r.trivial;
      res.discharged += r.trivial;
      res.backends.syntactic = (res.backends.syntactic ?? 0) + r.trivial;
      for (const [g, cvs] of Object.entries(Object.groupBy(r.covers, (c) => c.group ?? ''))) jobsList.push({ fn: key, name: `contract is not vacuous${g && `: ${g}`}`, kind: 'cover', scripts: cvs.slice(0, 12).map((cv) => v.script(cv.facts, 'false')) });
    }
    for (const f of only ? [] : unit.closed ?? []) {
      // Every write of the field is in a function under contract here, or
      // inlined into one: the contracts account for all its changes.
      res.obligations++;
      const bad = outsideWrites(prog, f, contracts, v.inlined);
      if (bad.length === 0) { res.discharged++; res.backends.syntactic = (res.backends.syntactic ?? 0) + 1; }
      else res.failures.push({ fn: '*', name: `only functions under contract write ${f}`, kind: 'closed', detail: bad.join(', ') });
    }
    for (const [key, c] of contracts) {
      if (c.assumed) res.trusted.push({ contract: key, why: c.assumed === true ? 'assumed' : c.assumed });
    }
    for (const a of v.assumptions) res.assumptions.add(a);
    for (const i of v.inlined) res.inlined.add(i);
    res.debugDropped += v.droppedDebug ?? 0;
    for (const l of unit.lemmas ?? []) {
      if (only && !l.name.includes(only)) continue;
      v.reset();
      v.contract = l.decls ? { decls: l.decls } : undefined;
      jobsList.push({ fn: 'lemma', name: l.name, kind: 'lemma', script: l.script ?? lemmaScript(v, unit, l), opts: unit.solve });
    }
  }
  await pool(jobsList, jobs, async (j) => {
    if (j.kind === 'cover') {
      for (const s of j.scripts) {
        const r = await runSolver('z3', s, 1);
        res.solverMs += r.ms;
        if (r.r === 'error') { res.failures.push({ fn: j.fn, name: j.name, detail: r.out.slice(0, 500) }); return; }
        if (r.r !== 'unsat') return;
      }
      res.obligations++;
      res.failures.push({ fn: j.fn, name: j.name, detail: 'no exit of the function is reachable under its contract' });
      return;
    }
    // After several failures, or late, the remaining obligations get one short
    // attempt each: the verdict is settled, the run must end.
    const settled = (!t1 && res.failures.length >= 4) || Date.now() - t0 > (t1 ? 1500e3 : 420e3);
    const r = await discharge(j.script, settled ? { order: [(j.opts?.order ?? ['z3'])[0]], t1: 3 } : { ...(t1 ? { t1, t2 } : {}), ...j.opts });
    res.obligations++;
    res.solverMs += r.ms;
    if (r.ok) {
      res.discharged++;
      res.backends[r.by] = (res.backends[r.by] ?? 0) + 1;
      if (verbose) console.log(`  ok   ${j.fn}: ${j.name} (${r.by} ${r.ms} ms)`);
    } else {
      res.failures.push({ fn: j.fn, name: j.name, kind: j.kind, detail: r.tried.join(' '), sat: r.sat, script: j.script });
      if (dump) fs.writeFileSync(path.join(dump, `${j.fn}__${j.name}`.replace(/[^\w.]+/g, '_').slice(0, 120) + `_${res.failures.length}.smt2`), j.script);
    }
  });
  // A few failures may be due to a busy machine: one more, longer attempt each.
  const again = res.failures.filter((f) => f.script);
  if (!t1 && again.length > 0 && again.length <= 4 && again.length === res.failures.length && Date.now() - t0 < 400e3) {
    await pool(again, 2, async (f) => {
      const rs = await Promise.all(['z3', 'cvc5', 'z3nombqi', 'z3old'].map(async (k) => ({ k, ...(await runSolver(k, f.script, 25)) })));
      const ok = rs.find((r) => r.r === 'unsat');
      if (!ok) return;
      res.failures.splice(res.failures.indexOf(f), 1);
      res.discharged++;
      res.backends[ok.k] = (res.backends[ok.k] ?? 0) + 1;
      if (verbose) console.log(`  ok   ${f.fn}: ${f.name} (${ok.k}, second attempt)`);
    });
  }
  res.wallMs = Date.now() - t0;
  return res;
}

function lemmaScript(v, unit, l) {
  return v.script(l.facts ?? [], l.goal);
}

// `Class.field`, for a private field: TypeScript confines its writes to the class.
function outsideWrites(prog, spec, contracts, inlined) {
  const [field, cls] = spec.split('.').reverse();
  const related = cls && new Set([cls, ...prog.allSubclasses(cls)]);
  const nodes = new Map();
  for (const [k, f] of prog.functions) if (!k.includes('#')) nodes.set(f.node, k);
  const ok = new Set(inlined);
  for (const [k, c] of contracts) if (!c.assumed && !c.abstract) ok.add(c.of ?? k);
  const bad = [];
  const isW = (n) => {
    let x = n;
    while (ts.isParenthesizedExpression(x.parent) || ts.isNonNullExpression(x.parent)) x = x.parent;
    const p = x.parent;
    if (ts.isBinaryExpression(p) && p.left === x) return p.operatorToken.kind >= SK.FirstAssignment && p.operatorToken.kind <= SK.LastAssignment;
    if (ts.isPrefixUnaryExpression(p) || ts.isPostfixUnaryExpression(p)) return p.operator === SK.PlusPlusToken || p.operator === SK.MinusMinusToken;
    return ts.isDeleteExpression(p);
  };
  const enclosing = (n) => {
    let x = n.parent;
    while (x && !ts.isClassLike(x)) x = x.parent;
    return x?.name?.text;
  };
  const unrelated = (n) => related && !related.has(enclosing(n));
  if (related && !isPrivate(prog, cls, field)) return [`${cls}.${field} is not private`];
  for (const m of prog.modules.values()) {
    const visit = (n, fns) => {
      if (nodes.has(n)) fns = [...fns, nodes.get(n)];
      if (ts.isPropertyAccessExpression(n) && n.name.text === field && isW(n) && !unrelated(n) && !fns.some((f) => ok.has(f))) {
        bad.push(`${m.rel}:${m.sf.getLineAndCharacterOfPosition(n.getStart()).line + 1}`);
      }
      ts.forEachChild(n, (c) => visit(c, fns));
    };
    visit(m.sf, []);
  }
  return bad;
}

function isPrivate(prog, cls, field) {
  const c = prog.classes.get(cls);
  const m = c?.node.members.find((x) => x.name?.getText() === field);
  return !!m?.modifiers?.some((x) => x.kind === SK.PrivateKeyword);
}
