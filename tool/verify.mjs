// Verification of one function against its contract, SMT scripts and solving.
import { spawn, spawnSync } from 'node:child_process';
import { ts, SK } from './front.mjs';
import { and, or, not, implies, eq, int, smtSort, prelude, S2I_AXIOM } from './smt.mjs';
import { Verifier, Unsupported, V, BOOL, INT, UNDEF, St, Env, newCell } from './engine.mjs';
import './builtins.mjs';
import { tokens, normKey } from './stmt.mjs';

const P = Verifier.prototype;

P.reset = function () {
  this.consts = new Map();
  this.obls = [];
  this.covers = [];
  this.counter = 0;
  this.dry = 0;
  this.closures = new Map();
  this.initHeap = new Map();
  this.preexisting = new Set();
  this.loopMap = undefined;
  this.loopCount = undefined;
  this.inlineStack = [];
  this.deferred = [];
  this.deferredCell = newCell();
  this.depth = 0;
  this.trivial = 0;
  this.noTermination = false;
  this.onWrite = this.onCell = this.onHavoc = undefined;
  this.funs = new Map();
  this.freshKeys = new Set();
  for (const c of this.contracts.values()) delete c.__used;
  for (const k of this.prog.consts.values()) delete k.cached;
};

P.coGhost = function (v, sort, st) {
  if (v.s === 'Raw') return v.t;
  return this.co(v, sort === 'Int' && ['Ref', 'Fn', 'Class', 'Null', 'Undef'].includes(v.s) ? 'Ref' : sort, st);
};

P.functionInfo = function (key) {
  const f = this.prog.functions.get(key);
  if (f) return f;
  const m = /^(\w+)\.constructor$/.exec(key);
  const cls = m && this.prog.classes.get(m[1]);
  if (cls) return { node: { parameters: [], kind: SK.Constructor, getText: () => key }, cls, module: cls.module, key, ctor: true };
  return undefined;
};

// Generates the obligations of the function `key` against its contract.
P.verify = function (key) {
  const contract = this.contracts.get(key);
  const info = this.functionInfo(contract.of ?? key);
  if (!info) throw new Unsupported(`function ${contract.of ?? key} not found in the source`);
  this.reset();
  this.current = key;
  this.contract = contract;
  this.ghosts = { ...this.opts.ghosts, ...contract.ghosts };
  this.contractOfNode = new Map();
  for (const [k, c] of this.contracts) {
    const f = this.prog.functions.get(c.of ?? k);
    if (f && !this.contractOfNode.has(f.node)) this.contractOfNode.set(f.node, c);
  }
  this.contractOfNode.set(info.node, contract);
  contract.key ??= key;
  this.contractNode = info.node;
  this.alloc0 = 'alloc!0';
  this.consts.set(this.alloc0, { sort: 'Int', axioms: ['(>= alloc!0 1)'] });
  const st = new St();
  st.alloc = this.alloc0;
  const cx = { module: info.module, env: new Env(undefined), cls: info.cls, spec: false };
  let self;
  const isCtor = info.ctor || contract.ctor;
  if (info.cls && !info.static) {
    if (isCtor) {
      const r = this.alloc(st, 'this', info.cls.name);
      self = V('Ref', r, { k: 'class', name: info.cls.name, exact: true }, true);
    } else {
      const c = 'this';
      this.consts.set('this', { sort: 'Int', axioms: ['(> this 0)', '(<= this alloc!0)'] });
      this.preexisting.add('this');
      self = V('Ref', c, { k: 'class', name: contract.exactThis ?? info.cls.name, exact: !!contract.exactThis || (this.prog.subclasses.get(info.cls.name) ?? []).length === 0 }, true);
      st.assume(or((contract.exactThis ? [contract.exactThis] : this.prog.allSubclasses(info.cls.name)).map((x) => `(= (cls this) ${this.clsId(x)})`)));
    }
  }
  cx.self = self;
  this.verifySelf = self;
  const bound = new Map();
  const args = [];
  let i = 0;
  for (const p of info.node.parameters) {
    if (p.name.getText() === 'this') continue;
    const nm = ts.isIdentifier(p.name) ? p.name.text : `$${i}`;
    i++;
    const name = contract.params?.[i - 1] ?? nm;
    let ty = contract.paramTypes?.[nm] ? this.parseType(contract.paramTypes[nm]) : p.type ? this.typeOf(p.type) : { s: 'Val' };
    if (p.dotDotDotToken) ty = { ...ty, s: 'Ref', nn: true };
    if (p.questionToken || (p.initializer && !contract.paramTypes?.[nm])) {
      // optional: may be undefined
      if (ty.s === 'Ref') ty = { ...ty, nn: false };
      else ty = { s: 'Val' };
    }
    const v = this.freshVal(`p_${nm.replace(/\$/g, '')}`, ty, st);
    if ((p.questionToken || p.initializer) && ty.s === 'Ref' && p.type && !/\bnull\b/.test(p.type.getText())) st.assume(`(not (= ${v.t} 0))`);
    if (ty.s === 'Ref') this.preexisting.add(v.t);
    if (ty.s === 'Ref' && ty.h?.k === 'fn') st.assume(`(=> (> ${v.t} 0) (isFn ${v.t}))`);
    if (ty.s === 'Ref' && ty.h?.k === 'array') st.assume(`(=> (> ${v.t} 0) (isArr ${v.t}))`);
    bound.set(name, v);
    args.push(p.dotDotDotToken ? { s: 'Spread', v } : v);
  }
  for (const [nm, ty] of Object.entries(contract.logical ?? {})) {
    if (ty.startsWith('(')) bound.set(nm, { s: 'Raw', t: this.newConst(`lg_${nm}`, ty), h: { k: 'raw', sort: ty } });
    else bound.set(nm, this.freshVal(`lg_${nm}`, this.parseType(ty), st));
  }
  const scx0 = { spec: true, env: undefined, module: info.module, self, cls: info.cls, bound };
  for (const e of Object.values(contract.requires ?? {})) st.assume(this.specBool(e, st, { ...scx0, old: st }));
  for (const [g, e] of Object.entries(contract.entry ?? {})) {
    const gv = this.specEval(e, st, { ...scx0, old: st });
    this.hset(st, 'g:' + g, this.coGhost(gv, this.ghosts[g], st));
  }
  let entry = st.clone();
  this.entry = entry;
  this.verifyBound = bound;
  const paramBound = bound;
  const savedSpec = { bound };
  // logical variables and initial parameter values ($name) are visible to
  // loop invariants
  for (const [nm, v] of [...bound]) if (!nm.startsWith('$')) bound.set(`$${nm}`, v);
  if (self) bound.set('$this', self);
  cx.bound = bound;
  cx.old = entry;
  let outs;
  if (isCtor) {
    outs = this.constructBody(info.cls, self, args, st, cx, info.node).map((o) => (o.k === 'val' ? { k: 'return', st: o.st, v: UNDEF } : o));
  } else {
    const isArrow = info.node.kind === SK.ArrowFunction;
    outs = this.callBody(info.node, args, st, { ...cx, env: new Env(undefined) }, info.node)
      .map((o) => (o.k === 'val' ? { k: 'return', st: o.st, v: o.v } : o));
  }
  // one stage for each function that returns the next one
  for (const cu of [contract.curried ?? []].flat()) outs = this.applyCurried(cu, outs, bound, cx, scx0, info);
  let targets;
  const retTy = contract.returns ? this.parseType(contract.returns) : undefined;
  let idx = 0;
  for (const o of outs) {
    idx++;
    if (o.entry || !targets) {
      if (o.entry) this.entry = o.entry;
      entry = this.entry;
      targets = this.modTargets(contract, entry, { ...scx0, old: entry });
    }
    const tag = outs.length > 1 ? ` [exit ${idx}]` : '';
    let cxo = { ...scx0, old: entry };
    if (o.k === 'return') {
      let v = o.v ?? UNDEF;
      if (v.s === 'TypeOf' || v.s === 'NS') v = UNDEF;
      if (retTy && v.s !== retTy.s && !['Iter', 'Method'].includes(v.s)) v = V(retTy.s, this.co(v, retTy.s, o.st), retTy.h ?? v.h, retTy.nn);
      if (retTy && v.s === 'Ref' && !v.h) v = { ...v, h: retTy.h };
      cxo.result = v;
      // Ghost code at the exit.
      const ups = Object.entries(contract.ghostExit ?? {}).map(([g, e]) => [g, this.specEval(e, o.st, cxo)]);
      for (const [g, gv] of ups) this.hset(o.st, 'g:' + g, this.coGhost(gv, this.ghosts[g], o.st));
      this.covers.push({ fn: key, facts: o.st.path.slice(), kind: 'return' });
      // `exits`: postconditions callers are not told of.
      for (const [nm, e] of Object.entries({ ...contract.ensures, ...contract.exits })) this.oblige(o.st, `ensures ${nm}${tag}`, this.specBool(e, o.st, cxo), 'postcondition');
      if (contract.freshResult) this.oblige(o.st, `result is fresh${tag}`, `(> ${this.co(v, 'Ref', o.st)} ${this.alloc0})`, 'postcondition');
      if (contract.value !== undefined && !contract.assumed) {
        const sv = this.specEval(contract.value, entry, { ...scx0, old: entry });
        const a = v.s === 'Raw' ? v.t : this.co(v, sv.s === 'Num' ? v.s : sv.s, o.st);
        const b = sv.s === 'Num' ? this.co(sv, v.s, o.st) : sv.t ?? this.co(sv, v.s, o.st);
        this.oblige(o.st, `value${tag}`, eq(a, b), 'postcondition');
      }
      for (const [t, spec] of Object.entries(contract.deferred ?? {})) {
        if (spec.always && !this.deferred.some((d) => d.tag === t)) this.oblige(o.st, `${t}: a function is registered${tag}`, 'false', 'postcondition');
      }
      for (const d of contract.deferred ? this.deferred : []) if (this.canRun(d, o.st)) this.runDeferred(contract, d, o.st, cxo, cx, tag, info);
      if (contract.mustThrow) this.oblige(o.st, `throws when required${tag}`, not(this.specBool(contract.mustThrow, entry, { ...scx0, old: entry })), 'postcondition');
    } else if (o.k === 'throw') {
      cxo.result = o.v ?? UNDEF;
      if (!contract.throws) this.oblige(o.st, `does not throw${tag}`, 'false', 'postcondition');
      else if (contract.throws !== true) this.oblige(o.st, `throws only when allowed${tag}`, this.specBool(contract.throws, entry, { ...scx0, old: entry }), 'postcondition');
      for (const [nm, e] of Object.entries(contract.throwsEnsures ?? {})) this.oblige(o.st, `ensures on throw ${nm}${tag}`, this.specBool(e, o.st, cxo), 'postcondition');
    } else throw new Unsupported(`exit ${o.k}`);
    this.frame(o.st, entry, targets, contract, tag);
  }
  if (contract.deferred && this.deferred.some((d) => !d.run)) throw new Unsupported('a registered function is not looked at at any exit');
  return { obls: this.obls, covers: this.covers, trivial: this.trivial };
};

// A function was registered on the way to an exit if the variables it captures
// exist there.
P.canRun = function (d, st) {
  for (let e = d.fn.env; e; e = e.parent) for (const c of e.vars.values()) if (!st.cells.has(c) && !this.moduleCell?.(c)) return false;
  return true;
};

// The contract describes the function returned by the function under
// contract: it is called with arbitrary arguments in the state in which it
// was created, after havocking what `curried.havoc` lists (other code runs in
// between).
P.applyCurried = function (cu, outs0, bound, cx, scx0, info) {
  let cal = outs0.filter((o) => o.k === 'return' && !(cu.when && !this.specBool(cu.when, o.st, { ...scx0, old: o.st, result: o.v })));
  if (!cu.allowThrow && outs0.some((o) => o.k === 'throw')) throw new Unsupported('a function under a curried contract throws');
  // exits that cannot be reached under the precondition do not matter
  if (cal.length > 1) cal = cal.filter((o) => ![['z3-new', '-in', '-T:2'], ['cvc5', '--tlimit=2000']].some(([c, ...a]) => spawnSync(c, a, { input: this.script(o.st.path, 'false'), encoding: 'utf8' }).stdout?.trim() === 'unsat'));
  if (cal.length === 0) throw new Unsupported('no exit returns a function');
  const all = [];
  const entry0 = this.entry;
  for (const o of cal) {
    this.entry = entry0;
    all.push(...this.curriedExit(cu, o, bound, cx, scx0, info, o !== cal[0]));
  }
  return all;
};

P.curriedExit = function (cu, cal, bound, cx, scx0, info, again) {
  const st = cal.st;
  let f = cal.v;
  if (cu.select) f = this.curriedSelect(cu.select, f, st, scx0);
  if (f.s === 'Ref' || f.s === 'Val') f = this.closures.get(this.co(f, 'Ref', st)) ?? f;
  if (f.s !== 'Fn') throw new Unsupported('the result is not a known function');
  for (const [g, e] of Object.entries(cu.keep ?? {})) {
    const gv = this.specEval(e, st, { ...scx0, old: this.entry, result: f });
    this.hset(st, 'g:' + g, this.coGhost(gv, this.ghosts[g], st));
  }
  if (cu.havoc) this.havocModifies({ modifies: cu.havoc, allocates: true }, st, { ...scx0, old: st.clone() });
  for (const [nm, e] of Object.entries(cu.after ?? {})) this.oblige(st, `when created: ${nm}`, this.specBool(e, st, { ...scx0, old: this.entry, result: f }), 'postcondition');
  for (const e of Object.values(cu.assume ?? {})) st.assume(this.specBool(e, st, { ...scx0, old: st }));
  // (the parameter named by `cu.receiver` is the receiver of the call)
  const isReceiver = (x, i) => Object.keys(cu.params)[i] !== cu.receiver;
  const args = Object.entries(cu.params ?? {}).map(([nm0, tyText]) => {
    // `...args`: all further arguments
    const rest = nm0.startsWith('...');
    const nm = rest ? nm0.slice(3) : nm0;
    const ty = this.parseType(tyText);
    const v = this.freshVal(`p_${nm}`, ty, st);
    if (ty.s === 'Ref') this.preexisting.add(v.t);
    if (ty.s === 'Ref' && ty.h?.k === 'fn') st.assume(`(=> (> ${v.t} 0) (isFn ${v.t}))`);
    // the same arguments for every exit
    if (again) {
      st.assume(eq(v.t, bound.get(nm).t));
      return rest ? { s: 'Spread', v: bound.get(nm) } : bound.get(nm);
    }
    bound.set(nm, v);
    bound.set(`$${nm}`, v);
    return rest ? { s: 'Spread', v } : v;
  }).filter(isReceiver);
  for (const e of Object.values(cu.requires ?? {})) st.assume(this.specBool(e, st, { ...scx0, old: st }));
  for (const [g, e] of Object.entries(cu.entry ?? {})) {
    const gv = this.specEval(e, st, { ...scx0, old: st });
    this.hset(st, 'g:' + g, this.coGhost(gv, this.ghosts[g], st));
  }
  this.alloc0 = st.alloc;
  const entry = st.clone();
  cx.old = entry;
  this.entry = entry;
  return this.callValue(f, args, st, { ...cx, env: new Env(undefined) }, info.node, cu.receiver ? this.specEval(cu.receiver, st, { ...scx0, old: st }) : undefined)
    .map((o) => (o.k === 'val' ? { k: 'return', st: o.st, v: o.v, entry } : { ...o, entry }));
};

// The function that the expression denotes after the function under contract
// has returned: the closure that provably is its value.
P.curriedSelect = function (expr, f, st, scx0) {
  const r = f.s === 'Fn' ? f : V('Ref', this.co(f, 'Ref', st), f.h);
  const t = this.co(this.specEval(expr, st, { ...scx0, old: this.entry, result: r }), 'Ref', st);
  for (const [c, fn] of this.closures) {
    if (spawnSync('z3-new', ['-in', '-T:5'], { input: this.script(st.path, eq(t, c)), encoding: 'utf8' }).stdout?.trim() === 'unsat') return fn;
  }
  throw new Unsupported(`${expr} is no known function`);
};

// A function handed to a host facility (an external contract with `defers`)
// runs later: in the state at the exit, after havocking `deferred.havoc`, it
// must establish `deferred[tag].ensures` (with `outer` the result of the
// function under contract, `handle` the result of the registration).
P.runDeferred = function (contract, d, st0, cxo, cx, tag, info) {
  const spec = contract.deferred[d.tag];
  if (!spec) throw new Unsupported(`a function is handed to ${d.tag}`);
  const bound = new Map(cxo.bound);
  bound.set('outer', cxo.result);
  if (d.handle) bound.set('handle', d.handle);
  bound.set('self', d.fnRef);
  for (const [k, v] of d.args ?? []) if (!bound.has(k)) bound.set(k, v);
  d.run = true;
  // it has been registered: the facts on the way to the registration hold
  st0 = st0.clone();
  const known = new Set(st0.path);
  for (const f of d.path) if (!known.has(f)) st0.assume(f);
  const mark = this.deferred.length;
  const outs = this.runLater(spec, d.fn, d.tag, st0, { ...cxo, bound }, cx, tag, info);
  // the functions registered by the function itself
  const nested = this.deferred.splice(mark);
  for (const o of outs) if (o.k === 'val') for (const e of nested) this.runDeferred(contract, e, o.st, { ...cxo, bound }, cx, tag, info);
};

// `locals`: variables that the function captures and that other code may have
// changed in the meantime (if there is none of that name, the only captured
// variable of that type that is assigned to); `result`: the same for the function it returns, if
// it returns one (`result.unless`: or what it returns instead).
P.localsEnv = function (spec, fn, st) {
  const env = new Env(fn.env);
  for (const [nm, t] of Object.entries(spec.locals ?? {})) {
    if (env.lookup(nm) !== undefined) continue;
    const sort = this.freshVal(nm, this.parseType(t), st.clone()).s;
    const cells = new Set();
    for (const [x, c] of fn.env.names()) if (assignedIn(this.contractNode, x) && st.cells.get(c)?.s === sort) cells.add(c);
    if (cells.size === 1) env.vars.set(nm, [...cells][0]);
  }
  return env;
};

function assignedIn(node, name) {
  let found = false;
  const scan = (m) => {
    if (ts.isBinaryExpression(m) && m.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && m.operatorToken.kind <= ts.SyntaxKind.LastAssignment && ts.isIdentifier(m.left) && m.left.text === name) found = true;
    ts.forEachChild(m, scan);
  };
  scan(node);
  return found;
}

P.runLater = function (spec, fn, name, st0, sc, cx, tag, info) {
  const st = st0.clone();
  const bound = new Map(sc.bound);
  const lenv = this.localsEnv(spec, fn, st);
  for (const [nm, e] of Object.entries(spec.initially ?? {})) this.oblige(st, `${name}: ${nm} initially${tag}`, this.specBool(e, st, { ...sc, env: lenv, old: st }), 'postcondition');
  if (spec.havoc) this.havocModifies({ modifies: spec.havoc, allocates: true }, st, { ...sc, old: st.clone() });
  for (const [nm, t] of Object.entries(spec.locals ?? {})) {
    const c = lenv.lookup(nm);
    if (c === undefined || !st.cells.has(c)) throw new Unsupported(`${name}: no local variable ${nm}`);
    const v = this.freshVal(nm, this.parseType(t), st);
    st.cells.set(c, v);
  }
  // arguments: a list of types, or named ones
  const args = Object.entries(spec.args ?? {}).map(([nm, t]) => {
    const v = this.freshVal('darg', this.parseType(t), st);
    if (!/^\d+$/.test(nm)) bound.set(nm, v);
    return v;
  });
  sc = { ...sc, bound, env: Object.keys(spec.locals ?? {}).length ? lenv : sc.env };
  for (const [g, e] of Object.entries(spec.entry ?? {})) this.hset(st, 'g:' + g, this.coGhost(this.specEval(e, st, { ...sc, old: st }), this.ghosts[g], st));
  for (const e of Object.values(spec.requires ?? {})) st.assume(this.specBool(e, st, { ...sc, old: st }));
  const entry = st.clone();
  const savedBound = this.verifyBound;
  this.verifyBound = bound;
  const outs = this.callValue(fn, args, st, { ...cx, bound, env: new Env(undefined) }, info.node);
  this.verifyBound = savedBound;
  for (const o of outs) {
    const c2 = { ...sc, old: entry, result: o.v ?? UNDEF };
    if (o.k === 'throw' && !spec.throws) this.oblige(o.st, `${name}: does not throw${tag}`, 'false', 'postcondition');
    else if (o.k === 'throw') for (const [nm, e] of Object.entries(spec.throwsEnsures ?? {})) this.oblige(o.st, `${name}: ensures on throw ${nm}${tag}`, this.specBool(e, o.st, c2), 'postcondition');
    else {
      for (const [nm, e] of Object.entries(spec.ensures ?? {})) this.oblige(o.st, `${name}: ${nm}${tag}`, this.specBool(e, o.st, c2), 'postcondition');
      if (spec.result) {
        const t = o.v && o.v.s !== 'Undef' ? this.co(o.v, 'Ref', o.st) : undefined;
        const f = t === undefined ? undefined : o.v.s === 'Fn' ? o.v : this.closures.get(t) ?? [...this.closures].find(([c]) => t.includes(c))?.[1];
        const unless = this.specBool(spec.result.unless ?? 'false', o.st, c2);
        if (!f) this.oblige(o.st, `${name}: returns a function${tag}`, unless, 'postcondition');
        else {
          const s1 = o.st.clone().assume(not(unless));
          this.oblige(s1, `${name}: returns a function${tag}`, eq(this.co(f, 'Ref', s1), t), 'postcondition');
          this.runLater(spec.result, f, `${name}, its result`, s1, { ...sc, result: undefined }, cx, tag, info);
        }
      }
    }
  }
  return outs;
};

P.frame = function (st, entry, targets, contract, tag) {
  if (contract.noFrame) return;
  const freshOk = new Set((contract.fresh ?? []).map(normKey));
  for (const [key, h] of st.heap) {
    const h0 = this.initHeap.get(key);
    if (h0 && h.name === h0.name) continue;
    const e0 = entry.heap.get(key);
    if (e0 && h.name === e0.name) continue;
    if (key.startsWith('g:')) {
      if (targets.some((t) => t.key === key)) continue;
      this.oblige(st, `frame: ghost ${key.slice(2)}${tag}`, eq(h.name, this.heap(entry, key).name), 'frame');
      continue;
    }
    if (targets.some((t) => t.key === key && t.ref === null)) continue;
    const refs = targets.filter((t) => t.key === key).map((t) => t.ref);
    // syntactic check along the chain of writes
    let ok = true;
    let touchesFresh = false;
    let k = h;
    for (; k; k = k.parent) {
      if (k === h0 || (e0 && k === e0)) break;
      if (!k.write) { ok = false; break; }
      if (st.fresh.has(k.ref)) { touchesFresh = true; continue; }
      if (!refs.includes(k.ref)) { ok = false; break; }
    }
    if (!k) ok = false;
    if (!ok) {
      const r = this.newConst('frame', 'Int');
      const base = (e0 ?? this.heap(entry, key)).name;
      const hyp = and(`(> ${r} 0)`, `(<= ${r} ${entry.alloc})`, ...refs.map((x) => not(eq(r, x))));
      this.oblige(st, `frame: ${key}${tag}`, implies(hyp, eq(`(select ${h.name} ${r})`, `(select ${base} ${r})`)), 'frame');
    }
  }
};

// ---------------------------------------------------------------- scripts
P.script = function (facts, goal, { logicAxioms = true } = {}) {
  const used = new Set();
  const order = [];
  const asserts = [];
  const visit = (name) => {
    if (used.has(name)) return;
    const c = this.consts.get(name);
    if (!c) return;
    used.add(name);
    if (c.def) for (const t of tokens(c.def)) visit(t);
    order.push(name);
    for (const a of c.axioms ?? []) {
      for (const t of tokens(a)) visit(t);
      asserts.push(a);
    }
  };
  const visitTerm = (t) => { for (const x of tokens(t)) visit(x); };
  for (const f of facts) visitTerm(f);
  visitTerm(goal);
  const out = [prelude({ strings: this.strings })];
  if (!this.strings && this.strLits.size > 0) {
    for (const c of this.strLits.values()) out.push(`(declare-const ${c} Str)`);
    if (this.strLits.size > 1) out.push(`(assert (distinct ${[...this.strLits.values()].join(' ')}))`);
    for (const [s, c] of this.strLits) out.push(`(assert (= (truthyStr ${c}) ${s !== '' ? 'true' : 'false'}))`);
    if (this.strLits.has('')) out.push(`(assert (forall ((x Str)) (! (= (truthyStr x) (not (= x ${this.strLits.get('')}))) :pattern ((truthyStr x)))))`);
  }
  for (const f of this.funs.values()) out.push(f);
  if (this.opts.decls) out.push(this.opts.decls);
  if (this.contract?.decls) out.push(this.contract.decls);
  // Constants in order of dependency; definitions become macros.
  for (const name of order) {
    const c = this.consts.get(name);
    if (c.def) out.push(`(define-fun ${name} () ${c.sort} ${c.def})`);
    else out.push(`(declare-const ${name} ${c.sort})`);
  }
  const text = out.join('\n') + facts.join(' ') + goal;
  const body = [];
  for (const a of asserts) body.push(`(assert ${a})`);
  for (const f of facts) body.push(`(assert ${f})`);
  if (goal !== null) body.push(`(assert (not ${goal}))`);
  const pre = [];
  if ((facts.join(" ") + goal + body.join(" ") + order.map((x) => this.consts.get(x).def ?? "").join(" ")).includes("s2i")) pre.push(S2I_AXIOM);
  for (const a of [...this.axioms, ...(this.contract?.axioms ?? [])]) {
    pre.push(`(assert ${a})`);
  }
  return `${out.join('\n')}\n${pre.join('\n')}\n${body.join('\n')}\n(check-sat)\n`;
};

// ---------------------------------------------------------------- solving
const SOLVERS = {
  z3: (t) => ['z3-new', ['-in', `-T:${t}`, 'smt.random_seed=1']],
  z3nombqi: (t) => ['z3-new', ['-in', `-T:${t}`, 'smt.mbqi=false', 'smt.auto_config=false']],
  cvc5: (t) => ['cvc5', ['--lang', 'smt2', `--tlimit=${t * 1000}`, '--full-saturate-quant', '-q']],
  z3old: (t) => ['z3', ['-in', `-T:${t}`]],
};

export function runSolver(kind, script, t) {
  const [cmd, args] = SOLVERS[kind](t);
  return new Promise((resolve) => {
    const t0 = Date.now();
    const p = spawn(cmd, args, { stdio: ['pipe', 'pipe', 'pipe'] });
    let out = '';
    const timer = setTimeout(() => p.kill('SIGKILL'), (t + 3) * 1000);
    p.stdout.on('data', (d) => (out += d));
    p.stderr.on('data', (d) => (out += d));
    p.stdin.on('error', () => {});
    p.on('error', () => resolve({ r: 'error', ms: 0, out: `${cmd} not found` }));
    p.on('close', () => {
      clearTimeout(timer);
      const first = out.trim().split('\n')[0];
      const r = first === 'unsat' ? 'unsat' : first === 'sat' ? 'sat' : /error/i.test(out) ? 'error' : 'unknown';
      resolve({ r, ms: Date.now() - t0, out });
    });
    const logic = kind === 'cvc5' ? '(set-logic ALL)\n' : '';
    p.stdin.end(logic + script);
  });
}

export async function pool(items, n, f) {
  const res = new Array(items.length);
  let i = 0;
  await Promise.all(Array.from({ length: Math.min(n, items.length) }, async () => {
    while (i < items.length) {
      const k = i++;
      res[k] = await f(items[k], k);
    }
  }));
  return res;
}

// Discharges one obligation with the portfolio of solvers.
export async function discharge(script, { t1 = 2, t2 = 10, t3 = 10, order = ['z3', 'cvc5', 'z3nombqi', 'z3old', 'z3'] } = {}) {
  const tried = [];
  let ms = 0;
  for (const [i, k] of order.entries()) {
    const r = await runSolver(k, script, i === 0 ? t1 : i < 3 ? t2 : t3);
    ms += r.ms;
    tried.push(`${k}:${r.r}`);
    if (r.r === 'unsat') return { ok: true, by: k, ms, tried };
    if (r.r === 'error') tried.push(r.out.slice(0, 160).replace(/\n/g, " "));
    if (r.r === 'sat') return { ok: false, by: k, ms, tried, sat: true };
  }
  return { ok: false, ms, tried };
}
