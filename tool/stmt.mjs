// Symbolic execution of statements, calls, contracts and loops.
import { ts, SK, memberName } from './front.mjs';
import { and, or, not, implies, ite, eq, int, bv, smtSort } from './smt.mjs';
import { Verifier, Unsupported, V, BOOL, INT, NUM, UNDEF, NULL, TRUE, FALSE, St, Env, newCell } from './engine.mjs';
import './exec.mjs';

const P = Verifier.prototype;
const val = P.val;
const bind = P.bind;

// ------------------------------------------------------------ statements
P.execBlock = function (stmts, st, cx) {
  const env = new Env(cx.env);
  const c2 = { ...cx, env };
  // hoisted function declarations
  for (const s of stmts) {
    if (ts.isFunctionDeclaration(s) && s.name && s.body) {
      const cell = newCell();
      env.vars.set(s.name.text, cell);
      const fn = { s: 'Fn', node: s, env, module: cx.module, self: undefined, cls: cx.cls };
      st.cells.set(cell, fn);
      if (!cx.spec && this.localContract(s)) this.verifyLocal(fn, st, c2);
    }
  }
  let outs = [{ k: 'next', st }];
  for (const s of stmts) {
    const next = [];
    for (const o of outs) {
      if (o.k === 'next') next.push(...this.execStmt(s, o.st, c2));
      else next.push(o);
    }
    outs = next;
    if (outs.length > 400) throw new Unsupported(`too many paths (${outs.length})`, s);
    if (outs.every((o) => o.k !== 'next')) break;
  }
  return outs;
};

const toStmt = (outs) => outs.map((o) => (o.k === 'val' ? { k: 'next', st: o.st } : o));

P.execStmt = function (n, st, cx) {
  switch (n.kind) {
    case SK.Block: return this.execBlock(n.statements, st, cx);
    case SK.EmptyStatement: case SK.InterfaceDeclaration: case SK.TypeAliasDeclaration: case SK.FunctionDeclaration:
      return [{ k: 'next', st }];
    case SK.ExpressionStatement: return toStmt(this.ev(n.expression, st, cx));
    case SK.VariableStatement: return this.execDecls(n.declarationList, st, cx);
    case SK.IfStatement: return this.execIf(n, st, cx);
    case SK.ReturnStatement:
      if (!n.expression) return [{ k: 'return', st, v: UNDEF }];
      return this.ev(n.expression, st, cx).map((o) => (o.k === 'val' ? { k: 'return', st: o.st, v: o.v } : o));
    case SK.ThrowStatement:
      return this.ev(n.expression, st, cx).map((o) => (o.k === 'val' ? { k: 'throw', st: o.st, v: o.v } : o));
    case SK.BreakStatement: return [{ k: 'break', st, label: n.label?.text }];
    case SK.ContinueStatement: return [{ k: 'continue', st, label: n.label?.text }];
    case SK.LabeledStatement: {
      if (n.label.text === 'DEBUG') {
        this.droppedDebug = (this.droppedDebug ?? 0) + 1;
        return [{ k: 'next', st }];
      }
      return this.execStmt(n.statement, st, cx).map((o) => (o.k === 'break' && o.label === n.label.text ? { k: 'next', st: o.st } : o));
    }
    case SK.WhileStatement: case SK.DoStatement: case SK.ForStatement: case SK.ForOfStatement:
      return this.execLoop(n, st, cx);
    case SK.SwitchStatement: return this.execSwitch(n, st, cx);
    case SK.TryStatement: return this.execTry(n, st, cx);
  }
  throw new Unsupported(`statement ${SK[n.kind]}`, n);
};

P.execDecls = function (list, st, cx) {
  let outs = [{ k: 'next', st }];
  for (const d of list.declarations) {
    const next = [];
    for (const o of outs) {
      if (o.k !== 'next') { next.push(o); continue; }
      if (!d.initializer) {
        const t0 = d.type ? this.typeOf(d.type) : undefined;
        this.declare(d.name.text, t0?.s === 'Ref' && t0.h ? V('Ref', '(- 1)', t0.h) : UNDEF, o.st, cx, d);
        next.push(o);
        continue;
      }
      const ty = d.type ? this.typeOf(d.type) : undefined;
      const cx2 = ty?.h?.k === 'array' ? { ...cx, elHint: ty.h.el } : cx;
      for (const r of this.ev(d.initializer, o.st, cx2)) {
        if (r.k !== 'val') { next.push(r); continue; }
        let v = r.v;
        if (ty?.h && v.s === 'Ref' && (!v.h || v.h.k === 'obj' || (v.h.k === 'class' && ty.h.k === 'class' && !v.h.exact))) v = { ...v, h: ty.h };
        if (ty?.h?.k === 'array' && v.h?.k === 'array' && v.h.el.weak) v = { ...v, h: ty.h };
        if (ty?.s === 'BV' && v.s === 'Num') v = V('BV', this.co(v, 'BV', r.st, d));
        next.push(...toStmt(this.bindPattern(d.name, v, r.st, cx)));
      }
    }
    outs = next;
  }
  return outs;
};

// Element type expected for an array literal (from the declaration).
P.expectedEl = function (n, cx, st) {
  const p = n.parent;
  if (st && p && ts.isBinaryExpression(p) && [SK.EqualsToken, SK.QuestionQuestionEqualsToken].includes(p.operatorToken.kind) && ts.isIdentifier(p.left)) {
    const h = st.cells.get(cx.env?.lookup(p.left.text))?.h;
    if (h?.k === 'array' && !h.el.weak) return h.el;
  }
  if (p && ts.isVariableDeclaration(p) && p.type) {
    const t = this.typeOf(p.type);
    if (t.h?.k === 'array') return t.h.el;
  }
  if (p && ts.isPropertyDeclaration(p) && p.type) {
    const t = this.typeOf(p.type);
    if (t.h?.k === 'array') return t.h.el;
  }
  if (p && ts.isPropertyAssignment(p)) {
    const ft = this.fieldType(memberName(p));
    if (ft.h?.k === 'array') return ft.h.el;
  }
  if (p && ts.isBinaryExpression(p) && p.operatorToken.kind === SK.EqualsToken && ts.isPropertyAccessExpression(p.left)) {
    const ft = this.fieldType(p.left.name.text);
    if (ft.h?.k === 'array') return ft.h.el;
  }
  return undefined;
};

P.declare = function (name, v, st, cx, node) {
  // The paths of one activation share the cells of its variables.
  const cell = cx.env.vars.get(name) ?? newCell();
  cx.env.vars.set(name, cell);
  st.cells.set(cell, this.named(v, name));
  return cell;
};

P.bindPattern = function (pat, v, st, cx) {
  if (ts.isIdentifier(pat)) {
    this.declare(pat.text, v, st, cx, pat);
    return val(st, UNDEF);
  }
  if (ts.isObjectBindingPattern(pat)) {
    let outs = val(st, UNDEF);
    for (const el of pat.elements) {
      if (el.dotDotDotToken) {
        outs = bind(outs, (s) => {
          const r = this.alloc(s, 'restobj');
          return this.bindPattern(el.name, V('Ref', r, { k: 'obj' }, true), s, cx);
        });
        continue;
      }
      const prop = el.propertyName ? el.propertyName.text : el.name.text;
      outs = bind(outs, (s) => bind(this.getProp(v, prop, s, { ...cx }, pat), (s2, pv) => {
        if (pv.s === 'Method') {
          const f = this.findMember(pv.o, 'methods', pv.name);
          pv = f ? { s: 'Fn', info: f, self: pv.o } : pv;
        }
        if (el.initializer) {
          const isU = this.eqVals(pv, UNDEF, 'strict', s2, pat);
          return bind(this.evCondT(isU, (s3) => this.ev(el.initializer, s3, cx), (s3) => val(s3, pv), s2, cx), (s4, x) => this.bindPattern(el.name, x, s4, cx));
        }
        return this.bindPattern(el.name, pv, s2, cx);
      }));
    }
    return outs;
  }
  if (ts.isArrayBindingPattern(pat)) {
    let outs = val(st, UNDEF);
    pat.elements.forEach((el, i) => {
      if (ts.isOmittedExpression(el)) return;
      outs = bind(outs, (s) => {
        if (v.s === 'Tuple') return this.bindPattern(el.name, v.items[i] ?? UNDEF, s, cx);
        return bind(this.indexRead(v, NUM(i), s, cx, pat, false), (s2, x) => this.bindPattern(el.name, x, s2, cx));
      });
    });
    return outs;
  }
  throw new Unsupported('binding pattern', pat);
};

P.execIf = function (n, st, cx) {
  const outs = [];
  for (const o of this.ev(n.expression, st, cx)) {
    if (o.k !== 'val') { outs.push(o); continue; }
    const c = this.truthy(o.v, n);
    const base = o.st;
    const res = [];
    if (c !== 'false') res.push(...this.execStmt(n.thenStatement, c === 'true' ? base : base.clone().assume(c), cx));
    if (c !== 'true') {
      const s2 = c === 'false' ? base : base.clone().assume(not(c));
      res.push(...(n.elseStatement ? this.execStmt(n.elseStatement, s2, cx) : [{ k: 'next', st: s2 }]));
    }
    outs.push(...this.mergeOuts(base, res, 'next'));
  }
  return outs;
};

P.execSwitch = function (n, st, cx) {
  return this.ev(n.expression, st, cx).flatMap((o) => {
    if (o.k !== 'val') return [o];
    const res = [];
    const clauses = n.caseBlock.clauses;
    const env = new Env(cx.env);
    const c2 = { ...cx, env };
    let cur = o.st;
    const neg = [];
    let defaultIdx = -1;
    const runFrom = (i, s) => {
      let outs = [{ k: 'next', st: s }];
      for (let j = i; j < clauses.length; j++) {
        const next = [];
        for (const x of outs) {
          if (x.k === 'next') next.push(...this.execBlockIn(clauses[j].statements, x.st, c2));
          else next.push(x);
        }
        outs = next;
        if (outs.every((x) => x.k !== 'next')) break;
      }
      return outs.map((x) => (x.k === 'break' && !x.label ? { k: 'next', st: x.st } : x));
    };
    for (let i = 0; i < clauses.length; i++) {
      const cl = clauses[i];
      if (ts.isDefaultClause(cl)) { defaultIdx = i; continue; }
      const e = this.ev(cl.expression, cur, cx);
      if (e.length !== 1) throw new Unsupported('case expression', cl);
      const c = this.switchEq(o.v, e[0].v, cur, cl);
      if (c !== 'false') res.push(...runFrom(i, cur.clone().assume(c)));
      cur = cur.clone().assume(not(c));
    }
    if (defaultIdx >= 0) res.push(...runFrom(defaultIdx, cur));
    else res.push({ k: 'next', st: cur });
    return this.mergeOuts(o.st, this.mergeOuts(o.st, res, 'return'), 'next');
  });
};

P.switchEq = function (a, b, st, n) {
  if (a.s === 'TypeOf') return this.typeIs(a.v, b.h.text, st, n);
  return this.eqVals(a, b, 'strict', st, n);
};

P.execBlockIn = function (stmts, st, cx) {
  let outs = [{ k: 'next', st }];
  for (const s of stmts) {
    const next = [];
    for (const o of outs) {
      if (o.k === 'next') next.push(...this.execStmt(s, o.st, cx));
      else next.push(o);
    }
    outs = next;
  }
  return outs;
};

P.execTry = function (n, st, cx) {
  let outs = this.execStmt(n.tryBlock, st, cx);
  if (n.catchClause) {
    outs = outs.flatMap((o) => {
      if (o.k !== 'throw') return [o];
      const env = new Env(cx.env);
      const c2 = { ...cx, env };
      if (n.catchClause.variableDeclaration) {
        this.declare(n.catchClause.variableDeclaration.name.text, o.v ?? V('Val', this.newConst('err', 'Val')), o.st, c2, n);
      }
      return this.execStmt(n.catchClause.block, o.st, c2);
    });
  }
  if (n.finallyBlock) {
    outs = outs.flatMap((o) =>
      this.execStmt(n.finallyBlock, o.st, cx).map((f) => (f.k === 'next' ? { ...o, st: f.st } : f)));
  }
  return outs;
};

// ------------------------------------------------------------ loops
P.loopSpecFor = function (n) {
  this.loopMap ??= new Map();
  if (this.loopMap.has(n)) return this.loopMap.get(n);
  // the enclosing function's own contract, if it has loops
  let owner = n.parent;
  while (owner && !ts.isFunctionLike(owner)) owner = owner.parent;
  let spec;
  const own = this.contractOfNode?.get(owner);
  if (own?.loops && own !== this.contract) {
    const k = (own.__used ??= new Map());
    if (!k.has(n)) k.set(n, k.size);
    spec = own.loops[k.get(n)];
  } else {
    const list = this.contract?.loops ?? [];
    this.loopCount ??= 0;
    spec = list[this.loopCount++] ?? list.at(-1);
  }
  this.loopMap.set(n, spec);
  return spec;
};

P.peekLoopSpec = function (n) {
  return this.loopSpecFor(n);
};

// for (let i = ..; i < limit; i++) whose body does not assign i: the cell of i
// and the limit. The variable is called $i in invariants, as the cursor of a
// for-of loop is.
P.countingLoop = function (n, env) {
  const inc = n.incrementor;
  if (!inc || !(ts.isPostfixUnaryExpression(inc) || ts.isPrefixUnaryExpression(inc)) || inc.operator !== SK.PlusPlusToken || !ts.isIdentifier(inc.operand)) return undefined;
  const name = inc.operand.text;
  let assigned = false;
  const visit = (m) => {
    if (ts.isBinaryExpression(m) && m.operatorToken.kind >= SK.FirstAssignment && m.operatorToken.kind <= SK.LastAssignment && m.left.getText() === name) assigned = true;
    else if ((ts.isPostfixUnaryExpression(m) || ts.isPrefixUnaryExpression(m)) && (m.operator === SK.PlusPlusToken || m.operator === SK.MinusMinusToken) && m.operand.getText() === name) assigned = true;
    ts.forEachChild(m, visit);
  };
  visit(n.statement);
  if (n.condition) visit(n.condition);
  const cell = env.vars.get(name);
  if (assigned || cell === undefined) return undefined;
  const c = n.condition;
  const limit = c && ts.isBinaryExpression(c) && c.operatorToken.kind === SK.LessThanToken && c.left.getText() === name ? c.right : undefined;
  // `i < a.length`, or `l = a.length` and `i < l`
  let e = limit;
  if (e && ts.isIdentifier(e) && n.initializer && ts.isVariableDeclarationList(n.initializer)) e = n.initializer.declarations.find((d) => d.name.getText() === e.text)?.initializer;
  const array = e && ts.isPropertyAccessExpression(e) && e.name.text === 'length' ? e.expression : undefined;
  return { name, cell, limit, array };
};

// The value of a variable or a chain of properties.
P.tryPure = function (e, st, cx) {
  let x = e;
  while (ts.isPropertyAccessExpression(x) || ts.isNonNullExpression(x) || ts.isParenthesizedExpression(x)) x = x.expression;
  if (!ts.isIdentifier(x) && x.kind !== SK.ThisKeyword) return undefined;
  try {
    const r = this.ev(e, st.clone(), { ...cx, spec: true });
    return r.length === 1 && r[0].k === 'val' ? r[0].v : undefined;
  } catch {
    return undefined;
  }
};

P.execLoop = function (n, st, cx) {
  const env = new Env(cx.env);
  const c2 = { ...cx, env };
  if (n.kind === SK.ForStatement) {
    let outs = [{ k: 'next', st }];
    if (n.initializer) {
      outs = ts.isVariableDeclarationList(n.initializer) ? this.execDecls(n.initializer, st, c2) : toStmt(this.ev(n.initializer, st, c2));
    }
    const counter = this.countingLoop(n, env);
    return outs.flatMap((o) => {
      if (o.k !== 'next') return [o];
      let auto;
      if (counter) {
        env.vars.set('$i', counter.cell);
        env.vars.set(`$i_${counter.name}`, counter.cell);
        const arr = counter.array && this.tryPure(counter.array, o.st, c2);
        if (arr?.s === 'Ref' && arr.h?.k === 'array') {
          const ca = newCell();
          o.st.cells.set(ca, arr);
          env.vars.set('$arr', ca);
        }
        const bound = (s) => {
          // the bound, if it evaluates without effects to the same term
          try {
            const c = s.clone();
            const r = this.ev(counter.limit, c, { ...c2, spec: true });
            return r.length === 1 && r[0].k === 'val' && (r[0].v.s === 'Num' || r[0].v.s === 'Int') ? this.co(r[0].v, 'Int', c) : undefined;
          } catch {
            return undefined;
          }
        };
        const c0 = o.st.cells.get(counter.cell);
        if (c0 && (c0.s === 'Num' || c0.s === 'Int')) {
          const i0 = this.co(c0, 'Int', o.st);
          const b0 = counter.limit && bound(o.st);
          auto = (cx3, s) => {
            const i = s.cells.get(counter.cell);
            if (i.s !== 'Int') return [];
            const b = b0 !== undefined ? bound(s) : undefined;
            return [`(<= ${i0} ${i.t})`, ...(b !== undefined && b === b0 ? [or(`(= ${i.t} ${i0})`, `(<= ${i.t} ${b})`)] : [])];
          };
        }
      }
      return this.loopCore(n, o.st, c2,
        (s) => (n.condition ? this.ev(n.condition, s, c2) : val(s, TRUE)),
        (s) => this.execStmt(n.statement, s, c2),
        (s) => (n.incrementor ? toStmt(this.ev(n.incrementor, s, c2)) : [{ k: 'next', st: s }]), auto);
    });
  }
  if (n.kind === SK.WhileStatement) {
    return this.loopCore(n, st, c2, (s) => this.ev(n.expression, s, c2), (s) => this.execStmt(n.statement, s, c2), (s) => [{ k: 'next', st: s }]);
  }
  if (n.kind === SK.DoStatement) {
    // Desugared to: first = true; while (first || cond) { first = false; body }
    const cell = newCell();
    env.vars.set('$first', cell);
    st.cells.set(cell, TRUE);
    return this.loopCore(n, st, c2,
      (s) => this.evCondT(s.cells.get(cell).t, (a) => val(a, TRUE), (b) => bind(this.ev(n.expression, b, c2), (s2, v) => val(s2, BOOL(this.truthy(v, n)))), s, c2),
      (s) => { s.cells.set(cell, FALSE); this.onCell?.(cell); return this.execStmt(n.statement, s, c2); },
      (s) => [{ k: 'next', st: s }]);
  }
  // for-of
  return this.ev(n.expression, st, cx).flatMap((o) => {
    if (o.k !== 'val') return [o];
    const pat = n.initializer.declarations[0].name;
    return this.loopOver(n, o.v, o.st, c2, (s, x, c3) =>
      this.bindPattern(pat, x, s, c3).flatMap((b) => (b.k === 'val' ? this.execStmt(n.statement, b.st, c3) : [b])), pat);
  });
};

P.loopOver = function (n, it, st, cx, bodyF, pat) {
  const env = cx.env;
  if (it.s === 'Ref' && it.h?.k === 'array') {
    this.deref(it, st, cx, n, 'iterable');
    const ci = newCell();
    env.vars.set('$i', ci);
    if (pat && ts.isIdentifier(pat)) env.vars.set(`$i_${pat.text}`, ci);
    st.cells.set(ci, INT('0'));
    const ca = newCell();
    env.vars.set('$arr', ca);
    st.cells.set(ca, it);
    const s0 = this.elSort(it.h.el);
    const len0 = this.hread(st, 'len', it.t).term;
    return this.loopCore(n, st, cx,
      (s) => val(s, BOOL(`(< ${s.cells.get(ci).t} ${this.hread(s, 'len', it.t).term})`)),
      (s) => {
        const c3 = { ...cx, env: new Env(env) };
        const x = V(s0, `(select ${this.hread(s, `el:${s0}`, it.t).term} ${s.cells.get(ci).t})`, it.h.el.h, it.h.el.nn);
        const c = this.newConst('x', s0, x.t);
        this.assumeElement(s, c, it.h.el);
        return bodyF(s, { ...x, t: c }, c3);
      },
      (s) => { s.cells.set(ci, INT(`(+ ${s.cells.get(ci).t} 1)`)); this.onCell?.(ci); return [{ k: 'next', st: s }]; },
      (cx2, s) => {
        const len = this.hread(s, 'len', it.t).term;
        // the cursor moves by one while it is below the length
        return [`(<= 0 ${s.cells.get(ci).t})`, ...(len === len0 ? [`(<= ${s.cells.get(ci).t} ${len})`] : [])];
      });
  }
  if (it.s === 'Iter' && it.arr) {
    return this.loopOver(n, it.arr, st, cx, (s, x, c3) =>
      bodyF(s, it.kind === 'keys' ? s.cells.get(env.vars.get('$i')) : { s: 'Tuple', items: [s.cells.get(env.vars.get('$i')), x] }, c3), pat);
  }
  if (it.s === 'Iter') {
    // Iteration over a map or a set: keys in unknown order, each once.
    const cs = newCell();
    env.vars.set('$seen', cs);
    st.cells.set(cs, { s: 'Raw', t: '((as const (Array Val Bool)) false)', h: { k: 'raw', sort: '(Array Val Bool)' } });
    const m = it.map;
    const dom0 = this.hread(st, 'dom', m.t).term;
    const more = (s) => `(exists ((k Val)) (and (select ${this.hread(s, 'dom', m.t).term} k) (not (select ${s.cells.get(cs).t} k))))`;
    let key;
    return this.loopCore(n, st, cx,
      (s) => val(s, BOOL(more(s))),
      (s) => {
        const c3 = { ...cx, env: new Env(env) };
        const k = this.newConst('k', 'Val');
        s.assume(`(wfVal ${k})`);
        s.assume(`(select ${this.hread(s, 'dom', m.t).term} ${k})`);
        s.assume(`(not (select ${s.cells.get(cs).t} ${k}))`);
        const kc = newCell();
        c3.env.vars.set('$key', kc);
        s.cells.set(kc, V('Val', k));
        s.meta.set(n, k);
        const kv = this.fromVal(k, m.h.key ?? m.h.el, s);
        const mv = m.h.k === 'map' ? this.fromVal(`(select ${this.hread(s, 'mval', m.t).term} ${k})`, m.h.val, s) : undefined;
        const x = it.kind === 'entries' ? { s: 'Tuple', items: [kv, mv] } : it.kind === 'keys' ? kv : mv;
        // The visited set grows before the body, so that it holds on continue.
        s.cells.set(cs, { s: 'Raw', t: this.newConst('seen', '(Array Val Bool)', `(store ${s.cells.get(cs).t} ${k} true)`), h: { k: 'raw', sort: '(Array Val Bool)' } });
        this.onCell?.(cs);
        return bodyF(s, x, c3).map((o) => {
          return o;
        });
      },
      (s) => [{ k: 'next', st: s }],
      (cx2, s) => []);
  }
  if (it.s === 'Ref' && it.h?.k === 'set') return this.loopOver(n, { s: 'Iter', kind: 'keys', map: it }, st, cx, bodyF, pat);
  if (it.s === 'Ref' && it.h?.k === 'map') return this.loopOver(n, { s: 'Iter', kind: 'entries', map: it }, st, cx, bodyF, pat);
  // a generator of the source is run in place, the body of the loop at each yield
  const gen = it.s === 'Ref' && it.h?.k === 'class' && this.findMember(it, 'methods', '[Symbol.iterator]');
  if (gen?.node.asteriskToken && !this.opts.iterate) {
    this.inlined.add(gen.key);
    const onYield = (s, x, cxg) => {
      this.opts.onYield?.(this, s, x, cxg);
      return bodyF(s, x, { ...cx, env: new Env(env) }).map((o) => {
        if (o.k === 'next' || (o.k === 'continue' && !o.label)) return { k: 'val', st: o.st, v: UNDEF };
        if (o.k === 'return') return { ...o, k: 'outer return' };
        if (o.k !== 'throw') throw new Unsupported(`${o.k} out of a loop over a generator`, n);
        return o;
      });
    };
    return this.inlineInfo(gen, it, [], st, { ...cx, onYield }, n).map((o) => (o.k === 'val' ? { k: 'next', st: o.st } : o.k === 'outer return' ? { ...o, k: 'return' } : o));
  }
  const hook = this.opts.iterate;
  if (hook) {
    const r = hook(this, n, it, st, cx, bodyF, pat);
    if (r) return r;
  }
  throw new Unsupported(`iteration over ${it.s} ${JSON.stringify(it.h)}`, n);
};

P.assumeElement = function (st, t, el) {
  if (el.s !== 'Ref' || !el.nn) return;
  st.assume(`(> ${t} 0)`);
  if (el.h?.k === 'fn') st.assume(`(isFn ${t})`);
  this.assumptions.add('TypeScript: array elements within bounds hold values of their declared types');
};

P.fromVal = function (t, ty, st) {
  if (!ty || ty.s === 'Val' || ty.s === 'Null' || ty.s === 'Undef') return V('Val', t, ty?.h);
  const v = V('Val', t);
  if (ty.nn && st) {
    const tag = { Ref: 'VRef', Int: 'VInt', Str: 'VStr', Bool: 'VBool', BV: 'VBv' }[ty.s];
    st.assume(`((_ is ${tag}) ${t})`);
    this.assumptions.add('TypeScript: map entries hold values of their declared types');
  }
  return V(ty.s, this.co(v, ty.s, st), ty.h, ty.nn);
};

const idOf = (name) => Number(/!(\d+)$/.exec(name)?.[1] ?? -1);
export const tokens = (t) => t.match(/[A-Za-z_$][\w$!]*/g) ?? [];

P.loopCore = function (n, st, cx, condF, bodyF, incrF, autoInv) {
  const spec = this.loopSpecFor(n);
  if (!spec) throw new Unsupported('loop without an invariant', n);
  const startId = this.counter;
  const pre = st.clone();
  const cxi = { ...cx, pre, spec: true };
  const invs = Object.entries(spec.inv ?? {});
  const lname = spec.name ?? 'loop';
  // $out is the array map or filter builds, or else the one the body pushes to.
  const loopBody = n.statement ?? n.arguments?.[0];
  if (loopBody && invs.some(([, e]) => String(e).includes('$out')) && cx.env.lookup('$out') === undefined) {
    const names = new Set();
    const visit = (m) => {
      if (ts.isCallExpression(m) && ts.isPropertyAccessExpression(m.expression) && m.expression.name.text === 'push' && ts.isIdentifier(m.expression.expression)) names.add(m.expression.expression.text);
      ts.forEachChild(m, visit);
    };
    visit(loopBody);
    const c = names.size === 1 ? cx.env.lookup([...names][0]) : undefined;
    if (c !== undefined) cx.env.vars.set('$out', c);
  }
  // $acc is what reduce accumulates, or else the one variable the body assigns.
  if (loopBody && invs.some(([, e]) => String(e).includes('$acc')) && cx.env.lookup('$acc') === undefined) {
    const names = new Set();
    const visit = (m) => {
      if (ts.isBinaryExpression(m) && m.operatorToken.kind >= SK.FirstAssignment && m.operatorToken.kind <= SK.LastAssignment && ts.isIdentifier(m.left)) names.add(m.left.text);
      ts.forEachChild(m, visit);
    };
    visit(loopBody);
    const cs = [...names].map((x) => cx.env.lookup(x)).filter((c) => c !== undefined);
    if (cs.length === 1) cx.env.vars.set('$acc', cs[0]);
  }
  const evalInv = (e, s) => this.specBool(e, s, { ...cxi, self: cx.self });
  for (const [nm, e] of invs) this.oblige(st, `${lname}: ${nm} holds on entry`, evalInv(e, st), 'invariant');
  for (const [nm, e] of Object.entries(spec.entry ?? {})) this.oblige(st, `before ${lname}: ${nm}`, evalInv(e, st), 'assertion');

  // Discover what the loop writes.
  const W = { cells: new Set(), keys: new Map(), alloc: false };
  const cell0 = new Set(st.cells.keys());
  const savedWrite = this.onWrite;
  const savedCell = this.onCell;
  const cellVals = new Map();
  const runBody = (s) => {
    const outs = [];
    for (const o of condF(s)) {
      if (o.k !== 'val') { outs.push(o); continue; }
      const c = this.truthy(o.v, n);
      if (c === 'false') { outs.push({ k: 'exit', st: o.st }); continue; }
      const sT = o.st.clone().assume(c);
      for (const b of bodyF(sT)) {
        if (b.k === 'next' || (b.k === 'continue' && !b.label)) outs.push(...incrF(b.st).map((x) => (x.k === 'next' ? { k: 'end', st: x.st } : x)));
        else outs.push(b);
      }
      if (c !== 'true') outs.push({ k: 'exit', st: o.st.clone().assume(not(c)) });
    }
    return outs;
  };
  this.dry++;
  const savedLoopMap = this.loopMap;
  try {
    for (let round = 0; ; round++) {
      if (round > 8) throw new Unsupported('loop frame does not stabilize', n);
      let grew = false;
      const s = this.havocLoop(st, W, cellVals, startId, pre).clone();
      this.onWrite = (key, ref, s2) => {
        let set = W.keys.get(key);
        if (!set) { W.keys.set(key, (set = { refs: new Set(), fresh: false, many: false })); grew = true; }
        if (!/^(fresh|many)!/.test(ref) && (st.fresh.has(ref) || tokens(ref).every((t) => idOf(t) < startId))) {
          if (!set.refs.has(ref)) { set.refs.add(ref); grew = true; }
        } else if (s2.fresh.has(ref)) {
          if (!set.fresh) { set.fresh = true; grew = true; }
        } else if (!set.many) { set.many = true; grew = true; }
        savedWrite?.(key, ref, s2);
      };
      this.onHavoc = (key) => {
        let set = W.keys.get(key);
        if (!set) { W.keys.set(key, (set = { refs: new Set(), fresh: false, many: true })); grew = true; }
        else if (!set.many) { set.many = true; grew = true; }
      };
      for (const nm of invs) s.assume(evalInv(nm[1], s));
      for (const o of runBody(s)) {
        for (const c of cell0) {
          const a = s.cells.get(c);
          const b = o.st.cells.get(c);
          if (b === a || (b && a && b.s === a.s && b.t === a.t && b.n === a.n && b.node === a.node)) continue;
          if (!W.cells.has(c)) { W.cells.add(c); grew = true; }
          const cur = cellVals.get(c) ?? pre.cells.get(c);
          const j = this.joinSort(cur, b);
          if (!cellVals.has(c) || j !== cur.s) { cellVals.set(c, { s: b.s === 'Raw' ? 'Raw' : j === 'Num' ? 'Int' : j, h: this.joinHint(cur, b) ?? b.h, nn: cur.nn && b.nn }); grew = true; }
        }
        if (o.st.alloc !== s.alloc && !W.alloc) { W.alloc = true; grew = true; }
      }
      if (!grew) break;
    }
  } finally {
    this.dry--;
    this.onWrite = savedWrite;
    this.onCell = savedCell;
    this.onHavoc = undefined;
  }
  // Propagate the writes to an enclosing dry run.
  if (savedWrite) for (const [key, set] of W.keys) {
    for (const r of set.refs) savedWrite(key, r, st);
    if (set.fresh) savedWrite(key, 'fresh!inner', { fresh: new Map([['fresh!inner', 1]]) });
    if (set.many) savedWrite(key, `many!${this.counter++}`, { fresh: new Map() });
  }

  const s = this.havocLoop(st, W, cellVals, startId, pre);
  for (const f of autoInv?.(cx, s) ?? []) s.assume(f);
  for (const [nm, e] of invs) s.assume(evalInv(e, s));
  const dec0 = spec.dec ? this.co(this.specEval(spec.dec, s, { ...cxi, self: cx.self }), 'Int', s) : undefined;
  const res = [];
  let exits = [];
  const headPath = s.clone();
  for (const o of runBody(s)) {
    if (o.k === 'end') {
      for (const [nm, e] of invs) this.oblige(o.st, `${lname}: ${nm} is preserved`, evalInv(e, o.st), 'invariant');
      if (dec0 !== undefined) {
        const d1 = this.co(this.specEval(spec.dec, o.st, { ...cxi, self: cx.self }), 'Int', o.st);
        this.oblige(o.st, `${lname}: terminates`, and(`(>= ${dec0} 0)`, `(< ${d1} ${dec0})`), 'termination');
      }
    } else if (o.k === 'exit' || (o.k === 'break' && !o.label)) {
      exits.push({ k: 'next', st: o.st });
    } else res.push(o);
  }
  if (!spec.dec && this.dry === 0) this.noTermination = true;
  exits = this.mergeOuts(headPath, exits, 'next');
  for (const e of exits) {
    // leave the loop scope
    res.push(e);
  }
  return res;
};

P.havocLoop = function (st0, W, cellVals, startId, pre) {
  const s = st0.clone();
  if (W.alloc) {
    const a = this.newConst('alloc', 'Int');
    s.assume(`(>= ${a} ${st0.alloc})`);
    s.alloc = a;
  }
  for (const [key, set] of W.keys) {
    const sort = this.keySort(key);
    if (key.startsWith('g:')) {
      s.heap.set(key, { name: this.newConst(key.replace(/:/g, '_') + '_h', sort), sort, key, parent: null });
      continue;
    }
    const h0 = this.heap(st0, key);
    if (set.many) {
      const h = this.heapBase(s, key, sort, 'h');
      h.havoc = true;
      s.heap.set(key, h);
    } else if (set.fresh) {
      const h = this.heapBase(s, key, sort, 'h');
      this.consts.get(h.name).axioms.push(`(forall ((r Int)) (! (=> ${and(`(<= r ${st0.alloc})`, ...[...set.refs].map((x) => not(eq('r', x))))} (= (select ${h.name} r) (select ${h0.name} r))) :pattern ((select ${h.name} r))))`);
      s.heap.set(key, h);
    } else {
      const base = this.heapBase(s, key, sort, 'hv');
      let cur = h0;
      for (const r of set.refs) {
        const name = this.newConst(key.replace(/:/g, '_'), sort, `(store ${cur.name} ${r} (select ${base.name} ${r}))`);
        cur = { name, sort, key, parent: cur, write: true, ref: r, val: `(select ${base.name} ${r})` };
      }
      s.heap.set(key, cur);
    }
  }
  for (const c of W.cells) {
    const ty = cellVals.get(c) ?? st0.cells.get(c);
    let v;
    if (ty.s === 'Raw') v = { s: 'Raw', t: this.newConst('raw', ty.h.sort), h: ty.h };
    else if (['Undef', 'Null', 'Fn'].includes(ty.s)) v = this.freshVal('l', { s: 'Val' }, s);
    else v = this.freshVal('l', { s: ty.s === 'Num' ? 'Int' : ty.s, h: ty.h, nn: ty.s === 'Ref' ? ty.nn : undefined }, s);
    s.cells.set(c, v);
  }
  return s;
};

// ------------------------------------------------------------ calls
P.evCall = function (n, st, cx) {
  const callee = n.expression;
  if (cx.spec && ts.isIdentifier(callee)) {
    const r = this.specCall(callee.text, n.arguments, st, cx, n);
    if (r !== undefined) return val(st, r);
  }
  if (!cx.spec && callee.getText() === 'Object.assign' && n.arguments.length > 0) return this.evObjectAssign(n, st, cx);
  if (callee.kind === SK.SuperKeyword) {
    return bind(this.evList(n.arguments, st, cx), (s, args) => {
      return this.superCall(args, s, cx, n);
    });
  }
  if (ts.isPropertyAccessExpression(callee) && callee.expression.kind === SK.SuperKeyword) {
    return bind(this.evList(n.arguments, st, cx), (s, args) => {
      const m = this.prog.lookupMember(cx.cls.base, 'methods', callee.name.text);
      if (!m) throw new Unsupported('super method', n);
      return this.callInfo(m, cx.self, args, s, cx, n);
    });
  }
  if (!cx.spec && ts.isElementAccessExpression(callee) && !callee.questionDotToken && (ts.isIdentifier(callee.argumentExpression) || ts.isPropertyAccessExpression(callee.argumentExpression))) {
    const mname = `[${callee.argumentExpression.getText()}]`;
    if (this.contracts.has(`*.${mname}`)) {
      return bind(this.evList([callee.expression, ...n.arguments], st, cx), (s, [o, ...args]) => {
        const c = this.contracts.get(`*.${mname}`);
        this.usedContracts.add(c);
        return this.applyContract(c, o, args, s, cx, n);
      });
    }
  }
  const go = (outs) => bind(outs, (s, f) => {
    if (n.questionDotToken) {
      if (f.s === 'Undef' || f.s === 'Null') return val(s, UNDEF);
      if (f.s === 'Ref' || f.s === 'Val') {
        const isNull = f.s === 'Ref' ? `(<= ${f.t} 0)` : `(isNullish ${f.t})`;
        return this.evCondT(isNull, (s1) => val(s1, UNDEF), (s1) => bind(this.evList(n.arguments, s1, cx), (s2, args) => this.callValue(f, args, s2, cx, n)), s, cx);
      }
    }
    if (f.s === 'Undef' && ts.isOptionalChain(n)) return val(s, UNDEF);
    if (f.s === 'Fn' && f.info?.node && cx.elHint === undefined) { /* fallthrough */ }
    return bind(this.evList(n.arguments, s, cx), (s2, args) => this.callValue(f, args, s2, cx, n));
  });
  // o?.m(..): neither the method nor the arguments are evaluated without o
  if (!cx.spec && ts.isPropertyAccessExpression(callee) && callee.questionDotToken && !ts.isOptionalChain(callee.expression)) {
    return bind(this.ev(callee.expression, st, cx), (s, o) => {
      if (o.s === 'Undef' || o.s === 'Null') return val(s, UNDEF);
      if (o.s !== 'Ref' && o.s !== 'Val') return go(this.getProp(o, callee.name.text, s, cx, callee));
      (this.receivers ??= new Map()).set(callee, o);
      const isNull = o.s === 'Ref' ? `(<= ${o.t} 0)` : `(isNullish ${o.t})`;
      return this.evCondT(isNull, (s1) => val(s1, UNDEF), (s1) => go(this.getProp(o, callee.name.text, s1, cx, callee)), s, cx);
    });
  }
  return go(this.ev(callee, st, cx));
};

P.callValue = function (f, args, st, cx, n, self) {
  switch (f.s) {
    case 'Fn':
      if (f.info) return this.callInfo(f.info, self ?? f.self, args, st, cx, n);
      return this.callClosure(f, args, st, cx, n, self);
    case 'Method': return this.callMethod(f.o, f.name, args, st, cx, n);
    case 'FnMethod':
      if (f.name === 'call') return this.callValue(f.fn, args.slice(1), st, cx, n, args[0]);
      if (f.name === 'apply' && args[1]?.s === 'Ref') return this.callValue(f.fn, [{ s: 'Spread', v: args[1] }], st, cx, n, args[0]);
      if (f.name === 'bind' && args.length === 1) return val(st, { ...f.fn, self: args[0] });
      throw new Unsupported(`.${f.name}()`, n);
    case 'NS': return this.callBuiltin(f.name, args, st, cx, n);
    case 'Class': throw new Unsupported('class called', n);
    case 'Ref': case 'Val': {
      const t = this.co(f, 'Ref', st, n);
      const known = this.closures.get(t);
      if (known) return this.callValue(known, args, st, cx, n, self);
      return this.callUnknown(f, args, st, cx, n, self);
    }
  }
  throw new Unsupported(`call of ${f.s}`, n);
};

P.callUnknown = function (f, args, st, cx, n, self) {
  const e = n.expression ? stripCallee(n.expression) : undefined;
  const name = e ? (ts.isIdentifier(e) ? e.text : ts.isPropertyAccessExpression(e) ? e.name.text : '*') : '*';
  const cbs = this.contract?.callbacks ?? {};
  // (a function read from a field keeps the field's name and its holder)
  const held = /^\(select f_(\w+?)(?:_(?:0|h|hv))?!\d+ (.*)\)$/.exec(this.termOf(f.t));
  const byField = !cbs[name] && held && cbs[held[1]];
  const c = cbs[name] ?? (byField || cbs['*']);
  self ??= (e && this.receivers?.get(e)) ?? (held ? V('Ref', held[2], undefined, true) : undefined);
  if (!c) throw new Unsupported(`call of an unknown function ${name}`, n);
  if (!cx.spec) {
    const fr = this.co(f, 'Ref', st, n);
    this.safety(st, `(> ${fr} 0)`, `callable ${name}`, n);
  }
  return this.applyContract({ ...c, assumed: true, key: `callback ${name}` }, UNDEF, args, st, cx, n, f, undefined, self);
};

P.termOf = function (t) {
  for (let i = 0; i < 8 && this.consts.get(t)?.def; i++) t = this.consts.get(t).def;
  return t;
};

function stripCallee(e) {
  while (ts.isParenthesizedExpression(e) || ts.isNonNullExpression(e) || ts.isAsExpression(e)) e = e.expression;
  return e;
}

// A function declared within the function under contract may have a contract
// of its own (contract.locals[name]): calls of it use that contract, and its
// body is verified once against it, from an arbitrary later state.
P.localContract = function (node) {
  const name = node.name?.text;
  const ls = name !== undefined && ts.isFunctionDeclaration(node) ? this.contract?.locals : undefined;
  if (!ls || enclosingNode(node) !== this.contractNode) return undefined;
  return ls[name] ?? ls['*'];
};

function enclosingNode(n) {
  let x = n.parent;
  while (x && !ts.isFunctionLike(x)) x = x.parent;
  return x;
}

P.verifyLocal = function (fn, st0, cx) {
  if (this.dry > 0) return;
  const c = this.localContract(fn.node);
  const assigned = new Set();
  const scan = (m) => {
    if (ts.isBinaryExpression(m) && m.operatorToken.kind >= SK.FirstAssignment && m.operatorToken.kind <= SK.LastAssignment && ts.isIdentifier(m.left)) assigned.add(m.left.text);
    if ((ts.isPostfixUnaryExpression(m) || ts.isPrefixUnaryExpression(m)) && ts.isIdentifier(m.operand) && m.operator !== SK.ExclamationToken && m.operator !== SK.MinusToken && m.operator !== SK.TildeToken && m.operator !== SK.PlusToken) assigned.add(m.operand.text);
    ts.forEachChild(m, scan);
  };
  scan(this.contractNode.body);
  for (const [nm] of fn.env.names()) if (assigned.has(nm)) throw new Unsupported(`captured variable ${nm} is assigned`, fn.node);
  const st = st0.clone();
  const name = fn.node.name.text;
  const bound = new Map(this.verifyBound);
  const sc = { spec: true, env: undefined, module: fn.module, self: cx.self, cls: fn.cls, bound };
  this.havocModifies({ modifies: [...(c.modifies ?? []), ...(c.havoc ?? [])], fresh: c.fresh, allocates: true }, st, { ...sc, old: st.clone() });
  const params = fn.node.parameters;
  const args = params.map((p, i) => {
    const ty = c.paramTypes?.[p.name.text] ? this.parseType(c.paramTypes[p.name.text]) : p.type ? this.typeOf(p.type) : { s: 'Val' };
    const v = this.freshVal(`p_${p.name.getText()}`, ty, st);
    if (ts.isIdentifier(p.name)) bound.set(c.params?.[i] ?? p.name.text, v);
    return v;
  });
  for (const e of Object.values(c.requires ?? {})) st.assume(this.specBool(e, st, { ...sc, old: st }));
  const entry = st.clone();
  const targets = this.modTargets(c, entry, { ...sc, old: entry });
  const outs = this.callBody(fn.node, args, st, { ...cx, env: new Env(fn.env), module: fn.module, self: undefined }, fn.node);
  outs.forEach((o, i) => {
    const tag = ` in ${name}${outs.length > 1 ? ` [exit ${i + 1}]` : ''}`;
    const ty = c.returns ? this.parseType(c.returns) : undefined;
    let v = o.v ?? UNDEF;
    if (ty && o.k === 'val' && v.s !== ty.s) v = V(ty.s, this.co(v, ty.s, o.st), ty.h, ty.nn);
    const cxo = { ...sc, old: entry, result: v };
    if (o.k === 'throw') {
      if (!c.throws) this.oblige(o.st, `does not throw${tag}`, 'false', 'postcondition');
      for (const [nm, e] of Object.entries(c.throwsEnsures ?? {})) this.oblige(o.st, `ensures on throw ${nm}${tag}`, this.specBool(e, o.st, cxo), 'postcondition');
    } else {
      this.covers.push({ fn: this.current, facts: o.st.path.slice(), kind: 'return', group: name });
      for (const [nm, e] of Object.entries(c.ensures ?? {})) this.oblige(o.st, `ensures ${nm}${tag}`, this.specBool(e, o.st, cxo), 'postcondition');
    }
    this.frame(o.st, entry, targets, c, tag);
  });
};

P.callClosure = function (f, args, st, cx, n, self) {
  const lc = !cx.spec && this.localContract(f.node);
  if (lc) {
    const info = { node: f.node, module: f.module, cls: f.cls, key: f.node.name.text };
    return this.applyContract({ ...lc, key: `local ${info.key}` }, this.verifySelf ?? UNDEF, args, st, cx, n, undefined, info);
  }
  const c2 = { ...cx, env: new Env(f.env, cx.env), module: f.module, self: f.node.kind === SK.ArrowFunction ? f.self : self ?? f.self, cls: f.cls, spec: cx.spec };
  return this.callBody(f.node, args, st, c2, n);
};

P.callBody = function (node, args, st, c2, n) {
  this.depth = (this.depth ?? 0) + 1;
  if (this.depth > 24) throw new Unsupported('call depth', n);
  try {
    const base = st;
    let outs = this.bindParams(node.parameters, args, st, c2, n);
    outs = outs.flatMap((o) => {
      if (o.k !== 'val') return [o];
      const body = node.body;
      if (!ts.isBlock(body)) return this.ev(body, o.st, c2);
      return this.execBlock(body.statements, o.st, c2).map((x) => {
        if (x.k === 'return') return { k: 'val', st: x.st, v: x.v };
        if (x.k === 'next') return { k: 'val', st: x.st, v: UNDEF };
        return x;
      });
    });
    const rt = node.type && ts.isTypeReferenceNode(node.type) ? this.typeOf(node.type) : undefined;
    if (rt?.s === 'BV') outs = outs.map((o) => (o.k === 'val' && o.v.s === 'Num' ? { ...o, v: V('BV', this.co(o.v, 'BV', o.st, n)) } : o));
    return c2.spec || this.contract?.split === 'statements' ? outs : this.mergeOuts(base, outs, 'val');
  } finally {
    this.depth--;
  }
};

P.bindParams = function (params, args, st, c2, n) {
  let outs = val(st, UNDEF);
  params.forEach((p, i) => {
    if (p.name.kind === SK.Identifier && p.name.text === 'this') return;
    const off = params.length > 0 && params[0].name.kind === SK.Identifier && params[0].name.text === 'this' ? 1 : 0;
    const idx = i - off;
    outs = bind(outs, (s) => {
      if (p.dotDotDotToken) {
        const ty = p.type ? this.typeOf(p.type) : { h: { k: 'array', el: { s: 'Val' } } };
        const rest = args.slice(idx);
        if (rest.length === 1 && rest[0].s === 'Spread') return this.bindPattern(p.name, rest[0].v, s, c2);
        const arr = this.newArray(s, ty.h?.el ?? { s: 'Val' }, '0');
        for (const a of rest) {
          if (a.s === 'Spread') this.arrayAppendAll(arr, a.v, s, c2, n);
          else this.arrayPush(arr, a, s, c2, n);
        }
        return this.bindPattern(p.name, arr, s, c2);
      }
      let v = args[idx] ?? UNDEF;
      if (v.s === 'Spread') throw new Unsupported('spread argument', n);
      const ty = p.type ? this.typeOf(p.type) : undefined;
      if (ty?.s === 'BV' && v.s === 'Num') v = V('BV', this.co(v, 'BV', s, n));
      if (ty?.h && v.s === 'Ref' && (!v.h || v.h.k === 'obj')) v = { ...v, h: ty.h };
      if (p.initializer) {
        const isU = this.eqVals(v, UNDEF, 'strict', s, p);
        return bind(this.evCondT(isU, (a) => this.ev(p.initializer, a, c2), (b) => val(b, v), s, c2), (s2, x) => this.bindPattern(p.name, x, s2, c2));
      }
      return this.bindPattern(p.name, v, s, c2);
    });
  });
  return outs;
};

P.callInfo = function (info, self, args, st, cx, n) {
  const exactCls = self?.h?.k === 'class' && self.h.exact ? self.h.name : undefined;
  const c = (exactCls && info.cls && this.contracts.get(`${exactCls}.${info.key.split('.')[1]}`)) || this.contracts.get(info.key);
  const forceInline = this.contract?.inline?.includes(info.key) || c?.inline;
  if (cx.spec) {
    if (c?.value !== undefined) return this.applyContract(c, self ?? UNDEF, args, st, cx, n, undefined, info);
    if (this.opts.specInline?.includes(info.key) || this.contract?.specInline?.includes(info.key)) return this.inlineInfo(info, self, args, st, cx, n);
    throw new Unsupported(`real function ${info.key} used in a specification`, n);
  }
  if (c && !forceInline && (c !== this.contract || this.recursionOk(info))) {
    this.usedContracts.add(c);
    return this.applyContract(c, self ?? UNDEF, args, st, cx, n, undefined, info);
  }
  if (this.inlineStack?.includes(info)) throw new Unsupported(`recursive function ${info.key} without a contract`, n);
  this.inlined.add(info.key);
  return this.inlineInfo(info, self, args, st, cx, n);
};

P.recursionOk = function () {
  return true;
};

P.inlineInfo = function (info, self, args, st, cx, n) {
  this.inlineStack = [...(this.inlineStack ?? []), info];
  try {
    const isArrow = info.node.kind === SK.ArrowFunction;
    const c2 = { ...cx, env: new Env(undefined, cx.env), module: info.module, self: isArrow ? undefined : self, cls: info.cls, bound: undefined };
    const r = this.callBody(info.node, args, st, c2, n);
    return r;
  } finally {
    this.inlineStack = this.inlineStack.slice(0, -1);
  }
};

P.specInline = function (info, self, args, st, cx, n) {
  const outs = this.inlineInfo(info, self, args, st, { ...cx, spec: true }, n);
  if (outs.length !== 1 || outs[0].k !== 'val') throw new Unsupported(`getter ${info.key} is not an expression`, n);
  return outs[0].v;
};

P.callMethod = function (o, name, args, st, cx, n) {
  if (o.s === 'Str') return this.callStr(o, name, args, st, cx, n);
  const h = o.h;
  if (h?.k === 'array') return this.callArray(o, name, args, st, cx, n);
  if (h?.k === 'map' || h?.k === 'set') return this.callMap(o, name, args, st, cx, n);
  const cname = h?.k === 'class' ? h.name : undefined;
  if (cname) {
    const m = this.findMember(o, 'methods', name);
    if (m) {
      const overriders = h.exact ? [] : this.prog.allSubclasses(cname).filter((s) => s !== cname && this.prog.classes.get(s).methods.has(name));
      if (overriders.length > 0 && !this.contracts.get(`${cname}.${name}`)?.abstract) {
        throw new Unsupported(`virtual call ${cname}.${name}`, n);
      }
      return this.callInfo(m, o, args, st, cx, n);
    }
    const c = this.contracts.get(`${cname}.${name}`) ?? this.contracts.get(`*.${name}`);
    if (c) {
      this.usedContracts.add(c);
      return this.applyContract(c, o, args, st, cx, n);
    }
  }
  const c = this.contracts.get(`*.${name}`);
  if (c) {
    this.usedContracts.add(c);
    return this.applyContract(c, o, args, st, cx, n);
  }
  // a function stored in a field
  const fty = this.fieldType(name);
  const f = this.readField(o, name, st, cx, n);
  if (f.s === 'Fn') return this.callValue(f, args, st, cx, n, o);
  if (f.s === 'Ref' || f.s === 'Val') return this.callValue(f, args, st, cx, n, o);
  throw new Unsupported(`method ${cname}.${name}`, n);
};

// ------------------------------------------------------------ contracts
P.paramNames = function (c, info) {
  if (c.params && Array.isArray(c.params)) return c.params;
  const node = info?.node ?? this.prog.functions.get(c.key)?.node;
  if (node) return node.parameters.filter((p) => p.name.getText() !== 'this').map((p, i) => (ts.isIdentifier(p.name) ? p.name.text : `$${i}`));
  return c.args ?? [];
};

P.specCx = function (c, info, self, bound, st, cx) {
  const module = info?.module ?? this.prog.functions.get(c.key)?.module ?? cx.module;
  // (a callback without a receiver: `this` is that of the caller)
  if (self?.s === 'Undef' && c.key.startsWith('callback ') && cx.self) self = cx.self;
  return { spec: true, env: undefined, module, self, cls: info?.cls, bound, old: st, pre: cx.pre };
};

P.applyContract = function (c, self, args, st, cx, n, fval, info, receiver) {
  const names = c.argNames ?? this.paramNames(c, info);
  const bound = new Map(/^(callback|local) /.test(c.key) || c.caller ? this.verifyBound : []);
  const nodeParams = (info?.node ?? this.prog.functions.get(c.key)?.node)?.parameters;
  names.forEach((nm, i) => {
    let a = args[i] ?? UNDEF;
    if (a.s === 'Spread') {
      if (!c.rest) throw new Unsupported('spread argument to a contract', n);
      a = a.v;
    } else if (c.rest && i === names.length - 1) {
      const arr = this.newArray(st, c.restEl ? this.parseType(c.restEl) : { s: 'Val' }, '0');
      for (const x of args.slice(i)) x.s === 'Spread' ? this.arrayAppendAll(arr, x.v, st, cx, n) : this.arrayPush(arr, x, st, cx, n);
      a = arr;
    }
    const tyText = c.paramTypes?.[nm];
    const dflt = nodeParams?.filter((q) => q.name.getText() !== 'this')[i]?.initializer;
    if (dflt && tyText && a.s === 'Undef' && !['Ref', 'Val'].includes(this.parseType(tyText).s)) {
      const outs = this.ev(dflt, st, { ...cx, env: new Env(), module: info?.module ?? cx.module });
      if (outs.length === 1) a = outs[0].v;
    }
    if (tyText) {
      const ty = this.parseType(tyText);
      if (a.s !== ty.s) a = V(ty.s, this.co(a, ty.s, st, n), ty.h ?? a.h, ty.nn);
      else if (ty.h && !a.h) a = { ...a, h: ty.h };
    } else if (nodeParams) {
      const p = nodeParams.filter((q) => q.name.getText() !== 'this')[i];
      if (p?.type) {
        const ty = this.typeOf(p.type);
        if (ty.s !== a.s && ty.s !== 'Null' && ty.s !== 'Undef' && !(ty.s === 'Val' && ['Fn', 'Class'].includes(a.s) === false && a.s === 'Ref' && a.h)) {
          if (!(p.initializer && a.s === 'Undef')) a = V(ty.s, this.co(a, ty.s, st, n), a.h ?? ty.h, ty.nn);
        }
        if (a.s === 'Ref' && ty.h && (!a.h || a.h.k === 'obj')) a = { ...a, h: ty.h };
      }
      if (p?.initializer && (a.s === 'Undef')) {
        const outs = this.ev(p.initializer, st, { ...cx, env: new Env(), module: info?.module ?? cx.module });
        if (outs.length === 1) a = outs[0].v;
      }
    }
    bound.set(nm, a);
  });
  if (fval) bound.set('callee', fval);
  if (receiver || c.key.startsWith('callback ')) bound.set('receiver', receiver ?? UNDEF);
  const scx0 = this.specCx(c, info, self, bound, st, cx);
  const old = st.clone();
  const scx = { ...scx0, old };
  if (!cx.spec) {
    for (const [nm, e] of Object.entries(c.requires ?? {})) {
      const g = this.specBool(e, st, scx);
      this.oblige(st, `${c.key}: requires ${nm}`, g, 'precondition');
      st.assume(g);
    }
  }
  if (c.value !== undefined) {
    let v = this.specEval(c.value, st, scx);
    if (c.returns) {
      const ty = this.parseType(c.returns);
      v = V(ty.s, this.co(v, ty.s, st, n), ty.h ?? v.h, ty.nn);
    }
    return val(st, v);
  }
  if (cx.spec) throw new Unsupported(`impure ${c.key} in a specification`, n);
  const outs = [];
  if (c.hook) return c.hook(this, { self, args, bound, st, cx, n, scx });
  const run = (s, kind) => {
    const oldS = s.clone();
    this.havocModifies(c, s, { ...scx, old: oldS });
    const cx2 = { ...scx, old: oldS };
    let result;
    const ty = c.returns ? this.parseType(c.returns) : this.returnType(c, info);
    if (kind === 'val') {
      result = ty === 'void' ? UNDEF : this.freshVal('res', ty, s);
      if (c.freshResult) {
        s.assume(`(> ${result.t} ${oldS.alloc})`);
        s.fresh.set(result.t, this.counter);
      }
      cx2.result = result;
      for (const e of Object.values(c.ensures ?? {})) s.assume(this.specBool(e, s, cx2));
    } else {
      const err = V('Val', this.newConst('err', 'Val'));
      cx2.result = err;
      for (const e of Object.values(c.throwsEnsures ?? {})) s.assume(this.specBool(e, s, cx2));
      result = err;
    }
    outs.push({ k: kind, st: s, v: result });
  };
  if (c.defers && this.dry === 0 && !cx.spec) {
    // (`defers: 'x#'`: the k-th registration has the tag `x k`)
    const fns = [c.defersParam ?? 0].flat().map((k) => {
      const fn = args[k];
      return fn && fn.s !== 'Fn' ? this.closures.get(this.co(fn, 'Ref', st, n)) ?? fn : fn;
    }).filter((fn) => fn?.s === 'Fn');
    if (fns.length > 0) {
      run(st, 'val');
      const tag = c.defers.endsWith('#') ? `${c.defers.slice(0, -1)} ${this.countDeferred(st, outs, n)}` : c.defers;
      for (const fn of fns) this.deferred.push({ tag, fn, fnRef: V('Ref', this.co(fn, 'Ref', st, n)), handle: outs[0].v, args: names.map((nm) => [nm, bound.get(nm)]), path: st.path.slice() });
      return outs;
    }
  }
  if (c.throws) {
    const s2 = st.clone();
    run(st, 'val');
    if (c.throws !== true) s2.assume(this.specBool(c.throws, s2, scx));
    run(s2, 'throw');
  } else run(st, 'val');
  return outs;
};

// (how many there have been is known on every path)
P.countDeferred = function (st, outs, n) {
  const k = (st.cells.get(this.deferredCell) ?? { s: 'Num', n: 0 });
  if (k.s !== 'Num') throw new Unsupported('a different number of registrations on different paths', n);
  for (const o of outs) o.st.cells.set(this.deferredCell, { s: 'Num', n: k.n + 1 });
  return k.n + 1;
};

P.returnType = function (c, info) {
  const node = info?.node ?? this.prog.functions.get(c.key)?.node;
  if (!node) return 'void';
  const t = node.type;
  if (t && t.kind === SK.VoidKeyword) return 'void';
  if (t && ts.isTypePredicateNode(t)) return t.assertsModifier ? 'void' : { s: 'Bool' };
  if (!t) return 'void';
  return this.typeOf(t);
};

P.modTargets = function (c, st, scx) {
  // -> list of {key, ref|null}
  const res = [];
  for (const m of c.modifies ?? []) {
    let r;
    if (m.startsWith('$')) res.push({ key: 'g:' + m.slice(1), ref: null });
    else if ((r = /^\*\.(\w+)$/.exec(m))) res.push({ key: 'f:' + r[1], ref: null });
    else if ((r = /^\*elems:(\w+)$/.exec(m))) { res.push({ key: 'el:' + r[1], ref: null }, { key: 'len', ref: null }); }
    else if (m === '*entries') { res.push({ key: 'dom', ref: null }, { key: 'mval', ref: null }); }
    else if ((r = /^elems\((.*)\)$/.exec(m))) {
      const a = this.specEval(r[1], scx.old ?? st, scx);
      if (a.h?.k !== 'array') throw new Unsupported(`elems(${r[1]}) is not an array`);
      const ref = this.co(a, 'Ref', st);
      res.push({ key: `el:${this.elSort(a.h.el)}`, ref }, { key: 'len', ref });
    } else if ((r = /^entries\((.*)\)$/.exec(m))) {
      const a = this.specEval(r[1], scx.old ?? st, scx);
      res.push({ key: 'dom', ref: this.co(a, 'Ref', st) }, { key: 'mval', ref: this.co(a, 'Ref', st) });
    } else if ((r = /^(.*)\.(\w+)$/.exec(m))) {
      const a = this.specEval(r[1], scx.old ?? st, scx);
      res.push({ key: 'f:' + r[2], ref: this.co(a, 'Ref', st) });
    } else throw new Unsupported(`modifies ${m}`);
  }
  return res;
};

P.havocModifies = function (c, st, scx) {
  const targets = this.modTargets(c, st, scx);
  for (const t of targets) if (this.isFrozen(t.key)) throw new Unsupported(`modifies ${t.key}, which is set only when an object is made`);
  const fresh = new Set(c.fresh ?? []);
  if (c.fresh || c.freshResult || c.allocates) {
    const a = this.newConst('alloc', 'Int');
    st.assume(`(>= ${a} ${st.alloc})`);
    const old = st.alloc;
    st.alloc = a;
    for (const f of fresh) {
      const key = normKey(f);
      if (this.isFrozen(key)) continue;
      if (targets.some((t) => t.key === key && t.ref === null)) continue;
      const h0 = this.heap(st, key);
      const h = this.heapBase(st, key, this.keySort(key), 'c');
      this.consts.get(h.name).axioms.push(`(forall ((r Int)) (! (=> (<= r ${old}) (= (select ${h.name} r) (select ${h0.name} r))) :pattern ((select ${h.name} r))))`);
      st.heap.set(key, h);
      this.onWrite?.(key, 'fresh!call', { fresh: new Map([['fresh!call', 1]]) });
    }
  }
  const byKey = new Map();
  for (const t of targets) {
    if (!byKey.has(t.key)) byKey.set(t.key, []);
    byKey.get(t.key).push(t);
  }
  for (const [key, ts_] of byKey) {
    if (key.startsWith('g:')) {
      const sort = this.keySort(key);
      st.heap.set(key, { name: this.newConst(key.replace(/:/g, '_'), sort), sort, key, parent: null });
      this.onWrite?.(key, 'ghost', st);
      continue;
    }
    if (ts_.some((t) => t.ref === null)) {
      const h = this.heapBase(st, key, this.keySort(key), 'c');
      st.heap.set(key, h);
      this.onHavoc?.(key);
      this.onWrite?.(key, `many!${this.counter++}`, { fresh: new Map() });
      continue;
    }
    const base = this.heapBase(st, key, this.keySort(key), 'cv');
    for (const t of ts_) this.hwrite(st, key, t.ref, `(select ${base.name} ${t.ref})`);
  }
};

export function normKey(f) {
  if (f.startsWith('elems')) return 'el:' + f.slice(6);
  if (f.includes(':') || f === 'len' || f === 'dom' || f === 'mval') return f;
  if (f.startsWith('elems')) return 'el:' + f.slice(6);
  return 'f:' + f;
}

// ------------------------------------------------------------ spec calls
P.specCall = function (name, argNodes, st, cx, n) {
  switch (name) {
    case 'old': {
      if (!cx.old) throw new Unsupported('old() is not available', n);
      return this.specEval(argNodes[0], cx.old, { ...cx, inOld: true });
    }
    case 'entry': {
      // (the entry of the function under contract)
      if (!this.entry) throw new Unsupported('entry() is not available', n);
      return this.specEval(argNodes[0], this.entry, { ...cx, inOld: true });
    }
    case 'pre': {
      if (!cx.pre) throw new Unsupported('pre() is not available', n);
      return this.specEval(argNodes[0], cx.pre, cx);
    }
    case 'implies': {
      const a = this.specBool(argNodes[0], st, cx);
      if (a === 'false') return TRUE;
      return BOOL(implies(a, this.specBool(argNodes[1], st, cx)));
    }
    case 'iff': return BOOL(eq(this.specBool(argNodes[0], st, cx), this.specBool(argNodes[1], st, cx)));
    case 'forall': case 'exists': {
      const fn = argNodes[0];
      const env = new Env(cx.env);
      const bound = new Map(cx.bound ?? []);
      const binders = [];
      const extra = [];
      const s2 = st;
      const local = new Map();
      for (const p of fn.parameters) {
        const ty = this.typeOf(p.type ?? undefined);
        const t = p.type ? p.type.getText() : 'Val';
        const tyy = ['Int', 'Bool', 'BV', 'Str', 'Val', 'Ref'].includes(t) ? { s: t } : ty;
        const nm = `${p.name.text}?${this.qcount = (this.qcount ?? 0) + 1}`.replace('?', '$q');
        binders.push(`(${nm} ${smtSort(tyy.s)})`);
        bound.set(p.name.text, V(tyy.s, nm, tyy.h, tyy.nn));
        local.set(p.name.text, true);
      }
      // bound variables shadow the program's variables
      const c2 = { ...cx, bound, env: new MaskEnv(cx.env, local) };
      const body = this.specBool(fn.body, s2, c2);
      let pats = '';
      if (argNodes[1]) {
        const list = argNodes.slice(1).flatMap((t) => (ts.isArrayLiteralExpression(t) ? t.elements : [t]));
        pats = list.map((p) => {
          const multi = ts.isArrayLiteralExpression(p) ? p.elements : [p];
          return `:pattern (${multi.map((q) => { const v = this.specEval(q, s2, c2); return v.t; }).join(' ')})`;
        }).join(' ');
      }
      const b = pats ? `(! ${body} ${pats})` : body;
      return BOOL(`(${name} (${binders.join(' ')}) ${b})`);
    }
    case 'fresh': { // fresh(x): x was allocated by this call
      const v = this.specEval(argNodes[0], st, cx);
      return BOOL(`(> ${this.co(v, 'Ref', st, n)} ${cx.old.alloc})`);
    }
    case 'allocated': {
      const v = this.specEval(argNodes[0], st, cx);
      return BOOL(`(<= ${this.co(v, 'Ref', st, n)} ${st.alloc})`);
    }
    case 'is': return BOOL(this.eqVals(this.specEval(argNodes[0], st, cx), this.specEval(argNodes[1], st, cx), 'is', st, n));
    case 'isType': {
      const v = this.specEval(argNodes[0], st, cx);
      return BOOL(this.typeIs(v, argNodes[1].text, st, n));
    }
    case 'isClass': {
      const v = this.specEval(argNodes[0], st, cx);
      return BOOL(eq(`(cls ${this.co(v, 'Ref', st, n)})`, this.clsId(argNodes[1].text)));
    }
    case 'isArr': return BOOL(`(isArr ${this.co(this.specEval(argNodes[0], st, cx), 'Ref', st, n)})`);
    case 'isFn': return BOOL(`(isFn ${this.co(this.specEval(argNodes[0], st, cx), 'Ref', st, n)})`);
    case 'isRef': return BOOL(`((_ is VRef) ${this.co(this.specEval(argNodes[0], st, cx), 'Val', st, n)})`);
    case 'asRef': { const v = this.specEval(argNodes[0], st, cx); const ty = argNodes[1] ? this.parseType(argNodes[1].text) : {}; return V('Ref', v.s === 'Int' ? v.t : this.co(v, 'Ref', st, n), ty.h, true); }
    case 'asVal': { const v = this.specEval(argNodes[0], st, cx); return V('Val', this.co(v, 'Val', st, n)); }
    case 'asInt': { const v = this.specEval(argNodes[0], st, cx); return INT(this.co(v, 'Int', st, n)); }
    case 'asStr': { const v = this.specEval(argNodes[0], st, cx); return V('Str', this.co(v, 'Str', st, n)); }
    case 'typed': { // typed(expr, 'Type')
      const v = this.specEval(argNodes[0], st, cx);
      const ty = this.parseType(argNodes[1].text);
      return V(ty.s, v.s === 'Raw' || (v.s === 'Int' && ty.s === 'Ref') ? v.t : this.co(v, ty.s, st, n), ty.h, ty.nn);
    }
    case 'has': { // has(map, key)
      const m = this.specEval(argNodes[0], st, cx);
      const k = this.specEval(argNodes[1], st, cx);
      return BOOL(`(select ${this.hread(st, 'dom', this.co(m, 'Ref', st, n)).term} ${this.co(k, 'Val', st, n)})`);
    }
    case 'at': { // at(map, key): value of a map entry
      const m = this.specEval(argNodes[0], st, cx);
      const k = this.specEval(argNodes[1], st, cx);
      const t = `(select ${this.hread(st, 'mval', this.co(m, 'Ref', st, n)).term} ${this.co(k, 'Val', st, n)})`;
      const ty = m.h?.val;
      return ty && ty.s !== 'Val' ? V(ty.s, this.co(V('Val', t), ty.s, st, n), ty.h) : V('Val', t);
    }
    case 'elems': { // raw element array of an array object
      const a = this.specEval(argNodes[0], st, cx);
      const s = this.elSort(a.h.el);
      return { s: 'Raw', t: this.hread(st, `el:${s}`, this.co(a, 'Ref', st, n)).term, h: { k: 'raw', sort: `(Array Int ${smtSort(s)})` } };
    }
    case 'store': {
      const a = this.specEval(argNodes[0], st, cx);
      const k = this.specEval(argNodes[1], st, cx);
      const v = this.specEval(argNodes[2], st, cx);
      const [, ks, vs] = splitSort2(a.h.sort);
      return { s: 'Raw', t: `(store ${a.t} ${this.coRaw(k, ks, st, n)} ${this.coRaw(v, vs, st, n)})`, h: a.h };
    }
    case 'heap': { // heap('field'): the whole heap component, for frame conditions
      const key = normKey(argNodes[0].text);
      return { s: 'Raw', t: this.heap(st, key).name, h: { k: 'raw', sort: this.keySort(key) } };
    }
    case 'bvult': return BOOL(`(bvult ${this.co(this.specEval(argNodes[0], st, cx), 'BV', st, n)} ${this.co(this.specEval(argNodes[1], st, cx), 'BV', st, n)})`);
    case 'shl': return V('BV', `(bvshl ${this.co(this.specEval(argNodes[0], st, cx), 'BV', st, n)} ${this.co(this.specEval(argNodes[1], st, cx), 'BV', st, n)})`);
    case 'bits': return V('BV', this.co(this.specEval(argNodes[0], st, cx), 'BV', st, n));
  }
  const f = this.specFns[name] ?? this.contract?.specFns?.[name];
  if (f) {
    const args = argNodes.map((a) => this.specEval(a, st, cx));
    if (f.expr !== undefined) {
      const bound = new Map();
      f.params.forEach((p, i) => {
        let v = args[i];
        const ty = f.types?.[i] && this.parseType(f.types[i]);
        if (ty) v = V(ty.s, v.s === 'Raw' ? v.t : this.co(v, ty.s, st, n), ty.h ?? v.h, ty.nn ?? v.nn);
        bound.set(p, v);
      });
      return this.specEval(f.expr, st, { ...cx, env: undefined, bound, self: cx.self });
    }
    if (f.smt) {
      // uninterpreted or defined SMT function with explicit sorts, heap arguments appended
      const ts_ = args.map((v, i) => (v.s === 'Raw' ? v.t : this.co(v, f.args[i], st, n)));
      for (const k of f.heap ?? []) ts_.push(this.heap(st, normKey(k)).name);
      for (const k of f.heapOf ?? []) ts_.push(this.heap(st, normKey(k)).name);
      const t = ts_.length ? `(${f.smt} ${ts_.join(' ')})` : f.smt;
      const known = ['Int', 'Bool', 'BV', 'Str', 'Ref', 'Val'];
      return known.includes(f.ret) ? V(f.ret, t, f.h ? this.parseType(f.h).h : undefined) : { s: 'Raw', t, h: { k: 'raw', sort: f.ret } };
    }
  }
  if (cx.bound?.has(name) || cx.env?.lookup(name) !== undefined) return undefined;
  return undefined;
};

P.coRaw = function (v, sort, st, n) {
  if (v.s === 'Raw') return v.t;
  if (sort === 'Int' && ['Ref', 'Fn', 'Class', 'Null', 'Undef'].includes(v.s)) return this.co(v, 'Ref', st, n);
  return this.co(v, unS(sort), st, n);
};

function splitSort2(s) {
  const inner = s.slice(1, -1);
  const out = [];
  let d = 0;
  let cur = '';
  for (const ch of inner) {
    if (ch === '(') d++;
    if (ch === ')') d--;
    if (ch === ' ' && d === 0) { if (cur) out.push(cur); cur = ''; } else cur += ch;
  }
  if (cur) out.push(cur);
  return out;
}
const unS = (s) => (s === '(_ BitVec 32)' ? 'BV' : s);

class MaskEnv extends Env {
  constructor(parent, mask) {
    super(parent);
    this.mask = mask;
  }
  lookup(name) {
    if (this.mask.has(name)) return undefined;
    return this.parent?.lookup(name);
  }
}
