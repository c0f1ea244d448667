// Object construction and the built-in operations of JavaScript.
import { ts, SK } from './front.mjs';
import { and, or, not, ite, eq, int, smtSort } from './smt.mjs';
import { Verifier, Unsupported, V, BOOL, INT, NUM, UNDEF, NULL, TRUE, FALSE, St, Env, newCell } from './engine.mjs';
import './stmt.mjs';

const P = Verifier.prototype;
const val = P.val;
const bind = P.bind;

// ------------------------------------------------------------ construction
P.initFields = function (cls, self, st, cx, n) {
  let outs = val(st, UNDEF);
  for (const [name, f] of cls.fields) {
    if (f.param) continue;
    outs = bind(outs, (s) => {
      if (!f.init) {
        const ft = this.fieldType(name);
        if (ft.s === 'Ref' || ft.s === 'Val') this.writeField(self, name, UNDEF, s, cx, n);
        return val(s, UNDEF);
      }
      const c2 = { ...cx, env: new Env(undefined), module: cls.module, self, cls, bound: undefined };
      return bind(this.ev(f.init, s, c2), (s2, v) => {
        if (v.s === 'Num' && this.fieldType(name).s === 'BV') v = V('BV', this.co(v, 'BV', s2, n));
        if (v.h?.k === 'array' && v.h.el.weak && this.fieldType(name).h?.k === 'array') {
          v = this.newArray(s2, this.fieldType(name).h.el, '0');
        }
        this.writeField(self, name, v, s2, cx, n);
        return val(s2, UNDEF);
      });
    });
  }
  return outs;
};

P.construct = function (cls, self, args, st, cx, n, top = true) {
  const c = this.contracts.get(`${cls.name}.constructor`);
  if (c && c !== this.contract && !this.contract?.inline?.includes(c.key) && !c.inline) {
    this.usedContracts.add(c);
    return this.applyContract(c, self, args, st, cx, n, undefined, this.prog.functions.get(c.key));
  }
  this.inlined.add(`${cls.name}.constructor`);
  return this.constructBody(cls, self, args, st, cx, n);
};

P.constructBody = function (cls, self, args, st, cx, n) {
  if (!cls.ctor) {
    const base = cls.base && this.prog.classes.get(cls.base);
    const outs = base ? this.construct(base, self, args, st, cx, n) : val(st, UNDEF);
    return bind(outs, (s) => this.initFields(cls, self, s, cx, n));
  }
  const c2 = { ...cx, env: new Env(undefined), module: cls.module, self, cls, bound: undefined, ctorOf: cls };
  let outs = cls.base ? val(st, UNDEF) : this.initFields(cls, self, st, cx, n);
  const own = cls.ctor;
  return bind(outs, (s) => {
    // parameters, parameter properties, then the body
    this.depth = (this.depth ?? 0) + 1;
    try {
      return bind(this.bindParams(own.parameters, args, s, c2, n), (s2) => {
        const props = (s3) => {
          for (const p of own.parameters) {
            if (ts.getCombinedModifierFlags(p) & ts.ModifierFlags.ParameterPropertyModifier) {
              this.writeField(self, p.name.text, s3.cells.get(c2.env.lookup(p.name.text)), s3, c2, n);
            }
          }
        };
        if (!cls.base) props(s2);
        else c2.afterSuper = props;
        return this.execBlock(own.body.statements, s2, c2).map((x) => (x.k === 'next' || x.k === 'return' ? { k: 'val', st: x.st, v: UNDEF } : x));
      });
    } finally {
      this.depth--;
    }
  });
};

P.superCall = function (args, st, cx, n) {
  const base = this.prog.classes.get(cx.cls.base);
  const outs = base ? this.construct(base, cx.self, args, st, cx, n) : val(st, UNDEF);
  return bind(outs, (s) => bind(this.initFields(cx.cls, cx.self, s, cx, n), (s2) => {
    cx.afterSuper?.(s2);
    return val(s2, UNDEF);
  }));
};

P.newMap = function (st, h) {
  const r = this.alloc(st, h.k);
  st.assume(`(not (isFn ${r}))`);
  this.hwrite(st, 'dom', r, '((as const (Array Val Bool)) false)');
  return V('Ref', r, h, true);
};

P.evNew = function (n, st, cx) {
  const argNodes = n.arguments ?? [];
  return bind(this.ev(n.expression, st, cx), (s, c) => bind(this.evList(argNodes, s, cx), (s2, args) => {
    if (c.s === 'Class') {
      const cls = c.info;
      const ext = this.contracts.get(`new ${cls.name}`);
      if (ext) return this.applyContract(ext, UNDEF, args, s2, cx, n);
      const r = this.alloc(s2, cls.name, cls.name);
      s2.assume(`(not (isFn ${r}))`);
      s2.assume(`(not (isArr ${r}))`);
      const self = V('Ref', r, { k: 'class', name: cls.name, exact: true }, true);
      return bind(this.construct(cls, self, args, s2, cx, n), (s3) => val(s3, self));
    }
    const name = c.s === 'NS' ? c.name : undefined;
    const ext = this.contracts.get(`new ${name ?? n.expression.getText()}`);
    if (ext) {
      this.usedContracts.add(ext);
      return this.applyContract(ext, UNDEF, args, s2, cx, n);
    }
    switch (name) {
      case 'Map': case 'WeakMap': case 'Set': case 'WeakSet': {
        if (args.length > 0) throw new Unsupported(`new ${name}(iterable)`, n);
        let h = this.hintOfName(name, n.typeArguments);
        if (!n.typeArguments) {
          const p = n.parent;
          const f = ts.isPropertyDeclaration(p) ? this.fieldType(p.name.text) : undefined;
          if (f?.h && (f.h.k === 'map' || f.h.k === 'set')) h = f.h;
          else if (ts.isVariableDeclaration(p) && p.type) h = this.typeOf(p.type).h ?? h;
        }
        return val(s2, this.newMap(s2, h));
      }
      case 'Array': {
        const el = this.expectedEl?.(n, cx) ?? (n.typeArguments ? this.typeOf(n.typeArguments[0]) : { s: 'Val' });
        const len = args[0] ? this.asInt(args[0], s2, cx, n) : '0';
        this.safety(s2, `(>= ${len} 0)`, 'array length', n);
        return val(s2, this.newArray(s2, el, len));
      }
      case 'Error': case 'TypeError': case 'ReferenceError': {
        const r = this.alloc(s2, 'error');
        s2.assume(`(not (isFn ${r}))`);
        this.declFun('errKind', ['Int'], 'Str');
        return val(s2, V('Ref', r, { k: 'class', name }, true));
      }
    }
    throw new Unsupported(`new ${n.expression.getText()}`, n);
  }));
};

// ------------------------------------------------------------ arrays
P.clampIndex = function (v, len, st, cx, n) {
  const t = this.asInt(v, st, cx, n);
  if (t === '0' || t === len) return t;
  if (/^\d+$/.test(t)) return `(ite (< ${t} ${len}) ${t} ${len})`;
  return this.newConst('ix', 'Int', `(ite (< ${t} 0) (ite (< (+ ${t} ${len}) 0) 0 (+ ${t} ${len})) (ite (> ${t} ${len}) ${len} ${t}))`);
};

P.asVal1 = function (s, t, h, cond) {
  // value of an optional element
  if (s === 'Ref') return V('Ref', ite(cond, t, '(- 1)'), h);
  if (s === 'Val') return V('Val', ite(cond, t, 'VUndef'), h);
  return V('Val', ite(cond, this.co(V(s, t), 'Val'), 'VUndef'), h);
};

P.callArray = function (o, name, args, st, cx, n) {
  if (!cx.spec) this.deref(o, st, cx, n, `array of ${name}`);
  const el = o.h.el;
  const s = this.elSort(el);
  const S = smtSort(s);
  const arr = () => this.hread(st, `el:${s}`, o.t).term;
  const len = () => this.hread(st, 'len', o.t).term;
  switch (name) {
    case 'push': {
      let r = INT(len());
      for (const a of args) {
        if (a.s === 'Spread') this.arrayAppendAll(o, a.v, st, cx, n);
        else r = this.arrayPush(o, a, st, cx, n);
      }
      if (!cx.spec) this.opts.onPush?.(this, o, args, st, cx);
      return val(st, INT(len()));
    }
    case 'pop': {
      const L = len();
      const v = this.asVal1(s, `(select ${arr()} (- ${L} 1))`, el.h, `(> ${L} 0)`);
      const c = this.newConst('popped', v.s, v.t);
      this.hwrite(st, 'len', o.t, `(ite (> ${L} 0) (- ${L} 1) 0)`);
      return val(st, { ...v, t: c });
    }
    case 'at': {
      const i = this.asInt(args[0], st, cx, n);
      const L = len();
      const ix = args[0].s === 'Num' ? (args[0].n < 0 ? `(+ ${L} ${i})` : i) : this.newConst('at', 'Int', `(ite (< ${i} 0) (+ ${L} ${i}) ${i})`);
      return val(st, this.asVal1(s, `(select ${arr()} ${ix})`, el.h, and(`(<= 0 ${ix})`, `(< ${ix} ${L})`)));
    }
    case 'slice': case 'toReversed': {
      const L = this.newConst('len', 'Int', len());
      const a = name === 'slice' && args[0] && args[0].s !== 'Undef' ? this.clampIndex(args[0], L, st, cx, n) : '0';
      const b = name === 'slice' && args[1] && args[1].s !== 'Undef' ? this.clampIndex(args[1], L, st, cx, n) : L;
      const src = this.newConst('src', `(Array Int ${S})`, arr());
      const na = this.newConst('slice', `(Array Int ${S})`);
      const nl = this.newConst('slen', 'Int', name === 'slice' ? `(ite (< ${a} ${b}) (- ${b} ${a}) 0)` : L);
      const ix = name === 'slice' ? (a === '0' ? 'i' : `(+ ${a} i)`) : `(- (- ${L} 1) i)`;
      st.assume(`(forall ((i Int)) (! (=> (and (<= 0 i) (< i ${nl})) (= (select ${na} i) (select ${src} ${ix}))) :pattern ((select ${na} i))))`);
      const back = name === 'slice' ? (a === '0' ? 'j' : `(- j ${a})`) : `(- (- ${L} 1) j)`;
      st.assume(`(forall ((j Int)) (! (=> (and (<= 0 ${back}) (< ${back} ${nl})) (= (select ${na} ${back}) (select ${src} j))) :pattern ((select ${src} j))))`);
      return val(st, this.newArray(st, el, nl, na, 'sliced'));
    }
    case 'reverse': {
      const L = this.newConst('len', 'Int', len());
      const src = this.newConst('src', `(Array Int ${S})`, arr());
      const na = this.newConst('rev', `(Array Int ${S})`);
      st.assume(`(forall ((i Int)) (! (=> (and (<= 0 i) (< i ${L})) (= (select ${na} i) (select ${src} (- (- ${L} 1) i)))) :pattern ((select ${na} i))))`);
      st.assume(`(forall ((i Int)) (! (=> (and (<= 0 i) (< i ${L})) (= (select ${na} (- (- ${L} 1) i)) (select ${src} i))) :pattern ((select ${src} i))))`);
      this.hwrite(st, `el:${s}`, o.t, na);
      return val(st, o);
    }
    case 'splice': {
      const L = this.newConst('len', 'Int', len());
      const a = this.clampIndex(args[0], L, st, cx, n);
      let d;
      if (args.length < 2) d = `(- ${L} ${a})`;
      else {
        const x = this.asInt(args[1], st, cx, n);
        d = this.newConst('del', 'Int', `(ite (< ${x} 0) 0 (ite (> ${x} (- ${L} ${a})) (- ${L} ${a}) ${x}))`);
      }
      const items = args.slice(2);
      if (items.some((x) => x.s === 'Spread')) throw new Unsupported('splice with spread', n);
      const k = items.length;
      const src = this.newConst('src', `(Array Int ${S})`, arr());
      const na = this.newConst('spl', `(Array Int ${S})`);
      const removed = this.newConst('rem', `(Array Int ${S})`);
      st.assume(`(forall ((i Int)) (! (=> (and (<= 0 i) (< i ${d})) (= (select ${removed} i) (select ${src} (+ ${a} i)))) :pattern ((select ${removed} i))))`);
      st.assume(`(forall ((i Int)) (! (=> (< i ${a}) (= (select ${na} i) (select ${src} i))) :pattern ((select ${na} i)) :pattern ((select ${src} i))))`);
      st.assume(`(forall ((i Int)) (! (=> (>= i (+ ${a} ${k})) (= (select ${na} i) (select ${src} (- (+ i ${d}) ${k})))) :pattern ((select ${na} i))))`);
      st.assume(`(forall ((j Int)) (! (=> (>= j (+ ${a} ${d})) (= (select ${na} (+ (- j ${d}) ${k})) (select ${src} j))) :pattern ((select ${src} j))))`);
      items.forEach((x, i) => st.assume(`(= (select ${na} (+ ${a} ${i})) ${this.co(x, s, st, n)})`));
      this.hwrite(st, `el:${s}`, o.t, na);
      this.hwrite(st, 'len', o.t, `(+ (- ${L} ${d}) ${k})`);
      return val(st, this.newArray(st, el, d, removed, 'removed'));
    }
    case 'indexOf': {
      const L = len();
      const A = arr();
      const from = args[1] ? this.clampIndex(args[1], L, st, cx, n) : '0';
      const x = this.co(args[0], s, st, n);
      const r = this.newConst('indexOf', 'Int');
      const same = (e) => this.eqVals(V(s, e), V(s, x), 'strict', st, n);
      st.assume(`(or (= ${r} (- 1)) (and (<= ${from} ${r}) (< ${r} ${L}) ${same(`(select ${A} ${r})`)}))`);
      st.assume(`(forall ((i Int)) (! (=> (and (<= ${from} i) (< i ${L}) (or (= ${r} (- 1)) (< i ${r}))) (not ${same(`(select ${A} i)`)})) :pattern ((select ${A} i))))`);
      return val(st, INT(r));
    }
    case 'includes': {
      const x = this.co(args[0], s, st, n);
      const A = arr();
      return val(st, BOOL(`(exists ((i Int)) (and (<= 0 i) (< i ${len()}) ${this.eqVals(V(s, `(select ${A} i)`), V(s, x), 'is', st, n)}))`));
    }
    case 'concat': {
      const r = this.newArray(st, el, '0');
      this.arrayAppendAll(r, o, st, cx, n);
      for (const a of args) a.s === 'Ref' && a.h?.k === 'array' || a.s === 'Spread' ? this.arrayAppendAll(r, a, st, cx, n) : (this.assumptions.add('values of other types concatenated with arrays are no arrays'), this.arrayPush(r, a, st, cx, n));
      return val(st, r);
    }
    case 'join': {
      if (this.contracts.has('Array.join')) break;
      this.declFun('joined', [`(Array Int ${S})`, 'Int', 'Str'], 'Str');
      if (s === 'Str') return val(st, V('Str', `(joined ${arr()} ${len()} ${args[0] ? this.co(args[0], 'Str', st, n) : this.strLit(',')})`));
      break;
    }
    case 'entries': return val(st, { s: 'Iter', kind: 'entries', arr: o });
    case 'keys': return val(st, { s: 'Iter', kind: 'keys', arr: o });
    case 'values': return val(st, o);
    case 'map': case 'filter': case 'some': case 'every': case 'forEach': case 'find': case 'findIndex':
      return this.arrayHof(o, name, args[0], st, cx, n);
    case 'reduce': {
      if (args.length < 2) break;
      const env = new Env(cx.env);
      const acc = newCell();
      env.vars.set('$acc', acc);
      st.cells.set(acc, args[1].s === 'Num' ? INT(this.co(args[1], 'Int', st)) : args[1]);
      return this.loopOver(n, o, st, { ...cx, env }, (s, x, c3) =>
        this.callValue(args[0], [s.cells.get(acc), x, s.cells.get(c3.env.lookup('$i')), o], s, c3, n).flatMap((r) => {
          if (r.k !== 'val') return [r];
          r.st.cells.set(acc, r.v);
          this.onCell?.(acc);
          return [{ k: 'next', st: r.st }];
        })).map((x) => (x.k === 'next' ? { k: 'val', st: x.st, v: x.st.cells.get(acc) } : x));
    }
  }
  const c = this.contracts.get(`Array.${name}`);
  if (c) {
    this.usedContracts.add(c);
    return this.applyContract(c, o, args, st, cx, n);
  }
  throw new Unsupported(`array method ${name}`, n);
};

// map, filter, some, every, forEach, find(Index): loops over the array.
P.arrayHof = function (o, name, f, st, cx, n) {
  const env = new Env(cx.env);
  const c2 = { ...cx, env };
  let out;
  if (name === 'map' || name === 'filter') {
    const spec = this.peekLoopSpec(n);
    const el = name === 'filter' ? o.h.el : spec?.outEl ? this.parseType(spec.outEl) : { s: 'Val' };
    out = this.newArray(st, el, '0', undefined, 'out');
    const c = newCell();
    env.vars.set('$out', c);
    st.cells.set(c, out);
  }
  const rc = newCell();
  env.vars.set('$found', rc);
  st.cells.set(rc, FALSE);
  const ri = newCell();
  env.vars.set('$at', ri);
  st.cells.set(ri, INT('(- 1)'));
  const self = o;
  const L0 = this.newConst('hoflen', 'Int', this.hread(st, 'len', o.t).term);
  const outs = this.loopOver(n, o, st, c2, (s, x, c3) => {
    const i = s.cells.get(c3.env.lookup('$i'));
    return this.callValue(f, [x, i, self], s, c3, n).flatMap((r) => {
      if (r.k !== 'val') return [r];
      if (name === 'map') this.arrayPush(out, r.v, r.st, c3, n);
      if (name === 'filter' || name === 'some' || name === 'every' || name === 'find' || name === 'findIndex') {
        const t = this.truthy(r.v, n);
        if (name === 'filter') {
          const s1 = r.st.clone().assume(t);
          this.arrayPush(out, x, s1, c3, n);
          const s2 = r.st.clone().assume(not(t));
          return this.mergeOuts(r.st, [{ k: 'next', st: s1 }, { k: 'next', st: s2 }], 'next');
        }
        const stop = name === 'every' ? not(t) : t;
        const res = [];
        if (stop !== 'false') {
          const s1 = r.st.clone().assume(stop);
          s1.cells.set(rc, TRUE);
          s1.cells.set(ri, i);
          res.push({ k: 'break', st: s1 });
        }
        if (stop !== 'true') res.push({ k: 'next', st: r.st.clone().assume(not(stop)) });
        return res;
      }
      return [{ k: 'next', st: r.st }];
    });
  });
  return outs.map((x) => {
    if (x.k !== 'next') return x;
    const found = x.st.cells.get(rc).t;
    let v = UNDEF;
    if (out) v = out;
    else if (name === 'some') v = BOOL(found);
    else if (name === 'every') v = BOOL(not(found));
    else if (name === 'findIndex') v = x.st.cells.get(ri);
    else if (name === 'find') {
      const s = this.elSort(o.h.el);
      v = this.asVal1(s, `(select ${this.hread(x.st, `el:${s}`, o.t).term} ${x.st.cells.get(ri).t})`, o.h.el.h, found);
    }
    return { k: 'val', st: x.st, v };
  });
};

// ------------------------------------------------------------ maps and sets
P.callMap = function (o, name, args, st, cx, n) {
  if (!cx.spec) this.deref(o, st, cx, n, `map of ${name}`);
  const dom = this.hread(st, 'dom', o.t).term;
  const key = () => {
    const a = args[0];
    // -0 and +0 are the same key
    const t = this.co(a, 'Val', st, n);
    return a.s === 'Val' ? `(ite (= ${t} VNegZero) (VInt 0) ${t})` : t;
  };
  const vty = o.h.val;
  if (name === 'forEach') {
    const set = o.h.k === 'set';
    const outs = this.loopOver(n, { s: 'Iter', kind: set ? 'keys' : 'entries', map: o }, st, { ...cx, env: new Env(cx.env) }, (s, x, c3) =>
      this.callValue(args[0], set ? [x, x, o] : [x.items[1], x.items[0], o], s, c3, n).map((r) => (r.k === 'val' ? { k: 'next', st: r.st } : r)));
    return outs.map((x) => (x.k === 'next' ? { k: 'val', st: x.st, v: UNDEF } : x));
  }
  switch (name) {
    case 'get': {
      const k = this.newConst('key', 'Val', key());
      const mv = this.hread(st, 'mval', o.t).term;
      const inn = `(select ${dom} ${k})`;
      const t = `(select ${mv} ${k})`;
      if (vty?.s === 'Ref') {
        if (vty.nn) { st.assume(`(=> ${inn} ((_ is VRef) ${t}))`); this.assumptions.add('TypeScript: map entries hold values of their declared types'); }
        return val(st, V('Ref', this.newConst('got', 'Ref', `(ite ${inn} (toRef ${t}) (- 1))`), vty.h));
      }
      if (vty?.s === 'Int') { st.assume(`(=> ${inn} ((_ is VInt) ${t}))`); this.assumptions.add('TypeScript: map entries hold values of their declared types'); }
      return val(st, V('Val', this.newConst('got', 'Val', `(ite ${inn} ${t} VUndef)`), vty?.h));
    }
    case 'has': return val(st, BOOL(`(select ${dom} ${key()})`));
    case 'set': {
      const k = key();
      const mv = this.hread(st, 'mval', o.t).term;
      this.hwrite(st, 'dom', o.t, `(store ${dom} ${k} true)`);
      this.hwrite(st, 'mval', o.t, `(store ${mv} ${k} ${this.co(args[1], 'Val', st, n)})`);
      return val(st, o);
    }
    case 'add':
      this.hwrite(st, 'dom', o.t, `(store ${dom} ${key()} true)`);
      return val(st, o);
    case 'delete': {
      const k = this.newConst('key', 'Val', key());
      this.hwrite(st, 'dom', o.t, `(store ${dom} ${k} false)`);
      return val(st, BOOL(`(select ${dom} ${k})`));
    }
    case 'clear':
      this.hwrite(st, 'dom', o.t, '((as const (Array Val Bool)) false)');
      return val(st, UNDEF);
    case 'entries': case 'keys': case 'values':
      return val(st, { s: 'Iter', kind: o.h.k === 'set' ? 'keys' : name, map: o });
    case 'getOrInsertComputed': {
      const k = V('Val', this.newConst('key', 'Val', key()));
      return this.evCondT(`(select ${dom} ${k.t})`,
        (s) => this.callMap(o, 'get', [k], s, cx, n),
        (s) => bind(this.callValue(args[1], [args[0]], s, cx, n), (s2, v) => bind(this.callMap(o, 'set', [k, v], s2, cx, n), (s3) => val(s3, v))),
        st, cx);
    }
  }
  throw new Unsupported(`map method ${name}`, n);
};

// ------------------------------------------------------------ strings
P.callStr = function (o, name, args, st, cx, n) {
  const c = this.contracts.get(`String.${name}`);
  if (c) {
    this.usedContracts.add(c);
    return this.applyContract(c, o, args, st, cx, n);
  }
  if (this.strings) {
    const T = o.t;
    const L = `(str.len ${T})`;
    const str = (i) => this.co(args[i], 'Str', st, n);
    switch (name) {
      case 'startsWith': return val(st, BOOL(`(str.prefixof ${str(0)} ${T})`));
      case 'endsWith': return val(st, BOOL(`(str.suffixof ${str(0)} ${T})`));
      case 'includes': return val(st, BOOL(`(str.contains ${T} ${str(0)})`));
      case 'indexOf': return val(st, INT(`(str.indexof ${T} ${str(0)} ${args[1] ? this.asInt(args[1], st, cx, n) : 0})`));
      case 'slice': {
        const cl = (v) => {
          if (v.s === 'Num') return v.n >= 0 ? int(v.n) : `(ite (< (+ ${L} ${int(v.n)}) 0) 0 (+ ${L} ${int(v.n)}))`;
          const t = this.asInt(v, st, cx, n);
          return `(ite (< ${t} 0) (ite (< (+ ${L} ${t}) 0) 0 (+ ${L} ${t})) ${t})`;
        };
        const a = cl(args[0]);
        const b = args[1] ? cl(args[1]) : L;
        return val(st, V('Str', `(ite (< ${a} ${b}) (str.substr ${T} ${a} (- ${b} ${a})) "")`));
      }
    }
  } else {
    const pure = { startsWith: 'Bool', endsWith: 'Bool', includes: 'Bool', slice: 'Str', trim: 'Str', toLowerCase: 'Str', indexOf: 'Int', replace: 'Str', repeat: 'Str' };
    if (pure[name] && args.every((a) => ['Str', 'Num', 'Int'].includes(a.s))) {
      const f = `str_${name}_${args.length}`;
      const sorts = args.map((a) => (a.s === 'Str' ? 'Str' : 'Int'));
      this.declFun(f, ['Str', ...sorts], pure[name]);
      const t = `(${f} ${[o.t, ...args.map((a, i) => this.co(a, sorts[i], st, n))].join(' ')})`;
      return val(st, V(pure[name], t));
    }
  }
  throw new Unsupported(`string method ${name}`, n);
};

// ------------------------------------------------------------ global functions
P.callBuiltin = function (name, args, st, cx, n) {
  const c = this.contracts.get(`ext ${name}`);
  if (c) {
    this.usedContracts.add(c);
    return this.applyContract(c, UNDEF, args, st, cx, n);
  }
  switch (name) {
    case 'Object.is': return val(st, BOOL(this.eqVals(args[0], args[1], 'is', st, n)));
    case 'Math.min': case 'Math.max': {
      const a = this.asInt(args[0], st, cx, n);
      const b = this.asInt(args[1], st, cx, n);
      return val(st, INT(ite(`(${name === 'Math.min' ? '<=' : '>='} ${a} ${b})`, a, b)));
    }
    case 'Math.clz32': {
      const x = this.newConst('clzin', 'BV', this.co(args[0], 'BV', st, n));
      let t = '32';
      for (let i = 0; i < 32; i++) t = `(ite (= ((_ extract ${i} ${i}) ${x}) #b1) ${31 - i} ${t})`;
      return val(st, INT(this.newConst('clz', 'Int', t)));
    }
    case 'Number.isNaN': {
      const v = args[0];
      if (v.s === 'Val') return val(st, BOOL(eq(v.t, 'VNaN')));
      return val(st, FALSE);
    }
    case 'Array.isArray': {
      const v = args[0];
      if (v.s === 'Ref') return val(st, BOOL(and(`(> ${v.t} 0)`, `(isArr ${v.t})`)));
      if (v.s === 'Val') return val(st, BOOL(and(`((_ is VRef) ${v.t})`, `(isArr (vref ${v.t}))`)));
      return val(st, FALSE);
    }
    case 'Array.from':
      if (args[0].s === 'Ref' && args[0].h?.k === 'array') {
        return args[1] ? this.arrayHof(args[0], 'map', args[1], st, cx, n) : this.callArray(args[0], 'slice', [], st, cx, n);
      }
      break;
    case 'Object.freeze': case 'Object.seal': return val(st, args[0]);
    case 'String': if (args[0].s === 'Str') return val(st, args[0]); break;
  }
  throw new Unsupported(`call of ${name}`, n);
};
