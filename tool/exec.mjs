// Symbolic execution of expressions and statements (real code and specs).
import { ts, SK, parseExpr, memberName } from './front.mjs';
import { and, or, not, implies, ite, eq, int, bv, smtSort } from './smt.mjs';
import { Verifier, Unsupported, V, BOOL, INT, NUM, UNDEF, NULL, TRUE, FALSE, St, Env, DOM_NS, newCell } from './engine.mjs';

const P = Verifier.prototype;
const val = (st, v) => [{ k: 'val', st, v }];

// chain: apply f to each value outcome
function bind(outs, f) {
  const res = [];
  for (const o of outs) {
    if (o.k === 'val') res.push(...f(o.st, o.v));
    else res.push(o);
  }
  return res;
}
P.bind = bind;
P.val = val;

P.evList = function (nodes, st, cx) {
  let outs = [{ k: 'val', st, v: [] }];
  for (const n of nodes) {
    outs = bind(outs, (s, acc) => {
      if (ts.isSpreadElement(n)) {
        return bind(this.ev(n.expression, s, cx), (s2, v) => val(s2, [...acc, { s: 'Spread', v }]));
      }
      return bind(this.ev(n, s, cx), (s2, v) => val(s2, [...acc, v]));
    });
  }
  return outs;
};

P.ev = function (n, st, cx) {
  switch (n.kind) {
    case SK.ParenthesizedExpression: return this.ev(n.expression, st, cx);
    case SK.AsExpression: case SK.TypeAssertionExpression: case SK.SatisfiesExpression:
      return bind(this.ev(n.expression, st, cx), (s, v) => val(s, this.cast(v, n.type, s, cx, n)));
    case SK.NonNullExpression: return this.evNonNull(n, st, cx);
    case SK.NumericLiteral: return val(st, NUM(Number(n.text.replace(/_/g, ''))));
    case SK.StringLiteral: case SK.NoSubstitutionTemplateLiteral: return val(st, V('Str', this.strLit(n.text), { k: 'lit', text: n.text }));
    case SK.TrueKeyword: return val(st, TRUE);
    case SK.FalseKeyword: return val(st, FALSE);
    case SK.NullKeyword: return val(st, NULL);
    case SK.ThisKeyword: {
      const self = cx.self ?? (cx.spec ? this.verifySelf : undefined);
      if (!self) throw new Unsupported('this outside of a method', n);
      return val(st, self);
    }
    case SK.Identifier: return this.evIdent(n, st, cx);
    case SK.PropertyAccessExpression: return this.evProp(n, st, cx);
    case SK.ElementAccessExpression: return this.evElem(n, st, cx);
    case SK.CallExpression: return this.evCall(n, st, cx);
    case SK.NewExpression: return this.evNew(n, st, cx);
    case SK.BinaryExpression: return this.evBinary(n, st, cx);
    case SK.PrefixUnaryExpression: case SK.PostfixUnaryExpression: return this.evUnary(n, st, cx);
    case SK.ConditionalExpression: return this.evCond(n.condition, (s) => this.ev(n.whenTrue, s, cx), (s) => this.ev(n.whenFalse, s, cx), st, cx);
    case SK.TypeOfExpression:
      return bind(this.ev(n.expression, st, cx), (s, v) => val(s, { s: 'TypeOf', v }));
    case SK.ArrowFunction: case SK.FunctionExpression:
      return val(st, { s: 'Fn', node: n, env: cx.env, module: cx.module, self: n.kind === SK.ArrowFunction ? cx.self : undefined, cls: cx.cls });
    case SK.ObjectLiteralExpression: return this.evObject(n, st, cx);
    case SK.ArrayLiteralExpression: return this.evArray(n, st, cx);
    case SK.TemplateExpression: return this.evTemplate(n, st, cx);
    case SK.VoidExpression: return bind(this.ev(n.expression, st, cx), (s) => val(s, UNDEF));
    case SK.DeleteExpression: return this.evDelete(n, st, cx);
    case SK.AwaitExpression: return this.evAwait(n, st, cx);
    case SK.YieldExpression: return this.evYield(n, st, cx);
    case SK.RegularExpressionLiteral: {
      const c = this.opaqueConst(`re_${n.text}`);
      if (this.decls.includes('(declare-fun regexSrc ')) st.assume(`(= (regexSrc ${c}) ${this.strLit(n.text)})`);
      return val(st, V('Ref', c, { k: 'class', name: 'RegExp' }, true));
    }
    case SK.TaggedTemplateExpression: throw new Unsupported('tagged template', n);
  }
  throw new Unsupported(`expression ${SK[n.kind]}`, n);
};

P.opaqueConst = function (name) {
  const c = `opq$${name.replace(/\W/g, (ch) => `_${ch.charCodeAt(0).toString(16)}`)}`;
  if (!this.consts.has(c)) {
    this.consts.set(c, { sort: 'Int', axioms: [`(> ${c} 0)`, `(<= ${c} ${this.alloc0})`] });
    this.preexisting.add(c);
  }
  return c;
};

P.cast = function (v, type, st, cx, n) {
  if (cx.spec) {
    const ty = this.typeOf(type);
    if (v.s === 'Val' && ty.s !== 'Val') return V(ty.s, this.co(v, ty.s, st, n), ty.h, ty.nn);
    return { ...v, h: ty.h ?? v.h };
  }
  const ty = this.typeOf(type);
  if (v.s === 'Val' && ty.s !== 'Val' && ty.s !== 'Null' && ty.s !== 'Undef') {
    if (ty.s === 'Ref') return V('Ref', this.co(v, 'Ref', st, n), ty.h);
    return v;
  }
  if (v.s === 'Ref' && ty.s === 'Ref' && ty.h) return { ...v, h: v.h?.exact ? v.h : v.h?.k === 'array' && ty.h.k === 'array' ? v.h : ty.h };
  return v;
};

P.evNonNull = function (n, st, cx) {
  let e = n.expression;
  if (ts.isElementAccessExpression(e) && !cx.spec) {
    return bind(this.ev(e.expression, st, cx), (s, o) =>
      bind(this.ev(e.argumentExpression, s, cx), (s2, i) => this.indexRead(o, i, s2, cx, n, true)));
  }
  return bind(this.ev(e, st, cx), (s, v) => {
    if (v.s === 'Ref' && !cx.spec) return val(s, { ...v });
    return val(s, v);
  });
};

P.evIdent = function (n, st, cx) {
  const name = n.text;
  const cell = cx.env?.lookup(name);
  if (cell !== undefined) {
    const v = st.cells.get(cell);
    if (v === undefined) throw new Unsupported(`uninitialized variable ${name}`, n);
    return val(st, v);
  }
  if (cx.spec && cx.env && !cx.bound?.has(name) && !(name.startsWith('$') && this.ghosts?.[name.slice(1)])) {
    // In a helper that was inlined: the scopes of its callers, and the
    // parameters of the function under contract.
    const c = cx.env.lookupDyn(name);
    const v = c !== undefined ? st.cells.get(c) : undefined;
    if (v !== undefined) return val(st, v);
    if (this.verifyBound?.has(name)) return val(st, this.verifyBound.get(name));
  }
  return val(st, this.globalIdent(name, st, cx, n));
};

P.globalIdent = function (name, st, cx, n) {
  if (name === 'undefined') return UNDEF;
  if (name === 'NaN') return V('Val', 'VNaN');
  if (cx.spec) {
    if (name === 'result') {
      if (cx.result === undefined) throw new Unsupported('result is not available', n);
      return cx.result;
    }
    if (cx.bound?.has(name)) return cx.bound.get(name);
    if (name.startsWith('$')) {
      const g = name.slice(1);
      if (this.ghosts?.[g]) return this.ghostVal(st, g);
    }
    if (this.specConsts?.[name]) return this.specConsts[name];
  }
  let mod = cx.module;
  let key = name;
  if (mod) {
    if (mod.imports.has(name)) key = mod.imports.get(name);
    const f = mod.functions.get(key) ?? (mod.imports.has(name) || cx.spec ? this.prog.functions.get(key) : undefined);
    if (f) return { s: 'Fn', info: f };
    const c = mod.classes.get(key) ?? (mod.imports.has(name) || cx.spec ? this.prog.classes.get(key) : undefined);
    if (c) return { s: 'Class', info: c };
    if (this.prog.enums.has(key)) return { s: 'NS', name: key, enum: this.prog.enums.get(key) };
    const k = mod.consts.get(key) ?? (mod.imports.has(name) || cx.spec ? this.prog.consts.get(key) : undefined);
    if (k) return this.constValue(k, st, cx, n);
  }
  if (cx.spec && this.prog.classes.has(name)) return { s: 'Class', info: this.prog.classes.get(name) };
  if (DOM_NS.has(name)) return { s: 'NS', name };
  if (cx.spec && n?.getSourceFile?.()?.fileName === 'spec.ts') throw new Unsupported(`unknown name ${name}`, n);
  return { s: 'NS', name, unknown: true };
};

P.constValue = function (k, st, cx, n) {
  if (this.opts.constOverrides?.[k.name]) {
    const ov = this.opts.constOverrides[k.name];
    return ov(this, k);
  }
  if (k.cached) return k.cached;
  const i = k.init;
  if (!i) throw new Unsupported(`constant ${k.name}`, n);
  const txt = i.getText();
  let m;
  if ((m = /^Symbol(\.for)?\(/.exec(txt))) return (k.cached = this.symVal(k.name));
  if (txt === 'Object.is') return (k.cached = { s: 'NS', name: 'Object.is' });
  if (ts.isNumericLiteral(i) || ts.isPrefixUnaryExpression(i) || ts.isBinaryExpression(i)) {
    const out = this.ev(i, st, { ...cx, env: undefined, module: k.module, spec: true });
    let v = out[0].v;
    if (k.type) {
      const ty = this.typeOf(k.type);
      if (ty.s === 'BV') v = V('BV', this.co(v, 'BV', st, n));
    }
    return (k.cached = v);
  }
  if (ts.isStringLiteral(i) || ts.isNoSubstitutionTemplateLiteral(i)) return (k.cached = V('Str', this.strLit(i.text), { k: 'lit', text: i.text }));
  if (ts.isNewExpression(i)) {
    const nm = i.expression.getText();
    const c = `mod$${k.name}`;
    if (!this.consts.has(c)) {
      this.consts.set(c, { sort: 'Int', axioms: [`(> ${c} 0)`, `(<= ${c} ${this.alloc0})`] });
      this.preexisting.add(c);
    }
    return V('Ref', c, this.hintOfName(nm, i.typeArguments), true);
  }
  if (ts.isArrowFunction(i) || ts.isFunctionExpression(i)) return { s: 'Fn', info: { node: i, module: k.module, key: k.name, cls: null } };
  // opaque constant
  const c = `mod$${k.name}`;
  if (!this.consts.has(c)) {
    const src = ts.isRegularExpressionLiteral(i) && this.decls.includes('(declare-fun regexSrc ') ? [`(= (regexSrc ${c}) ${this.strLit(i.text)})`] : [];
    this.consts.set(c, { sort: 'Int', axioms: [`(> ${c} 0)`, `(<= ${c} ${this.alloc0})`, ...src] });
    this.preexisting.add(c);
  }
  return V('Ref', c, { k: 'class', name: ts.isRegularExpressionLiteral(i) ? 'RegExp' : `const ${k.name}` }, true);
};

P.ghostVal = function (st, g) {
  const sort = this.ghosts[g];
  const h = this.heap(st, 'g:' + g);
  const known = ['Int', 'Bool', 'BV', 'Str', 'Ref', 'Val'];
  return V(known.includes(sort) ? sort : 'Raw', h.name, { k: 'raw', sort });
};

// ------------------------------------------------------------ property reads
P.classOf = function (v) {
  return v.h?.k === 'class' ? v.h.name : undefined;
};

P.hintMemberType = function (h, name) {
  if (!h) return undefined;
  if (h.k === 'class') {
    let m = this.prog.memberType(h.name, name);
    if (!m) {
      const al = this.prog.aliases.get(h.name) ?? this.prog.aliases.get(h.name.split('.').pop());
      if (al) m = this.aliasMember(al.node, name);
    }
    if (m && (ts.isTypeNode(m))) return this.memberTypeOf(m);
    return undefined;
  }
  if (h.k === 'union') {
    for (const x of h.hs) {
      const r = this.hintMemberType(x, name);
      if (r) return r;
    }
  }
  return undefined;
};

P.aliasMember = function (node, name) {
  if (ts.isUnionTypeNode(node) || ts.isIntersectionTypeNode(node)) {
    for (const t of node.types) {
      const r = this.aliasMember(t, name);
      if (r) return r;
    }
    return undefined;
  }
  if (ts.isTypeLiteralNode(node)) {
    for (const m of node.members) if (memberName(m) === name && ts.isPropertySignature(m)) return m.type;
    return undefined;
  }
  if (ts.isTypeReferenceNode(node)) {
    const nm = node.typeName.getText();
    const short = nm.split('.').pop();
    const r = this.prog.memberType(nm, name) ?? this.prog.memberType(short, name);
    if (r) return r;
    const al = this.prog.aliases.get(nm) ?? this.prog.aliases.get(short);
    if (al && al.node !== node) return this.aliasMember(al.node, name);
  }
  return undefined;
};

P.readField = function (o, name, st, cx, node) {
  const ref = this.co(o, 'Ref', st, node);
  const fty = this.fieldType(name);
  const key = 'f:' + name;
  const { term, meta } = this.hread(st, key, ref);
  if (meta) return meta;
  const s = fty.s === 'Null' || fty.s === 'Undef' ? 'Val' : fty.s;
  const decl = this.hintMemberType(o.h, name);
  let v = V(s, term, fty.h, fty.nn);
  if (!cx.spec && this.isFrozen(key)) {
    // the object exists, so what its fields refer to does
    if (s === 'Ref') st.assume(`(<= ${term} ${st.alloc})`);
    else if (s === 'Val') st.assume(`(=> ((_ is VRef) ${term}) (<= (vref ${term}) ${st.alloc}))`);
  }
  if (decl) {
    if (decl.s === s) v = V(s, term, decl.h ?? fty.h, decl.nn);
    else if (s === 'Val' && decl.s !== 'Val' && decl.s !== 'Null' && decl.s !== 'Undef') {
      v = V(decl.s, this.co(v, decl.s, st, node), decl.h, decl.nn);
    }
    if (decl.nn && !cx.spec && v.s === 'Ref' && !cx.noNN) {
      st.assume(`(> ${v.t} 0)`);
      this.assumptions.add('TypeScript: fields declared non-null hold no null or undefined');
    }
    if (decl.nu && !cx.spec && v.s === 'Ref' && !cx.noNN) st.assume(`(>= ${v.t} 0)`);
  }
  return v;
};

P.writeField = function (o, name, v, st, cx, node) {
  const ref = this.co(o, 'Ref', st, node);
  const fty = this.fieldType(name);
  const s = fty.s === 'Null' || fty.s === 'Undef' ? 'Val' : fty.s;
  if (v.s === 'TypeOf') v = this.typeOfStr(v.v, st);
  if (s === 'Ref' && v.h?.k === 'array' && fty.h?.k === 'array' && this.elSort(v.h.el) !== this.elSort(fty.h.el)) {
    throw new Unsupported(`array of ${v.h.el.s} stored in field ${name} of ${fty.h.el.s}`, node);
  }
  const t = this.co(v, s, st, node);
  if (this.isFrozen('f:' + name)) {
    if (!node || !ts.isObjectLiteralExpression(node)) throw new Unsupported(`write to ${name}, which is set only when an object is made,`, node);
    st.assume(`(= (select ${this.heap(st, 'f:' + name).name} ${ref}) ${t})`);
    return;
  }
  const keepMeta = ['Fn', 'Class'].includes(v.s) || v.h ? v : undefined;
  this.hwrite(st, 'f:' + name, ref, t, keepMeta && keepMeta.s !== s && s === 'Val' ? undefined : keepMeta);
};

P.deref = function (v, st, cx, node, what) {
  if (cx.spec) return;
  if (v.s === 'Ref') {
    if (st.fresh.has(v.t) || v === cx.self) return;
    if (v.nn && st.path.includes(`(> ${v.t} 0)`)) return;
    this.safety(st, `(> ${v.t} 0)`, `non-null ${what}`, node);
  } else if (v.s === 'Undef' || v.s === 'Null') {
    this.safety(st, 'false', `non-null ${what}`, node);
  }
};

P.evProp = function (n, st, cx) {
  const name = n.name.text;
  // namespaces / enums / qualified globals
  const recv = this.ev(n.expression, st, cx);
  if (!cx.spec && n.parent && ts.isCallExpression(n.parent) && n.parent.expression === n) {
    // the receiver of a call of a function held by a property
    this.receivers ??= new Map();
    const os = recv.filter((x) => x.k === 'val');
    if (os.length === 1 && (os[0].v.s === 'Ref' || os[0].v.s === 'Val')) this.receivers.set(n, os[0].v);
    else this.receivers.delete(n);
  }
  return bind(recv, (s, o) => {
    if (n.questionDotToken || (ts.isOptionalChain(n) && o.s === 'Undef')) {
      if (o.s === 'Undef' || o.s === 'Null') return val(s, UNDEF);
      if (o.s === 'Ref' || o.s === 'Val') {
        const isNull = o.s === 'Ref' ? `(<= ${o.t} 0)` : `(isNullish ${o.t})`;
        return this.evCondT(isNull, (s1) => val(s1, UNDEF), (s1) => this.getProp(o, name, s1, cx, n), s, cx);
      }
    }
    return this.getProp(o, name, s, cx, n);
  });
};

P.getProp = function (o, name, st, cx, n) {
  if (o.s === 'NS') {
    if (o.enum) {
      if (!o.enum.has(name)) throw new Unsupported(`enum member ${o.name}.${name}`, n);
      return val(st, NUM(o.enum.get(name)));
    }
    const q = `${o.name}.${name}`;
    if (q === 'Number.NaN') return val(st, V('Val', 'VNaN'));
    if (/^Node\.[A-Z_]+$/.test(q)) {
      const NT = { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_FRAGMENT_NODE: 11 };
      if (name in NT) return val(st, NUM(NT[name]));
    }
    const ext = this.contracts.get(`get ${q}`);
    if (ext) return this.applyExternalGet(ext, o, st, cx, n);
    return val(st, { s: 'NS', name: q });
  }
  if (o.s === 'Class') {
    const f = o.info.statics.get(name);
    if (f) return val(st, { s: 'Fn', info: f, self: o });
    if (name === 'prototype' || name === 'name') return val(st, { s: 'NS', name: `${o.info.name}.${name}` });
    throw new Unsupported(`static member ${o.info.name}.${name}`, n);
  }
  if (o.s === 'Str') return this.strProp(o, name, st, cx, n);
  if (o.s === 'Fn') {
    if (name === 'call' || name === 'apply' || name === 'bind') return val(st, { s: 'FnMethod', fn: o, name });
    if (name === 'name') return val(st, V('Str', this.newConst('fname', 'Str')));
  }
  if (o.s === 'Undef' || o.s === 'Null') {
    this.deref(o, st, cx, n, n.getText());
    return [];
  }
  if ((o.s === 'Val' || o.s === 'Int') && (name === 'toString' || name === 'toFixed') && this.contracts.has(`*.${name}`)) return val(st, { s: 'Method', o: V('Val', this.co(o, 'Val', st, n)), name });
  if (o.s === 'Raw') throw new Unsupported(`property ${name} of a raw term`, n);
  if (o.s === 'Val') {
    // (a property that values of any kind may have)
    const anyVal = this.contracts.get(`get *.${name}`);
    if (anyVal?.anyValue) {
      if (!cx.spec) this.safety(st, not(`(isNullish ${o.t})`), `not null or undefined ${n.getText().slice(0, 40)}`, n);
      return this.applyExternalGet(anyVal, o, st, cx, n);
    }
    // strings, numbers and so on have no such property (opts.primitives)
    if (!cx.spec && this.opts?.primitives && !this.contracts.has(`*.${name}`) && ![Object, String, Number, Boolean, BigInt, Symbol].some((C) => name in C.prototype)) {
      this.safety(st, not(`(isNullish ${o.t})`), `not null or undefined ${n.getText().slice(0, 40)}`, n);
      return this.evCondT(`((_ is VRef) ${o.t})`, (s1) => this.getProp(V('Ref', this.co(o, 'Ref', s1, n), o.h, true), name, s1, cx, n), (s1) => val(s1, UNDEF), st, cx);
    }
    const t = this.co(o, 'Ref', st, n);
    if (!cx.spec) this.safety(st, `((_ is VRef) ${o.t})`, `object ${n.getText().slice(0, 40)}`, n);
    o = V('Ref', t, o.h, true);
  }
  if (o.s !== 'Ref') throw new Unsupported(`property ${name} of ${o.s}`, n);
  if (!cx.spec) this.deref(o, st, cx, n, n.getText?.().slice(0, 40) ?? name);
  const h = o.h;
  if (!cx.spec && (name === 'call' || name === 'apply' || name === 'bind') && (!h || h.k === 'fn' || (h.k === 'class' && !this.prog.memberType(h.name, name) && !this.findMember(o, 'methods', name)))) return val(st, { s: 'FnMethod', fn: o, name });
  if (h?.k === 'array' || (name === 'length' && !this.prog.memberType(h?.name ?? '', 'length'))) {
    if (name === 'length') return val(st, INT(this.hread(st, 'len', o.t).term));
    return val(st, { s: 'Method', o, name });
  }
  if (h?.k === 'map' || h?.k === 'set') {
    if (name === 'size') throw new Unsupported('size of a map', n);
    return val(st, { s: 'Method', o, name });
  }
  const cname = h?.k === 'class' ? h.name : undefined;
  const ext = cname && this.contracts.get(`get ${cname}.${name}`);
  if (ext) return this.applyExternalGet(ext, o, st, cx, n);
  if (cname && this.prog.classes.has(cname)) {
    const g = this.findMember(o, 'getters', name);
    if (g) {
      if (cx.spec) return val(st, this.specInline(g, o, [], st, cx, n));
      return this.callInfo(g, o, [], st, cx, n);
    }
    if (this.findMember(o, 'methods', name)) return val(st, { s: 'Method', o, name });
  }
  if (cname && this.prog.interfaces.has(cname)) {
    const m = this.prog.memberType(cname, name);
    if (m && ts.isMethodSignature(m) && !m.questionToken) return val(st, { s: 'Method', o, name });
  }
  if (cname && !cx.spec && !this.prog.classes.has(cname) && !this.prog.memberType(cname, name) && (this.contracts.has(`*.${name}`) || this.contracts.has(`${cname}.${name}`))) return val(st, { s: 'Method', o, name });
  // an abstract method of a class
  if (cname && !cx.spec && this.prog.classes.has(cname) && !this.prog.fieldDecl(cname, name) && (this.contracts.has(`*.${name}`) || this.contracts.has(`${cname}.${name}`))) return val(st, { s: 'Method', o, name });
  if (!h && !cx.spec && this.contracts.has(`*.${name}`)) return val(st, { s: 'Method', o, name });
  const anyGet = this.contracts.get(`get *.${name}`);
  if (anyGet) return this.applyExternalGet(anyGet, o, st, cx, n);
  return val(st, this.readField(o, name, st, cx, n));
};

P.findMember = function (o, kind, name) {
  const cname = o.h?.name;
  if (!cname) return undefined;
  const m = this.prog.lookupMember(cname, kind, name);
  return m;
};

P.applyExternalGet = function (c, o, st, cx, n) {
  const v = this.specEval(c.get, st, { ...cx, spec: true, env: undefined, self: o, bound: new Map() });
  const ty = c.type ? this.parseType(c.type) : undefined;
  if (c.assumed) this.usedContracts.add(c);
  const r = ty ? V(ty.s, this.co(v, ty.s, st, n), ty.h, ty.nn) : v;
  if (c.facts && !cx.spec) {
    for (const f of c.facts) st.assume(this.specBool(f, st, { ...cx, self: o, result: r, bound: new Map() }));
  }
  return val(st, r);
};

P.indexRead = function (o, i, st, cx, n, asserted) {
  if (o.s === 'Str') return this.strIndex(o, i, st, cx, n);
  if (o.s === 'Val') o = V('Ref', this.co(o, 'Ref', st, n), o.h);
  if (o.s === 'Raw') return val(st, this.rawSelect(o, i, st, n));
  if (o.s !== 'Ref') throw new Unsupported(`index of ${o.s}`, n);
  if (o.h?.k !== 'array' || !['Int', 'Num'].includes(i.s)) {
    if (o.h?.k === 'array' && i.s === 'Val') {
      if (!cx.spec && /^[\w!$.]+$/.test(i.t)) this.safety(st, `((_ is VInt) ${i.t})`, `an index ${n.getText().slice(0, 40)}`, n);
      i = INT(this.co(i, 'Int', st, n));
    } else return this.dynRead(o, i, st, cx, n);
  }
  if (!cx.spec) this.deref(o, st, cx, n, n.getText().slice(0, 40));
  const el = o.h.el;
  const s = this.elSort(el);
  const it = this.co(i, 'Int', st, n);
  const arr = this.hread(st, `el:${s}`, o.t).term;
  const len = this.hread(st, 'len', o.t).term;
  const sel = this.simpSelect(arr, it);
  const inb = and(`(<= 0 ${it})`, `(< ${it} ${len})`);
  if (cx.spec) return val(st, V(s, sel, el.h, el.nn));
  if (asserted) {
    this.safety(st, inb, `in bounds ${n.getText().slice(0, 40)}`, n);
    this.assumeElement(st, sel, el);
    const v = V(s, sel, el.h, el.s === 'Ref' && el.nn);
    return val(st, v);
  }
  if (s === 'Ref' || s === 'Val') return val(st, V(s, ite(inb, sel, s === 'Ref' ? '(- 1)' : 'VUndef'), el.h));
  return val(st, V('Val', ite(inb, this.co(V(s, sel), 'Val', st, n), 'VUndef'), el.h));
};

P.simpSelect = function (arr, i) {
  return `(select ${arr} ${i})`;
};

P.dynRead = function (o, i, st, cx, n) {
  // Property access by a dynamic key: modelled by the contract "dyn get" if any.
  const c = this.contracts.get('dyn get');
  if (!c) throw new Unsupported('dynamic property read', n);
  if (!cx.spec) this.deref(o, st, cx, n, n.getText().slice(0, 40));
  return this.applyContract(c, o, [i], st, cx, n);
};

P.evElem = function (n, st, cx) {
  return bind(this.ev(n.expression, st, cx), (s, o) => {
    const go = (s0) => {
      const a = n.argumentExpression;
      if (ts.isIdentifier(a) && !cx.env?.lookup(a.text)) {
        // Symbol-keyed member
        const mname = `[${a.text}]`;
        if (o.s === 'Ref' && o.h?.k === 'class') return this.getProp(o, mname, s0, cx, n);
        if (o.s === 'Ref' || o.s === 'Val') {
          const iv = this.globalIdent(a.text, s0, cx, a);
          if (iv.h?.k === 'sym') return this.getProp(o, mname, s0, cx, n);
        }
      }
      if (ts.isPropertyAccessExpression(a) && /^Symbol\./.test(a.getText())) return this.getProp(o, `[${a.getText()}]`, s0, cx, n);
      return bind(this.ev(a, s0, cx), (s2, i) => this.indexRead(o, i, s2, cx, n, false));
    };
    if (n.questionDotToken) {
      if (o.s === 'Undef' || o.s === 'Null') return val(s, UNDEF);
      if (o.s === 'Ref' || o.s === 'Val') {
        const isNull = o.s === 'Ref' ? `(<= ${o.t} 0)` : `(isNullish ${o.t})`;
        return this.evCondT(isNull, (s1) => val(s1, UNDEF), go, s, cx);
      }
    }
    return go(s);
  });
};

P.rawSelect = function (o, i, st, n) {
  const m = /^\(Array (\S+|\(.*?\)+) (.*)\)$/.exec(o.h.sort);
  const parts = splitSort(o.h.sort);
  if (parts[0] !== 'Array') throw new Unsupported(`index of raw ${o.h.sort}`, n);
  const ks = unSort(parts[1]);
  const idx = i.s === 'Raw' ? i.t : this.co(i, ks === 'Int' && ['Ref', 'Fn', 'Null', 'Undef', 'Class'].includes(i.s) ? 'Ref' : ks, st, n);
  const rs = unSort(parts[2]);
  const known = ['Int', 'Bool', 'BV', 'Str', 'Val'].includes(rs);
  return V(known ? rs : 'Raw', `(select ${o.t} ${idx})`, known ? undefined : { k: 'raw', sort: parts[2] });
};

export function splitSort(s) {
  s = s.trim();
  if (!s.startsWith('(')) return [s];
  const inner = s.slice(1, -1);
  const out = [];
  let d = 0;
  let cur = '';
  for (const ch of inner) {
    if (ch === '(') d++;
    if (ch === ')') d--;
    if (ch === ' ' && d === 0) { if (cur) out.push(cur); cur = ''; } else cur += ch;
  }
  if (cur) out.push(cur);
  return out;
}
function unSort(s) {
  return s === '(_ BitVec 32)' ? 'BV' : s;
}

// ------------------------------------------------------------ conditionals
P.evCond = function (condNode, f, g, st, cx) {
  return bind(this.ev(condNode, st, cx), (s, c) => this.evCondT(this.truthyOf(c, condNode), f, g, s, cx));
};

P.truthyOf = function (c, n) {
  return this.truthy(c, n);
};

P.evCondT = function (c, f, g, st, cx, apart = false) {
  if (c === 'true') return f(st);
  if (c === 'false') return g(st);
  if (cx.spec) {
    const a = f(st);
    const b = g(st);
    if (a.length !== 1 || b.length !== 1) throw new Unsupported('impure specification');
    return val(st, this.iteVal(c, a[0].v, b[0].v, st));
  }
  const sa = st.clone().assume(c);
  const sb = st.clone().assume(not(c));
  const oa = f(sa);
  const ob = g(sb);
  if (apart && this.contract?.split) return [...oa, ...ob];
  // Pure single outcomes join without splitting.
  return this.mergeOuts(st, [...oa, ...ob], 'val');
};

P.typeOfStr = function (v, st) {
  throw new Unsupported('typeof used as a value');
};

P.typeIs = function (v, name, st, n) {
  switch (v.s) {
    case 'Num': case 'Int': case 'BV': return name === 'number' ? 'true' : 'false';
    case 'Bool': return name === 'boolean' ? 'true' : 'false';
    case 'Str': return name === 'string' ? 'true' : 'false';
    case 'Undef': return name === 'undefined' ? 'true' : 'false';
    case 'Null': return name === 'object' ? 'true' : 'false';
    case 'Fn': case 'Class': return name === 'function' ? 'true' : 'false';
    case 'NS': return name === 'function' ? this.nsIsFn(v) : name === 'undefined' ? not(this.nsIsFn(v)) : 'false';
    case 'Ref':
      if (name === 'function') return and(`(> ${v.t} 0)`, `(isFn ${v.t})`);
      if (name === 'object') return or(eq(v.t, '0'), and(`(> ${v.t} 0)`, not(`(isFn ${v.t})`)));
      if (name === 'undefined') return eq(v.t, '(- 1)');
      return 'false';
    case 'Val': {
      const t = v.t;
      if (name === 'function') return and(`((_ is VRef) ${t})`, `(isFn (vref ${t}))`);
      if (name === 'object') return or(eq(t, 'VNull'), and(`((_ is VRef) ${t})`, not(`(isFn (vref ${t}))`)));
      if (name === 'undefined') return eq(t, 'VUndef');
      if (name === 'boolean') return `((_ is VBool) ${t})`;
      if (name === 'string') return `((_ is VStr) ${t})`;
      if (name === 'symbol') return `((_ is VSym) ${t})`;
      if (name === 'number') return or(`((_ is VInt) ${t})`, `((_ is VBv) ${t})`, eq(t, 'VNaN'), eq(t, 'VNegZero'));
    }
  }
  throw new Unsupported(`typeof ${v.s} === ${name}`, n);
};

P.nsIsFn = function (v) {
  const c = `nsfn$${v.name.replace(/\W/g, '_')}`;
  if (!this.consts.has(c)) this.consts.set(c, { sort: 'Bool', axioms: [] });
  return c;
};

// ------------------------------------------------------------ operators
P.evBinary = function (n, st, cx) {
  const op = n.operatorToken.kind;
  if (op >= SK.FirstAssignment && op <= SK.LastAssignment) return this.evAssign(n, st, cx);
  switch (op) {
    case SK.AmpersandAmpersandToken:
      return bind(this.ev(n.left, st, cx), (s, a) => {
        const c = this.truthy(a, n.left);
        return this.evCondT(c, (s1) => this.ev(n.right, s1, cx), (s1) => val(s1, a.s === 'Bool' ? FALSE : a), s, cx);
      });
    case SK.BarBarToken:
      return bind(this.ev(n.left, st, cx), (s, a) => {
        const c = this.truthy(a, n.left);
        return this.evCondT(c, (s1) => val(s1, a.s === 'Bool' ? TRUE : a), (s1) => this.ev(n.right, s1, cx), s, cx);
      });
    case SK.QuestionQuestionToken:
      return bind(this.ev(n.left, st, cx), (s, a) => {
        const isNull = this.eqVals(a, NULL, 'loose', s, n);
        return this.evCondT(isNull, (s1) => this.ev(n.right, s1, cx), (s1) => val(s1, this.nonNull(a)), s, cx);
      });
    case SK.CommaToken:
      return bind(this.ev(n.left, st, cx), (s) => this.ev(n.right, s, cx));
    case SK.InstanceOfKeyword:
      return bind(this.evList([n.left, n.right], st, cx), (s, [a, b]) => val(s, BOOL(this.instanceOf(a, b, s, n))));
    case SK.InKeyword:
      return bind(this.evList([n.left, n.right], st, cx), (s, [a, b]) => this.evIn(a, b, s, cx, n));
  }
  return bind(this.evList([n.left, n.right], st, cx), (s, [a, b]) => val(s, this.binop(op, a, b, s, n, cx)));
};

P.nonNull = function (a) {
  if (a.s === 'Ref') return { ...a, nn: true };
  if (a.s === 'Val' && a.h && ['Int', 'Str'].includes(a.h.k)) return a;
  return a;
};

P.evIn = function (a, b, st, cx, n) {
  const r = this.co(b, 'Ref', st, n);
  const nm = a.h?.k === 'lit' ? a.h.text : undefined;
  if (nm !== undefined) {
    const f = `hasProp$${nm.replace(/\W/g, '_')}`;
    this.declFun(f, ['Int'], 'Bool');
    return val(st, BOOL(`(${f} ${r})`));
  }
  const c = this.contracts.get('dyn in');
  if (c) return this.applyContract(c, V('Ref', r, b.h), [a], st, cx, n);
  throw new Unsupported('in operator', n);
};

P.declFun = function (name, args, ret) {
  this.funs ??= new Map();
  if (!this.funs.has(name) && !this.decls.includes(`(declare-fun ${name} `)) this.funs.set(name, `(declare-fun ${name} (${args.map(smtSort).join(' ')}) ${smtSort(ret)})`);
};

P.instanceOf = function (a, b, st, n) {
  if (a.s === 'Num' || a.s === 'Str' || a.s === 'Int' || a.s === 'Undef' || a.s === 'Null' || a.s === 'Bool') return 'false';
  const r = this.co(a, 'Ref', st, n);
  if (b.s === 'Class') {
    const ids = this.prog.allSubclasses(b.info.name).map((c) => `(= (cls ${r}) ${this.clsId(c)})`);
    return and(`(> ${r} 0)`, or(ids));
  }
  if (b.s === 'NS') {
    this.declFun('instOfNS', ['Int', 'Str'], 'Bool');
    return and(`(> ${r} 0)`, `(instOfNS ${r} ${this.strLit('ns:' + b.name)})`);
  }
  this.declFun('instOf', ['Int', 'Int'], 'Bool');
  return and(`(> ${r} 0)`, `(instOf ${r} ${this.co(b, 'Ref', st, n)})`);
};

P.binop = function (op, a, b, st, n, cx) {
  switch (op) {
    case SK.EqualsEqualsEqualsToken: case SK.ExclamationEqualsEqualsToken:
    case SK.EqualsEqualsToken: case SK.ExclamationEqualsToken: {
      const neg = op === SK.ExclamationEqualsEqualsToken || op === SK.ExclamationEqualsToken;
      const loose = op === SK.EqualsEqualsToken || op === SK.ExclamationEqualsToken;
      let t;
      if (a.s === 'TypeOf' || b.s === 'TypeOf') {
        const [x, lit] = a.s === 'TypeOf' ? [a.v, b] : [b.v, a];
        if (lit.h?.k !== 'lit') throw new Unsupported('typeof comparison', n);
        t = this.typeIs(x, lit.h.text, st, n);
      } else if (a.s === 'Raw' || b.s === 'Raw') {
        const rt = (v, o) => (v.s === 'Raw' ? v.t : this.co(v, unSort(o.h.sort), st, n));
        t = eq(rt(a, b), rt(b, a));
      } else if (cx.spec && ((a.s === 'Int' && b.s === 'Ref') || (a.s === 'Ref' && b.s === 'Int'))) {
        t = eq(a.t, b.t);
      } else {
        if (cx.spec && this.joinSort(a, b) === 'Val' && a.s !== 'Val' && b.s !== 'Val' && !['Null', 'Undef'].includes(a.s) && !['Null', 'Undef'].includes(b.s)) throw new Unsupported(`comparison of ${a.s} with ${b.s} in a specification`, n);
        if (cx.spec && ((a.s === 'Int' && ['Null', 'Undef'].includes(b.s)) || (b.s === 'Int' && ['Null', 'Undef'].includes(a.s)))) throw new Unsupported(`comparison of ${a.s} with ${b.s} in a specification`, n);
        if (loose && a.s !== 'Null' && b.s !== 'Null' && a.s !== 'Undef' && b.s !== 'Undef') throw new Unsupported('loose equality', n);
        t = cx.spec && a.s === 'Val' && b.s === 'Val' ? eq(a.t, b.t) : this.eqVals(a, b, loose ? 'loose' : 'strict', st, n);
      }
      return BOOL(neg ? not(t) : t);
    }
    case SK.LessThanToken: case SK.LessThanEqualsToken: case SK.GreaterThanToken: case SK.GreaterThanEqualsToken: {
      const sym = { [SK.LessThanToken]: '<', [SK.LessThanEqualsToken]: '<=', [SK.GreaterThanToken]: '>', [SK.GreaterThanEqualsToken]: '>=' }[op];
      if (a.s === 'Num' && b.s === 'Num') return BOOL(String(sym === '<' ? a.n < b.n : sym === '<=' ? a.n <= b.n : sym === '>' ? a.n > b.n : a.n >= b.n));
      if (a.s === 'BV' || b.s === 'BV') {
        const m = { '<': 'bvslt', '<=': 'bvsle', '>': 'bvsgt', '>=': 'bvsge' }[sym];
        return BOOL(`(${m} ${this.co(a, 'BV', st, n)} ${this.co(b, 'BV', st, n)})`);
      }
      return BOOL(`(${sym} ${this.asInt(a, st, cx, n)} ${this.asInt(b, st, cx, n)})`);
    }
    case SK.PlusToken:
      if (a.s === 'Str' || b.s === 'Str') return this.strConcat(a, b, st, n);
      if (a.s === 'Num' && b.s === 'Num') return NUM(a.n + b.n);
      return INT(`(+ ${this.asInt(a, st, cx, n)} ${this.asInt(b, st, cx, n)})`);
    case SK.MinusToken:
      if (a.s === 'Num' && b.s === 'Num') return NUM(a.n - b.n);
      return INT(`(- ${this.asInt(a, st, cx, n)} ${this.asInt(b, st, cx, n)})`);
    case SK.AsteriskToken:
      if (a.s === 'Num' && b.s === 'Num') return NUM(a.n * b.n);
      return INT(`(* ${this.asInt(a, st, cx, n)} ${this.asInt(b, st, cx, n)})`);
    case SK.SlashToken:
      if (a.s === 'Num' && b.s === 'Num') return NUM(a.n / b.n);
      throw new Unsupported('division', n);
    case SK.PercentToken: {
      if (a.s === 'Num' && b.s === 'Num') return NUM(a.n % b.n);
      if (b.s !== 'Num' || b.n <= 0) throw new Unsupported('modulo', n);
      const x = this.asInt(a, st, cx, n);
      return INT(`(ite (>= ${x} 0) (mod ${x} ${b.n}) (- (mod (- ${x}) ${b.n})))`);
    }
    case SK.LessThanLessThanToken:
      if (a.s === 'Num' && b.s === 'Num') return NUM(a.n << b.n);
      if (b.s === 'Num' && a.s === 'Int') {
        this.assumptions.add('index arithmetic by shifts stays below 2^30');
        return INT(`(* ${a.t} ${2 ** b.n})`);
      }
      if (a.s === 'BV' || (a.s === 'Num' && (b.s === 'Int' || b.s === 'BV'))) return V('BV', `(bvshl ${this.co(a, 'BV', st, n)} ${this.shiftAmount(b, st, n)})`);
      break;
    case SK.GreaterThanGreaterThanToken:
      if (a.s === 'Num' && b.s === 'Num') return NUM(a.n >> b.n);
      if (b.s === 'Num' && a.s === 'Int') {
        this.assumptions.add('index arithmetic by shifts stays below 2^30');
        return INT(`(div ${a.t} ${2 ** b.n})`);
      }
      if (a.s === 'BV') return V('BV', `(bvashr ${a.t} ${this.shiftAmount(b, st, n)})`);
      break;
    case SK.GreaterThanGreaterThanGreaterThanToken:
      if (a.s === 'Num' && b.s === 'Num') return NUM(a.n >>> b.n);
      if (b.s === 'Num' && a.s === 'Int') return INT(`(div ${a.t} ${2 ** b.n})`);
      break;
    case SK.AmpersandToken: case SK.BarToken: case SK.CaretToken: {
      if (a.s === 'Num' && b.s === 'Num') return NUM(op === SK.AmpersandToken ? a.n & b.n : op === SK.BarToken ? a.n | b.n : a.n ^ b.n);
      if (a.s === 'Int' || b.s === 'Int') throw new Unsupported('bitwise operator on a mathematical integer', n);
      const m = op === SK.AmpersandToken ? 'bvand' : op === SK.BarToken ? 'bvor' : 'bvxor';
      return V('BV', `(${m} ${this.co(a, 'BV', st, n)} ${this.co(b, 'BV', st, n)})`);
    }
  }
  throw new Unsupported(`operator ${SK[op]} on ${a.s} and ${b.s}`, n);
};

P.shiftAmount = function (b, st, n) {
  if (b.s === 'Num') return bv(b.n & 31);
  if (b.s === 'BV') return `(bvand ${b.t} #x0000001f)`;
  const x = `(mod ${this.co(b, 'Int', st, n)} 32)`;
  let t = bv(31);
  const c = this.newConst('sh', 'Int', x);
  for (let i = 30; i >= 0; i--) t = `(ite (= ${c} ${i}) ${bv(i)} ${t})`;
  return this.newConst('shb', 'BV', t);
};

P.asInt = function (v, st, cx, n) {
  if (v.s === 'Val') {
    if (!cx?.spec) this.safety(st, `((_ is VInt) ${v.t})`, `number ${n.getText().slice(0, 40)}`, n);
    return this.co(v, 'Int', st, n);
  }
  if (v.s === 'Bool' || v.s === 'Undef' || v.s === 'Null') throw new Unsupported(`arithmetic on ${v.s}`, n);
  return this.co(v, 'Int', st, n);
};

P.evUnary = function (n, st, cx) {
  switch (n.operator) {
    case SK.ExclamationToken: return bind(this.ev(n.operand, st, cx), (s, v) => val(s, BOOL(not(this.truthy(v, n)))));
    case SK.MinusToken:
      return bind(this.ev(n.operand, st, cx), (s, v) => {
        if (v.s === 'Num') return val(s, NUM(-v.n));
        if (v.s === 'BV') return val(s, V('BV', `(bvneg ${v.t})`));
        return val(s, INT(`(- ${this.asInt(v, s, cx, n)})`));
      });
    case SK.PlusToken: return this.ev(n.operand, st, cx);
    case SK.TildeToken:
      return bind(this.ev(n.operand, st, cx), (s, v) => {
        if (v.s === 'Num') return val(s, NUM(~v.n));
        if (v.s === 'BV') return val(s, V('BV', `(bvnot ${v.t})`));
        throw new Unsupported('~ on a mathematical integer', n);
      });
    case SK.PlusPlusToken: case SK.MinusMinusToken: {
      const d = n.operator === SK.PlusPlusToken ? 1 : -1;
      const postfix = n.kind === SK.PostfixUnaryExpression;
      return this.withLValue(n.operand, st, cx, (s, get, set) =>
        bind(get(s), (s2, v) => {
          const nv = v.s === 'Num' ? NUM(v.n + d) : INT(d > 0 ? `(+ ${this.asInt(v, s2, cx, n)} 1)` : `(- ${this.asInt(v, s2, cx, n)} 1)`);
          return bind(set(s2, nv), (s3) => val(s3, postfix ? v : nv));
        }));
    }
  }
  throw new Unsupported(`unary ${SK[n.operator]}`, n);
};

// lvalues: calls f(st, get(st)->outs, set(st, v)->outs)
P.withLValue = function (n, st, cx, f) {
  n = skipParens(n);
  if (ts.isIdentifier(n)) {
    const cell = cx.env?.lookup(n.text);
    if (cell === undefined) {
      const k = cx.module?.consts.get(n.text);
      throw new Unsupported(`assignment to ${n.text}`, n);
    }
    return f(st, (s) => val(s, s.cells.get(cell)), (s, v) => {
      s.cells.set(cell, this.named(v, n.text));
      this.onCell?.(cell);
      return val(s, v);
    });
  }
  if (ts.isPropertyAccessExpression(n)) {
    return bind(this.ev(n.expression, st, cx), (s, o) => {
      const name = n.name.text;
      if (o.s === 'Val') {
        this.safety(s, `((_ is VRef) ${o.t})`, `object ${n.getText().slice(0, 40)}`, n);
        o = V('Ref', this.co(o, 'Ref', s, n), o.h, true);
      }
      return f(s, (s2) => this.getProp(o, name, s2, cx, n), (s2, v) => this.setProp(o, name, v, s2, cx, n));
    });
  }
  if (ts.isElementAccessExpression(n)) {
    return bind(this.evList([n.expression, n.argumentExpression], st, cx), (s, [o, i]) =>
      f(s, (s2) => this.indexRead(o, i, s2, cx, n, true), (s2, v) => this.indexWrite(o, i, v, s2, cx, n)));
  }
  if (ts.isNonNullExpression(n)) return this.withLValue(n.expression, st, cx, f);
  throw new Unsupported(`assignment target ${SK[n.kind]}`, n);
};

const skipParens = (n) => {
  while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n)) n = n.expression;
  return n;
};

P.named = function (v, name) {
  if (v.t !== undefined && v.t.length > 80) {
    const sort = v.s === 'Raw' ? v.h.sort : v.s;
    return { ...v, t: this.newConst(name, sort, v.t) };
  }
  return v;
};

P.setProp = function (o, name, v, st, cx, n) {
  if (o.s === 'Ref') {
    this.deref(o, st, cx, n, n.getText().slice(0, 40));
    if (o.h?.k === 'array' && name === 'length') throw new Unsupported('array length assignment', n);
    const cname = this.classOf(o);
    const ext = cname && this.contracts.get(`set ${cname}.${name}`);
    if (ext) return bind(this.applyContract(ext, o, [v], st, cx, n), (s) => val(s, v));
    const anyExt = this.contracts.get(`set *.${name}`);
    if (anyExt && !(cname && this.prog.classes.has(cname))) return bind(this.applyContract(anyExt, o, [v], st, cx, n), (s) => val(s, v));
    if (cname && this.prog.classes.has(cname)) {
      const g = this.findMember(o, 'setters', name);
      if (g) return bind(this.callInfo(g, o, [v], st, cx, n), (s) => val(s, v));
    }
    this.writeField(o, name, v, st, cx, n);
    return val(st, v);
  }
  if (o.s === 'NS' || o.s === 'Fn') {
    // property of a function object: ignored unless declared
    this.writeField(V('Ref', this.fnRef(o, st)), name, v, st, cx, n);
    return val(st, v);
  }
  throw new Unsupported(`write to property ${name} of ${o.s}`, n);
};

P.indexWrite = function (o, i, v, st, cx, n) {
  if (o.s === 'Val') o = V('Ref', this.co(o, 'Ref', st, n), o.h);
  if (o.h?.k === 'array' && i.s === 'Val' && /^[\w!$.]+$/.test(i.t)) {
    this.safety(st, `((_ is VInt) ${i.t})`, `an index ${n.getText().slice(0, 40)}`, n);
    i = INT(this.co(i, 'Int', st, n));
  }
  if (o.h?.k !== 'array' || !['Int', 'Num'].includes(i.s)) {
    const c = this.contracts.get('dyn set');
    if (!c) throw new Unsupported('dynamic property write', n);
    return bind(this.applyContract(c, o, [i, v], st, cx, n), (s) => val(s, v));
  }
  this.deref(o, st, cx, n, n.getText().slice(0, 40));
  const s = this.elSort(o.h.el);
  const it = this.co(i, 'Int', st, n);
  const arr = this.hread(st, `el:${s}`, o.t).term;
  const len = this.hread(st, 'len', o.t).term;
  this.safety(st, `(and (<= 0 ${it}) (<= ${it} ${len}))`, `index ${n.getText().slice(0, 40)}`, n);
  this.hwrite(st, `el:${s}`, o.t, `(store ${arr} ${it} ${this.co(v, s, st, n)})`);
  this.hwrite(st, 'len', o.t, `(ite (< ${it} ${len}) ${len} (+ ${it} 1))`);
  return val(st, v);
};

P.evAssign = function (n, st, cx) {
  const op = n.operatorToken.kind;
  if (op === SK.EqualsToken) {
    if (ts.isArrayLiteralExpression(n.left) || ts.isObjectLiteralExpression(n.left)) throw new Unsupported('destructuring assignment', n);
    return this.withLValue(n.left, st, cx, (s, get, set) =>
      bind(this.ev(n.right, s, cx), (s2, v) => set(s2, this.concretize(v, s2))));
  }
  const LOGICAL = { [SK.BarBarEqualsToken]: 'or', [SK.AmpersandAmpersandEqualsToken]: 'and', [SK.QuestionQuestionEqualsToken]: 'nullish' };
  if (LOGICAL[op]) {
    return this.withLValue(n.left, st, cx, (s, get, set) =>
      bind(get(s), (s2, v) => {
        const kind = LOGICAL[op];
        const keep = kind === 'or' ? this.truthy(v, n) : kind === 'and' ? not(this.truthy(v, n)) : not(this.eqVals(v, NULL, 'loose', s2, n));
        return this.evCondT(keep, (s3) => val(s3, v), (s3) => bind(this.ev(n.right, s3, cx), (s4, r) => set(s4, this.concretize(r, s4))), s2, cx, true);
      }));
  }
  const BIN = {
    [SK.PlusEqualsToken]: SK.PlusToken, [SK.MinusEqualsToken]: SK.MinusToken, [SK.AsteriskEqualsToken]: SK.AsteriskToken,
    [SK.BarEqualsToken]: SK.BarToken, [SK.AmpersandEqualsToken]: SK.AmpersandToken, [SK.CaretEqualsToken]: SK.CaretToken,
    [SK.PercentEqualsToken]: SK.PercentToken, [SK.LessThanLessThanEqualsToken]: SK.LessThanLessThanToken, [SK.GreaterThanGreaterThanEqualsToken]: SK.GreaterThanGreaterThanToken,
  }[op];
  if (BIN === undefined) throw new Unsupported(`assignment ${SK[op]}`, n);
  return this.withLValue(n.left, st, cx, (s, get, set) =>
    bind(get(s), (s2, a) =>
      bind(this.ev(n.right, s2, cx), (s3, b) => set(s3, this.binop(BIN, a, b, s3, n, cx)))));
};

P.concretize = function (v, st) {
  return v;
};

P.evDelete = function (n, st, cx) {
  const c = this.contracts.get('dyn delete');
  const e = skipParens(n.expression);
  if (c && ts.isElementAccessExpression(e)) {
    return bind(this.evList([e.expression, e.argumentExpression], st, cx), (s, [o, i]) => this.applyContract(c, o, [i], s, cx, n));
  }
  throw new Unsupported('delete', n);
};

// ------------------------------------------------------------ literals
P.evObject = function (n, st, cx) {
  const r = this.alloc(st, 'obj');
  st.assume(`(not (isFn ${r}))`);
  st.assume(`(not (isArr ${r}))`);
  let outs = val(st, null);
  let opaque = false;
  const names = [];
  for (const p of n.properties) {
    if (ts.isSpreadAssignment(p)) {
      opaque = true;
      const before = [...names];
      const known = literalNames(p.expression);
      outs = bind(outs, (s) => bind(this.ev(p.expression, s, cx), (s2) => {
        for (const nm of before) if (!known || known.includes(nm)) this.havocField(V('Ref', r), nm, s2, cx, n);
        return val(s2, null);
      }));
      continue;
    }
    const name = memberName(p);
    if (ts.isPropertyAssignment(p) && !ts.isComputedPropertyName(p.name)) {
      names.push(name);
      outs = bind(outs, (s) => bind(this.ev(p.initializer, s, cx), (s2, v) => {
        this.writeField(V('Ref', r), name, v, s2, cx, n);
        return val(s2, null);
      }));
    } else if (ts.isShorthandPropertyAssignment(p)) {
      names.push(name);
      outs = bind(outs, (s) => bind(this.evIdent(p.name, s, cx), (s2, v) => {
        this.writeField(V('Ref', r), name, v, s2, cx, n);
        return val(s2, null);
      }));
    } else if (ts.isMethodDeclaration(p)) {
      outs = bind(outs, (s) => {
        this.writeField(V('Ref', r), name, { s: 'Fn', node: p, env: cx.env, module: cx.module, self: V('Ref', r) }, s, cx, n);
        return val(s, null);
      });
    } else if (ts.isGetAccessorDeclaration(p)) {
      opaque = true;
    } else if (ts.isPropertyAssignment(p)) {
      opaque = true;
      outs = bind(outs, (s) => bind(this.evList([p.name.expression, p.initializer], s, cx), (s2, [k, v]) => {
        this.opts.onComputed?.(this, V('Ref', r), k, v, s2, n);
        return val(s2, null);
      }));
    } else throw new Unsupported('object member', p);
  }
  return bind(outs, (s) => {
    const v = V('Ref', r, { k: 'obj' }, true);
    // optional fields that the literal leaves out
    if (!opaque) for (const f of this.opts.absent ?? []) if (!names.includes(f)) this.writeField(V('Ref', r), f, UNDEF, s, cx, n);
    if (this.opts.onObject) this.opts.onObject(this, v, names, s, n.properties);
    return val(s, v);
  });
};

// A later spread may replace a property of the literal.
P.havocField = function (o, name, st, cx, n) {
  if (this.isFrozen('f:' + name)) throw new Unsupported(`property ${name} before a spread`, n);
  this.writeField(o, name, this.freshVal('spread', this.fieldType(name), st), st, cx, n);
};

// The properties of an object literal (undefined: of something else)
function literalNames(e) {
  e = skipParens(e);
  if (!ts.isObjectLiteralExpression(e) || e.properties.some((p) => ts.isSpreadAssignment(p) || !p.name || ts.isComputedPropertyName(p.name))) return undefined;
  return e.properties.map((p) => memberName(p));
}

// Object.assign(target, ..sources): literals are written property by property;
// other sources only into a new object.
P.evObjectAssign = function (n, st, cx) {
  const [target, ...sources] = n.arguments;
  const isNew = ts.isObjectLiteralExpression(skipParens(target));
  const names = isNew ? [...(literalNames(target) ?? [undefined])] : [];
  if (names[0] === undefined && names.length > 0) throw new Unsupported('Object.assign', n);
  return bind(this.ev(target, st, cx), (s0, o) => {
    let outs = val(s0, null);
    for (const src of sources) {
      const e = skipParens(src);
      const lit = literalNames(e);
      if (!lit) {
        if (!isNew) throw new Unsupported('Object.assign of something other than a literal', n);
        const before = [...names, ...(this.opts.absent ?? []).filter((f) => !names.includes(f))];
        outs = bind(outs, (s) => bind(this.ev(e, s, cx), (s2) => {
          for (const nm of before) this.havocField(o, nm, s2, cx, n);
          return val(s2, null);
        }));
        continue;
      }
      for (const p of e.properties) {
        if (!ts.isPropertyAssignment(p) && !ts.isShorthandPropertyAssignment(p)) throw new Unsupported('Object.assign', n);
      }
      // all values are evaluated before the first one is written
      const exprs = e.properties.map((p) => (ts.isPropertyAssignment(p) ? p.initializer : p.name));
      outs = bind(outs, (s) => bind(this.evList(exprs, s, cx), (s2, vs) => {
        let w = val(s2, null);
        vs.forEach((v, i) => { w = bind(w, (s3) => this.setProp(o, lit[i], v, s3, cx, n)); });
        return w;
      }));
      names.push(...lit);
    }
    return bind(outs, (s) => val(s, o));
  });
};

P.evArray = function (n, st, cx) {
  return bind(this.evList(n.elements, st, cx), (s, vs) => {
    const want = this.expectedEl?.(n, cx, s) ?? (this.opts?.valArrays ? { s: 'Val' } : undefined);
    let el = want ?? (vs.length > 0 && vs.every((v) => v.s !== 'Spread') ? this.commonEl(vs) : undefined);
    if (!el && vs.length > 0) {
      const sp = vs.find((v) => v.s === 'Spread');
      el = sp?.v.h?.k === 'array' ? sp.v.h.el : { s: 'Val' };
    }
    el ??= { s: 'Val', weak: true };
    const es = this.elSort(el);
    const r = this.newArray(s, el, '0', undefined, 'arr');
    for (const v of vs) {
      if (v.s === 'Spread') this.arrayAppendAll(r, v.v, s, cx, n);
      else this.arrayPush(r, v, s, cx, n);
    }
    return val(s, r);
  });
};

P.commonEl = function (vs) {
  let s = vs[0];
  let ty = { s: s.s === 'Num' ? 'Int' : ['Fn', 'Class', 'Null', 'Undef'].includes(s.s) ? (s.s === 'Undef' ? 'Val' : 'Ref') : s.s, h: s.h };
  for (const v of vs) {
    const j = this.joinSort({ s: ty.s }, v);
    if (j !== ty.s) ty = { s: j };
  }
  return ty;
};

P.arrayPush = function (a, v, st, cx, n) {
  const s = this.elSort(a.h.el);
  const arr = this.hread(st, `el:${s}`, a.t).term;
  const len = this.hread(st, 'len', a.t).term;
  const lenN = /^\d+$/.test(len) ? int(Number(len) + 1) : `(+ ${len} 1)`;
  this.hwrite(st, `el:${s}`, a.t, `(store ${arr} ${len} ${this.co(v, s, st, n)})`);
  this.hwrite(st, 'len', a.t, lenN);
  return INT(lenN);
};

P.arrayAppendAll = function (a, b, st, cx, n) {
  if (b.s !== 'Ref' || b.h?.k !== 'array') throw new Unsupported('spread of a non-array', n);
  const s = this.elSort(a.h.el);
  const s2 = this.elSort(b.h.el);
  const arr = this.hread(st, `el:${s}`, a.t).term;
  const len = this.hread(st, 'len', a.t).term;
  const arr2 = this.hread(st, `el:${s2}`, b.t).term;
  const len2 = this.hread(st, 'len', b.t).term;
  const na = this.newConst('appended', `(Array Int ${smtSort(s)})`);
  const at = this.co(V(s2, `(select ${arr2} (- i ${len}))`, b.h.el.h, b.h.el.nn), s, st, n);
  st.assume(`(forall ((i Int)) (! (= (select ${na} i) (ite (and (<= ${len} i) (< i (+ ${len} ${len2}))) ${at} (select ${arr} i))) :pattern ((select ${na} i))))`);
  const at2 = this.co(V(s2, `(select ${arr2} j)`, b.h.el.h, b.h.el.nn), s, st, n);
  st.assume(`(forall ((j Int)) (! (=> (and (<= 0 j) (< j ${len2})) (= (select ${na} (+ ${len} j)) ${at2})) :pattern ((select ${arr2} j))))`);
  this.hwrite(st, `el:${s}`, a.t, na);
  this.hwrite(st, 'len', a.t, `(+ ${len} ${len2})`);
};

P.evTemplate = function (n, st, cx) {
  const exprs = n.templateSpans.map((s) => s.expression);
  return bind(this.evList(exprs, st, cx), (s, vs) => {
    let v = V('Str', this.strLit(n.head.text), { k: 'lit', text: n.head.text });
    n.templateSpans.forEach((sp, i) => {
      v = this.strConcat(v, vs[i], s, n);
      if (sp.literal.text !== '') v = this.strConcat(v, V('Str', this.strLit(sp.literal.text)), s, n);
    });
    return val(s, v);
  });
};

// ------------------------------------------------------------ strings
P.strConcat = function (a, b, st, n) {
  const str = (v) => {
    if (v.s === 'Str') return v.t;
    if (this.strings && v.s === 'Int') return `(ite (>= ${v.t} 0) (str.from_int ${v.t}) (str.++ "-" (str.from_int (- ${v.t}))))`;
    this.declFun('toStr', ['Val'], 'Str');
    return `(toStr ${this.co(v, 'Val', st, n)})`;
  };
  if (this.strings) return V('Str', `(str.++ ${str(a)} ${str(b)})`);
  this.declFun('cat', ['Str', 'Str'], 'Str');
  return V('Str', `(cat ${str(a)} ${str(b)})`);
};

P.strProp = function (o, name, st, cx, n) {
  if (name === 'length') {
    if (this.strings) return val(st, INT(`(str.len ${o.t})`));
    this.declFun('slen', ['Str'], 'Int');
    return val(st, INT(`(slen ${o.t})`));
  }
  return val(st, { s: 'Method', o, name });
};

P.strIndex = function (o, i, st, cx, n) {
  const it = this.co(i, 'Int', st, n);
  if (this.strings) {
    return val(st, V('Val', `(ite (and (<= 0 ${it}) (< ${it} (str.len ${o.t}))) (VStr (str.at ${o.t} ${it})) VUndef)`));
  }
  this.declFun('sat', ['Str', 'Int'], 'Val');
  return val(st, V('Val', `(sat ${o.t} ${it})`));
};

P.evAwait = function (n, st, cx) {
  const hook = this.contract?.await;
  return bind(this.ev(n.expression, st, cx), (s, v) => {
    if (!hook) throw new Unsupported('await without an await contract', n);
    return hook(this, s, v, cx, n);
  });
};

P.evYield = function (n, st, cx) {
  const hook = this.contract?.yield;
  if (cx.onYield) return bind(n.expression ? this.ev(n.expression, st, cx) : val(st, UNDEF), (s, v) => cx.onYield(s, v, cx));
  if (!hook) throw new Unsupported('yield without a contract', n);
  if (!n.expression) return val(st, UNDEF);
  return bind(this.ev(n.expression, st, cx), (s, v) => hook(this, s, v, cx, n));
};

// ------------------------------------------------------------ specs
P.specCache = new Map();
P.parseSpec = function (text) {
  if (typeof text !== 'string') return text;
  let n = this.specCache.get(text);
  if (!n) {
    n = parseExpr(text);
    this.specCache.set(text, n);
  }
  return n;
};

P.specEval = function (text, st, cx) {
  const n = this.parseSpec(text);
  try {
    const outs = this.ev(n, st, { ...cx, spec: true });
    if (outs.length !== 1 || outs[0].k !== 'val') throw new Unsupported('specification is not a pure expression: ' + outs.map((o) => o.k + ' ' + JSON.stringify(o.v)).join(' | ').slice(0, 300));
    return outs[0].v;
  } catch (e) {
    if (e instanceof Unsupported && typeof text === 'string') e.message += ` [in spec: ${text}]`;
    throw e;
  }
};

P.specBool = function (text, st, cx) {
  return this.truthy(this.specEval(text, st, cx));
};
