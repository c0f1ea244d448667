// Deductive verifier for a fragment of TypeScript: forward symbolic execution
// of the real function bodies against sidecar contracts. Every obligation is
// an SMT-LIB script whose unsatisfiability discharges it.
import { ts, SK, parseExpr, memberName } from './front.mjs';
import { and, or, not, implies, ite, eq, int, bv, smtSort, prelude, S2I_AXIOM } from './smt.mjs';

export class Unsupported extends Error {
  constructor(msg, node) {
    let where = '';
    if (node) {
      const sf = node.getSourceFile?.();
      if (sf) {
        const { line } = sf.getLineAndCharacterOfPosition(node.getStart());
        where = ` at ${sf.fileName}:${line + 1} \`${node.getText().slice(0, 60).replace(/\s+/g, ' ')}\``;
      }
    }
    super(msg + where);
  }
}

const DOM_NS = new Set(['Math', 'Object', 'Number', 'Array', 'Symbol', 'Promise', 'Reflect', 'String', 'JSON', 'Node', 'Element', 'console', 'performance', 'window', 'document', 'crypto', 'navigator', 'Map', 'Set', 'WeakMap', 'Proxy', 'Uint8Array', 'TypeError', 'Error', 'ReferenceError', 'URL', 'RegExp', 'MessageChannel', 'scheduler']);

const V = (s, t, h, nn) => ({ s, t, h, nn });
const BOOL = (t) => V('Bool', t);
const INT = (t) => V('Int', t);
export const NUM = (n) => ({ s: 'Num', n });
const UNDEF = { s: 'Undef' };
const NULL = { s: 'Null' };
const TRUE = BOOL('true');
const FALSE = BOOL('false');

// The top-level parts of an s-expression "(a b c)".
export function kids(f) {
  const out = [];
  let d = 0;
  let start = 1;
  for (let i = 1; i < f.length - 1; i++) {
    const ch = f[i];
    if (ch === '(') d++;
    else if (ch === ')') d--;
    else if (ch === '"') { i++; while (f[i] !== '"') i++; }
    else if (ch === ' ' && d === 0) { if (i > start) out.push(f.slice(start, i)); start = i + 1; }
  }
  if (start < f.length - 1) out.push(f.slice(start, f.length - 1));
  return out;
}

export function conjuncts(f) {
  const out = [];
  let d = 0;
  let start = 5;
  for (let i = 5; i < f.length - 1; i++) {
    const ch = f[i];
    if (ch === '(') d++;
    else if (ch === ')') d--;
    else if (ch === ' ' && d === 0) { if (i > start) out.push(f.slice(start, i)); start = i + 1; }
  }
  if (start < f.length - 1) out.push(f.slice(start, f.length - 1));
  return out;
}

class St {
  constructor() {
    this.path = [];
    this.cells = new Map();
    this.heap = new Map();
    this.alloc = null;
    this.fresh = new Map(); // ref term -> alloc ordinal
    this.meta = new Map();
  }
  clone() {
    const s = new St();
    s.path = this.path.slice();
    s.cells = new Map(this.cells);
    s.heap = new Map(this.heap);
    s.alloc = this.alloc;
    s.fresh = new Map(this.fresh);
    s.meta = new Map(this.meta);
    return s;
  }
  assume(f) {
    if (f.startsWith('(and ')) for (const g of conjuncts(f)) this.assume(g);
    else if (f !== 'true') this.path.push(f);
    return this;
  }
}

class Env {
  // (dyn: the scope of the caller, which specifications fall back to)
  constructor(parent, dyn) {
    this.vars = new Map();
    this.parent = parent;
    this.dyn = dyn;
  }
  lookupDyn(name) {
    const seen = new Set();
    const visit = (e0) => {
      if (!e0 || seen.has(e0)) return undefined;
      seen.add(e0);
      const c = e0.lookup(name);
      if (c !== undefined) return c;
      for (let e = e0; e; e = e.parent) {
        const d = visit(e.dyn);
        if (d !== undefined) return d;
      }
      return undefined;
    };
    return visit(this);
  }
  lookup(name) {
    for (let e = this; e; e = e.parent) {
      const c = e.vars.get(name);
      if (c !== undefined) return c;
    }
    return undefined;
  }
  *names() {
    const seen = new Set();
    for (let e = this; e; e = e.parent) {
      for (const [n, c] of e.vars) if (!seen.has(n)) { seen.add(n); yield [n, c]; }
    }
  }
}

let cellCount = 0;

export class Verifier {
  constructor(program, contracts, opts = {}) {
    this.prog = program;
    this.contracts = contracts; // Map key -> contract
    this.opts = opts;
    this.fieldSorts = opts.fieldSorts ?? {};
    this.specFns = opts.specFns ?? {};
    this.axioms = opts.axioms ?? [];
    this.decls = opts.decls ?? '';
    this.strings = opts.strings ?? false;
    this.clsIds = new Map();
    this.strLits = new Map();
    this.symIds = new Map();
    this.fieldTypeCache = new Map();
    this.closures = new Map();
    this.assumptions = new Set();
    this.usedContracts = new Set();
    this.inlined = new Set();
    this.buildFieldTypes();
    this.reset();
  }

  reset() {
    this.consts = new Map();
    this.obls = [];
    this.covers = [];
    this.counter = 0;
    this.dry = 0;
    this.globalFacts = [];
  }

  // ---------------------------------------------------------------- types
  buildFieldTypes() {
    this.fieldDecls = new Map();
    const visit = (n) => {
      if ((ts.isPropertySignature(n) || ts.isPropertyDeclaration(n)) && n.name) {
        const name = memberName(n);
        if (name) {
          if (!this.fieldDecls.has(name)) this.fieldDecls.set(name, []);
          this.fieldDecls.get(name).push(n);
        }
      }
      ts.forEachChild(n, visit);
    };
    for (const m of this.prog.modules.values()) visit(m.sf);
  }

  fieldType(name) {
    if (this.fieldTypeCache.has(name)) return this.fieldTypeCache.get(name);
    let ty;
    if (this.fieldSorts[name]) ty = this.parseType(this.fieldSorts[name]);
    else if (/(lanes|flags)$/i.test(name)) ty = { s: 'BV' };
    else {
      const ds = this.fieldDecls.get(name) ?? [];
      for (const d of ds) {
        let t;
        if (d.type) t = this.memberTypeOf(d.type);
        else if (d.initializer) t = this.typeOfInit(d.initializer);
        else t = { s: 'Val' };
        if (!ty) ty = t;
        else if (ty.s !== t.s) { ty = { s: 'Val' }; break; }
        else if (JSON.stringify(ty.h) !== JSON.stringify(t.h)) ty = { s: ty.s, h: ty.h?.k === t.h?.k && ty.h?.k === 'array' && ty.h.el.s === t.h.el.s ? { k: 'array', el: { s: ty.h.el.s } } : undefined, nn: ty.nn && t.nn };
      }
      ty ??= { s: 'Val' };
    }
    this.fieldTypeCache.set(name, ty);
    return ty;
  }

  memberTypeOf(node) {
    const t = this.typeOf(node);
    if (!node.parent?.questionToken) return t;
    if (t.s === 'Ref') return { ...t, nn: false, nu: false };
    return { s: 'Val' };
  }

  typeOfInit(init) {
    if (ts.isNumericLiteral(init)) return { s: 'Int', nn: true };
    if (init.kind === SK.TrueKeyword || init.kind === SK.FalseKeyword) return { s: 'Bool', nn: true };
    if (ts.isStringLiteral(init)) return { s: 'Str', nn: true };
    if (ts.isNewExpression(init) && ts.isIdentifier(init.expression)) {
      return { s: 'Ref', nn: true, h: this.hintOfName(init.expression.text, init.typeArguments) };
    }
    if (ts.isArrayLiteralExpression(init)) return { s: 'Ref', nn: true, h: { k: 'array', el: { s: 'Val' } } };
    return { s: 'Val' };
  }

  hintOfName(name, targs) {
    if (name === 'Map' || name === 'WeakMap') {
      return { k: 'map', key: targs?.[0] ? this.typeOf(targs[0]) : { s: 'Val' }, val: targs?.[1] ? this.typeOf(targs[1]) : { s: 'Val' } };
    }
    if (name === 'Set' || name === 'WeakSet') return { k: 'set', el: targs?.[0] ? this.typeOf(targs[0]) : { s: 'Val' } };
    return { k: 'class', name };
  }

  parseType(text) {
    if (typeof text !== 'string') return text;
    const m = /^(\w+)$/.exec(text);
    if (m) {
      if (['Int', 'Bool', 'BV', 'Str', 'Val'].includes(text)) return { s: text, nn: true };
      if (text === 'Ref') return { s: 'Ref' };
    }
    if (text === 'Ref!') return { s: 'Ref', nn: true };
    let r;
    if ((r = /^array:(.*)$/.exec(text))) return { s: 'Ref', nn: true, h: { k: 'array', el: this.parseType(r[1]) } };
    if ((r = /^map:(\w+),(.*)$/.exec(text))) return { s: 'Ref', nn: true, h: { k: 'map', key: this.parseType(r[1]), val: this.parseType(r[2]) } };
    if ((r = /^\?(.*)$/.exec(text))) return { ...this.parseType(r[1]), nn: false };
    if ((r = /^set:(.*)$/.exec(text))) return { s: 'Ref', nn: true, h: { k: 'set', el: this.parseType(r[1]) } };
    if ((r = /^!(\w+)$/.exec(text))) return { s: 'Ref', nn: true, h: { k: 'class', name: r[1], exact: true } };
    const sf = ts.createSourceFile('t.ts', `type X = ${text};`, ts.ScriptTarget.Latest, true);
    return this.typeOf(sf.statements[0].type);
  }

  typeOf(n, depth = 0) {
    if (!n || depth > 12) return { s: 'Val' };
    switch (n.kind) {
      case SK.NumberKeyword: return { s: 'Int', nn: true };
      case SK.BooleanKeyword: return { s: 'Bool', nn: true };
      case SK.StringKeyword: return { s: 'Str', nn: true };
      case SK.ObjectKeyword: return { s: 'Ref', nn: true };
      case SK.ThisType: return { s: 'Ref', nn: true };
      case SK.ParenthesizedType: return this.typeOf(n.type, depth + 1);
      case SK.TypeOperator: return this.typeOf(n.type, depth + 1);
      case SK.ArrayType: return { s: 'Ref', nn: true, h: { k: 'array', el: this.typeOf(n.elementType, depth + 1) } };
      case SK.TupleType: {
        const els = n.elements.map((e) => this.typeOf(ts.isNamedTupleMember(e) ? e.type : e, depth + 1));
        const s0 = els[0]?.s;
        return { s: 'Ref', nn: true, h: { k: 'array', el: els.length > 0 && els.every((e) => e.s === s0) ? els[0] : { s: 'Val' } } };
      }
      case SK.LiteralType:
        if (n.literal.kind === SK.NullKeyword) return { s: 'Null' };
        if (n.literal.kind === SK.TrueKeyword || n.literal.kind === SK.FalseKeyword) return { s: 'Bool', nn: true };
        if (ts.isStringLiteral(n.literal)) return { s: 'Str', nn: true };
        if (ts.isNumericLiteral(n.literal)) return { s: 'Int', nn: true };
        return { s: 'Val' };
      case SK.UndefinedKeyword: return { s: 'Undef' };
      case SK.FunctionType: case SK.ConstructorType: return { s: 'Ref', nn: true, h: { k: 'fn', node: undefined } };
      case SK.TypeLiteral: return { s: 'Ref', nn: true, h: { k: 'obj' } };
      case SK.IntersectionType: {
        for (const t of n.types) {
          const r = this.typeOf(t, depth + 1);
          if (r.s === 'Ref') return r;
        }
        return { s: 'Val' };
      }
      case SK.UnionType: {
        const ts_ = n.types.map((t) => this.typeOf(t, depth + 1));
        const rest = ts_.filter((t) => t.s !== 'Null' && t.s !== 'Undef');
        const nullable = rest.length < ts_.length;
        if (rest.length === 0) return { s: 'Val' };
        if (rest.every((t) => t.s === 'Ref')) {
          const hs = new Set(rest.map((t) => JSON.stringify(t.h)));
          let h = hs.size === 1 ? rest[0].h : undefined;
          if (!h && rest.every((t) => t.h?.k === 'array' && t.h.el.s === rest[0].h.el.s)) h = rest[0].h;
          if (!h) h = { k: 'union', hs: rest.map((t) => t.h).filter(Boolean) };
          return { s: 'Ref', h, nn: !nullable && rest.every((t) => t.nn), nu: nullable && !ts_.some((t) => t.s === 'Undef') && rest.every((t) => t.nn || t.nu) };
        }
        if (!nullable && rest.every((t) => t.s === rest[0].s)) return rest[0];
        return { s: 'Val' };
      }
      case SK.TypeReference: {
        const name = n.typeName.getText();
        const short = ts.isQualifiedName(n.typeName) ? n.typeName.right.text : name;
        if (/^Lanes?$/.test(name)) return { s: 'BV', nn: true };
        if (name === 'Array' || name === 'ReadonlyArray' || name === 'ArrayLike' || name === 'Iterable') return { s: 'Ref', nn: true, h: { k: 'array', el: n.typeArguments ? this.typeOf(n.typeArguments[0], depth + 1) : { s: 'Val' } } };
        if (name === 'Map' || name === 'WeakMap' || name === 'Set' || name === 'WeakSet') return { s: 'Ref', nn: true, h: this.hintOfName(name, n.typeArguments) };
        if (name === 'Exclude' || name === 'NonNullable' || name === 'Pick') return { s: 'Val' };
        if (this.prog.enums.has(name)) return { s: 'Int', nn: true };
        if (ts.isQualifiedName(n.typeName) && this.prog.enums.has(n.typeName.left.getText())) return { s: 'Int', nn: true };
        if (this.opts.typeOverrides?.[name]) return this.parseType(this.opts.typeOverrides[name]);
        if (this.prog.classes.has(name) || this.prog.interfaces.has(name)) return { s: 'Ref', nn: true, h: { k: 'class', name } };
        if (this.prog.interfaces.has(short)) return { s: 'Ref', nn: true, h: { k: 'class', name: short } };
        const al = this.prog.aliases.get(name) ?? this.prog.aliases.get(short);
        if (al) {
          const r = this.typeOf(al.node, depth + 1);
          if (r.s === 'Ref') return { ...r, h: r.h?.k === 'array' || r.h?.k === 'fn' ? { ...r.h, name } : { k: 'class', name } };
          return r;
        }
        if (/^(T|K|P|V|U)([A-Z]\w*)?$/.test(name)) return { s: 'Val' };
        if (name === 'PropertyKey' || name === 'TaskPriority') return { s: name === 'TaskPriority' ? 'Str' : 'Val', nn: true };
        return { s: 'Ref', nn: true, h: { k: 'class', name } };
      }
      default: return { s: 'Val' };
    }
  }

  // ---------------------------------------------------------------- consts
  newConst(prefix, sort, def) {
    const name = `${prefix.replace(/[^\w$]/g, '_')}!${this.counter++}`;
    this.consts.set(name, { sort: smtSort(sort), def, axioms: [] });
    return name;
  }

  clsId(name) {
    if (!this.clsIds.has(name)) this.clsIds.set(name, this.clsIds.size + 1);
    return int(this.clsIds.get(name));
  }

  strLit(s) {
    if (this.strings) {
      let r = '';
      for (const ch of s) {
        const c = ch.codePointAt(0);
        r += c < 32 || c > 126 || ch === '\\' ? `\\u{${c.toString(16)}}` : ch === '"' ? '""' : ch;
      }
      return `"${r}"`;
    }
    if (!this.strLits.has(s)) this.strLits.set(s, `str!${this.strLits.size}`);
    return this.strLits.get(s);
  }

  symVal(name) {
    if (!this.symIds.has(name)) this.symIds.set(name, this.symIds.size + 1);
    return V('Val', `(VSym ${this.symIds.get(name)})`, { k: 'sym', name });
  }

  freshVal(prefix, ty, st, { facts = true } = {}) {
    const s = ty.s === 'Null' || ty.s === 'Undef' ? 'Val' : ty.s;
    const c = this.newConst(prefix, s);
    if (facts && s === 'Ref') {
      st.assume(ty.nn ? `(> ${c} 0)` : `(>= ${c} (- 1))`);
      st.assume(`(<= ${c} ${st.alloc})`);
    } else if (facts && s === 'Val') {
      st.assume(`(wfVal ${c})`);
      st.assume(`(=> ((_ is VRef) ${c}) (<= (vref ${c}) ${st.alloc}))`);
    }
    return V(s, c, ty.h, ty.nn);
  }

  // ---------------------------------------------------------------- heap
  heapBase(st, key, sort, label = '0') {
    const name = this.newConst(`${key.replace(/:/g, '_')}_${label}`, sort);
    const c = this.consts.get(name);
    c.heap = { key, alloc: st.alloc };
    const a = st.alloc;
    if (this.isFrozen(key)) {
      // a field written only when its object is made: one map for all states
      if (this.isRefKey(key)) c.axioms.push(`(forall ((r Int)) (! (>= (select ${name} r) (- 1)) :pattern ((select ${name} r))))`);
      else if (sort === '(Array Int Val)') c.axioms.push(`(forall ((r Int)) (! (wfVal (select ${name} r)) :pattern ((select ${name} r))))`);
    } else if (sort === '(Array Int Int)' && this.isRefKey(key)) {
      c.axioms.push(`(forall ((r Int)) (! (and (>= (select ${name} r) (- 1)) (<= (select ${name} r) ${a})) :pattern ((select ${name} r))))`);
    } else if (key === 'el:Ref') {
      c.axioms.push(`(forall ((r Int) (i Int)) (! (and (>= (select (select ${name} r) i) (- 1)) (<= (select (select ${name} r) i) ${a})) :pattern ((select (select ${name} r) i))))`);
    } else if (key === 'el:Val') {
      c.axioms.push(`(forall ((r Int) (i Int)) (! (and (wfVal (select (select ${name} r) i)) (=> ((_ is VRef) (select (select ${name} r) i)) (<= (vref (select (select ${name} r) i)) ${a}))) :pattern ((select (select ${name} r) i))))`);
    } else if (key === 'mval') {
      c.axioms.push(`(forall ((r Int) (i Val)) (! (and (wfVal (select (select ${name} r) i)) (=> ((_ is VRef) (select (select ${name} r) i)) (<= (vref (select (select ${name} r) i)) ${a}))) :pattern ((select (select ${name} r) i))))`);
    } else if (key === 'len') {
      c.axioms.push(`(forall ((r Int)) (! (>= (select ${name} r) 0) :pattern ((select ${name} r))))`);
    } else if (key.startsWith('f:') && sort === '(Array Int Val)') {
      c.axioms.push(`(forall ((r Int)) (! (and (wfVal (select ${name} r)) (=> ((_ is VRef) (select ${name} r)) (<= (vref (select ${name} r)) ${a}))) :pattern ((select ${name} r))))`);
    }
    const node = { name, sort, key, parent: null, base: true };
    return node;
  }

  isFrozen(key) {
    return key.startsWith('f:') && !!this.opts.frozen?.includes(key.slice(2));
  }

  isRefKey(key) {
    return key.startsWith('f:') && this.fieldType(key.slice(2)).s === 'Ref';
  }

  keySort(key) {
    if (key === 'len') return '(Array Int Int)';
    if (key.startsWith('el:')) return `(Array Int (Array Int ${smtSort(key.slice(3))}))`;
    if (key === 'dom') return '(Array Int (Array Val Bool))';
    if (key === 'mval') return '(Array Int (Array Val Val))';
    if (key.startsWith('f:')) {
      const s = this.fieldType(key.slice(2)).s;
      return `(Array Int ${smtSort(s === 'Null' || s === 'Undef' ? 'Val' : s)})`;
    }
    if (key.startsWith('g:')) {
      const g = this.ghosts?.[key.slice(2)];
      if (!g) throw new Unsupported(`unknown ghost ${key}`);
      return smtSort(g);
    }
    throw new Unsupported(`unknown heap key ${key}`);
  }

  heap(st, key) {
    let h = st.heap.get(key);
    if (!h) {
      // The initial heap: shared by all paths.
      h = this.initHeap.get(key);
      if (!h) {
        h = this.heapBase({ alloc: this.alloc0 }, key, this.keySort(key));
        this.initHeap.set(key, h);
      }
      st.heap.set(key, h);
    }
    return h;
  }

  distinct(st, a, b) {
    const fa = st.fresh.get(a);
    const fb = st.fresh.get(b);
    if (fa !== undefined && fb !== undefined) return a !== b;
    if (fa !== undefined && this.preexisting.has(b)) return true;
    if (fb !== undefined && this.preexisting.has(a)) return true;
    return false;
  }

  hread(st, key, ref) {
    let h = this.heap(st, key);
    for (let n = h; ; n = n.parent) {
      if (!n) break;
      if (n.write) {
        if (n.ref === ref) return { term: n.val, meta: n.meta };
        if (this.distinct(st, n.ref, ref)) { h = n.parent; continue; }
      }
      break;
    }
    return { term: `(select ${h.name} ${ref})` };
  }

  hwrite(st, key, ref, val, meta) {
    const parent = this.heap(st, key);
    const sort = this.keySort(key);
    const name = this.newConst(key.replace(/:/g, '_'), sort, `(store ${parent.name} ${ref} ${val})`);
    st.heap.set(key, { name, sort, key, parent, write: true, ref, val, meta });
    this.onWrite?.(key, ref, st);
  }

  hset(st, key, name) {
    // Replaces the whole heap component (havoc).
    st.heap.set(key, { name, sort: this.keySort(key), key, parent: null });
  }

  alloc(st, prefix, cls) {
    const r = this.newConst(prefix, 'Int');
    st.assume(`(= ${r} (+ ${st.alloc} 1))`);
    st.assume(`(> ${r} 0)`);
    if (cls) st.assume(`(= (cls ${r}) ${this.clsId(cls)})`);
    else if (this.opts.plainCls) st.assume(`(= (cls ${r}) 0)`); // (no class declared here)
    st.alloc = r;
    st.fresh.set(r, this.counter);
    return r;
  }

  newArray(st, elTy, lenTerm, elems /* SMT array term */, prefix = 'arr') {
    const r = this.alloc(st, prefix);
    st.assume(`(isArr ${r})`);
    st.assume(`(not (isFn ${r}))`);
    const s = this.elSort(elTy);
    this.hwrite(st, 'len', r, lenTerm);
    this.hwrite(st, `el:${s}`, r, elems ?? this.constArr(s));
    this.opts.onArray?.(this, r, st, elTy);
    return V('Ref', r, { k: 'array', el: elTy }, true);
  }

  elSort(ty) {
    return ty.s === 'Null' || ty.s === 'Undef' || ty.s === 'Fn' ? 'Val' : ty.s === 'Num' ? 'Int' : ty.s;
  }

  constArr(s) {
    const d = s === 'Ref' ? '(- 1)' : s === 'Val' ? 'VUndef' : null;
    if (d !== null) return `((as const (Array Int ${smtSort(s)})) ${d})`;
    return this.newConst('emptyEls', `(Array Int ${smtSort(s)})`);
  }

  // ---------------------------------------------------------------- coercions
  closureRef(st, fn) {
    const key = fn;
    if (fn.refTerm) return fn.refTerm;
    const r = this.alloc(st, 'closure');
    st.assume(`(isFn ${r})`);
    fn.refTerm = r;
    this.closures.set(r, fn);
    return r;
  }

  co(v, sort, st, node) {
    if (v.s === sort) return v.t;
    switch (v.s) {
      case 'Num':
        if (sort === 'Int') {
          if (!Number.isInteger(v.n)) throw new Unsupported(`non-integer number ${v.n}`, node);
          return int(v.n);
        }
        if (sort === 'BV') return bv(v.n | 0);
        if (sort === 'Val') return Object.is(v.n, -0) ? 'VNegZero' : Number.isNaN(v.n) ? 'VNaN' : `(VInt ${int(v.n)})`;
        if (sort === 'Bool') return v.n ? 'true' : 'false';
        break;
      case 'Undef':
        if (sort === 'Ref') return '(- 1)';
        if (sort === 'Val') return 'VUndef';
        break;
      case 'Null':
        if (sort === 'Ref') return '0';
        if (sort === 'Val') return 'VNull';
        break;
      case 'Fn': case 'Class':
        if (sort === 'Ref') return this.fnRef(v, st);
        if (sort === 'Val') return `(VRef ${this.fnRef(v, st)})`;
        break;
      case 'NS':
        // a host object reached by its global name
        if (sort === 'Ref') return this.opaqueConst(`ns_${v.name}`);
        if (sort === 'Val') return `(VRef ${this.opaqueConst(`ns_${v.name}`)})`;
        break;
      case 'Int':
        if (sort === 'Val') return `(VInt ${v.t})`;
        break;
      case 'Bool':
        if (sort === 'Val') return `(VBool ${v.t})`;
        break;
      case 'BV':
        if (sort === 'Val') return `(VBv ${v.t})`;
        if (sort === 'Int') return `(s2i ${v.t})`;
        break;
      case 'Str':
        if (sort === 'Val') return `(VStr ${v.t})`;
        break;
      case 'Ref':
        if (sort === 'Val') return v.nn || st?.fresh?.has(v.t) ? `(VRef ${v.t})` : `(ofRef ${v.t})`;
        break;
      case 'Val':
        if (sort === 'Ref') return v.t.startsWith('(VRef ') ? v.t.slice(6, -1) : v.t.startsWith('(ofRef ') ? v.t.slice(7, -1) : `(toRef ${v.t})`;
        if (sort === 'Int') return v.t.startsWith('(VInt ') ? v.t.slice(6, -1) : `(vint ${v.t})`;
        if (sort === 'Bool') return v.t.startsWith('(VBool ') ? v.t.slice(7, -1) : `(vbool ${v.t})`;
        if (sort === 'Str') return v.t.startsWith('(VStr ') ? v.t.slice(6, -1) : `(vstr ${v.t})`;
        if (sort === 'BV') return v.t.startsWith('(VBv ') ? v.t.slice(5, -1) : `(vbv ${v.t})`;
        break;
    }
    throw new Unsupported(`cannot coerce ${v.s} to ${sort}`, node);
  }

  fnRef(v, st) {
    if (v.s === 'Class') {
      const c = `class$${v.info.name}`;
      if (!this.consts.has(c)) {
        this.consts.set(c, { sort: 'Int', axioms: [`(> ${c} 0)`, `(isFn ${c})`] });
        this.preexisting.add(c);
      }
      return c;
    }
    if (v.info && !v.env) {
      const c = `fn$${v.info.key.replace(/\W/g, '_')}`;
      if (!this.consts.has(c)) {
        this.consts.set(c, { sort: 'Int', axioms: [`(> ${c} 0)`, `(isFn ${c})`, `(<= ${c} ${this.alloc0})`] });
        this.preexisting.add(c);
        this.closures.set(c, v);
      }
      return c;
    }
    return this.closureRef(st, v);
  }

  truthy(v, node) {
    switch (v.s) {
      case 'Bool': return v.t;
      case 'Num': return v.n ? 'true' : 'false';
      case 'Undef': case 'Null': return 'false';
      case 'Fn': case 'Class': case 'NS': return 'true';
      case 'Int': return not(eq(v.t, '0'));
      case 'BV': return not(eq(v.t, bv(0)));
      case 'Ref': return `(> ${v.t} 0)`;
      case 'Str': return this.strings ? not(eq(v.t, '""')) : `(truthyStr ${v.t})`;
      case 'Val': return `(truthy ${v.t})`;
    }
    throw new Unsupported(`truthiness of ${v.s}`, node);
  }

  joinSort(a, b) {
    if (a.s === b.s && !['Num', 'Undef', 'Null', 'Fn', 'Class', 'NS'].includes(a.s)) return a.s;
    const set = new Set([a.s, b.s]);
    const only = (...xs) => [...set].every((x) => xs.includes(x));
    if (only('Num', 'Int')) return 'Int';
    if (only('Num', 'BV')) return 'BV';
    if (only('Ref', 'Null', 'Undef', 'Fn', 'Class')) return 'Ref';
    return 'Val';
  }

  joinHint(a, b) {
    if (a.s === 'Null' || a.s === 'Undef') return b.h;
    if (b.s === 'Null' || b.s === 'Undef') return a.h;
    if (JSON.stringify(a.h) === JSON.stringify(b.h)) return a.h;
    if (a.h?.k === 'array' && b.h?.k === 'array') {
      // an empty literal takes any element type
      if (a.h.el.weak) return b.h;
      if (b.h.el.weak) return a.h;
      return a.h.el.s === b.h.el.s ? a.h : undefined;
    }
    return a.h ?? b.h;
  }

  iteVal(c, a, b, st, node) {
    if (c === 'true') return a;
    if (c === 'false') return b;
    if (a === b) return a;
    if (a.s === 'Num' && b.s === 'Num' && Object.is(a.n, b.n)) return a;
    if (a.s === b.s && (a.s === 'Undef' || a.s === 'Null')) return a;
    if (a.s === 'Fn' && b.s === 'Fn' && a.node === b.node && a.env === b.env && a.info === b.info) return a;
    const s = this.joinSort(a, b);
    const t = ite(c, this.co(a, s, st, node), this.co(b, s, st, node));
    return V(s, t, this.joinHint(a, b), a.nn && b.nn);
  }

  // ---------------------------------------------------------------- equality
  eqVals(a, b, mode, st, node) {
    // mode: 'strict' | 'is' | 'loose'
    const nullish = (v) => v.s === 'Null' || v.s === 'Undef';
    if (nullish(a) && !nullish(b)) return this.eqVals(b, a, mode, st, node);
    if (nullish(b)) {
      if (nullish(a)) return a.s === b.s || mode === 'loose' ? 'true' : 'false';
      const u = b.s === 'Undef';
      switch (a.s) {
        case 'Ref':
          if (mode === 'loose') return `(<= ${a.t} 0)`;
          return eq(a.t, u ? '(- 1)' : '0');
        case 'Val':
          if (mode === 'loose') return `(isNullish ${a.t})`;
          return eq(a.t, u ? 'VUndef' : 'VNull');
        default: return 'false';
      }
    }
    if (a.s === 'Num' && b.s === 'Num') return (mode === 'is' ? Object.is(a.n, b.n) : a.n === b.n) ? 'true' : 'false';
    if (a.s === 'Val' || b.s === 'Val') {
      const x = this.co(a, 'Val', st, node);
      const y = this.co(b, 'Val', st, node);
      if (mode === 'is') return eq(x, y);
      const plain = (v) => ['Ref', 'Str', 'Bool', 'Fn', 'Class'].includes(v.s) || v.h?.k === 'sym';
      if (plain(a) || plain(b)) return eq(x, y);
      if (x === y) return not(eq(x, 'VNaN'));
      return `(strictEq ${x} ${y})`;
    }
    const s = this.joinSort(a, b);
    if (s === 'Val') return 'false';
    return eq(this.co(a, s, st, node), this.co(b, s, st, node));
  }

  // ---------------------------------------------------------------- obligations
  oblige(st, name, goal, kind = 'assert') {
    if (this.dry > 0 || goal === 'true') {
      if (this.dry === 0) this.trivial = (this.trivial ?? 0) + 1;
      return;
    }
    if (goal.startsWith('(and ')) {
      const cs = conjuncts(goal);
      let s2 = st;
      cs.forEach((g, i) => {
        this.oblige(s2, `${name} (${i + 1}/${cs.length})`, g, kind);
        if (!g.includes('(forall')) { s2 = s2 === st ? st.clone() : s2; s2.assume(g); }
      });
      return;
    }
    if (goal.startsWith('(forall ')) {
      // Skolemized here, so that its parts become obligations of their own.
      const [, binders, body] = kids(goal);
      for (const b of kids(binders)) {
        const m = /^\((\S+) (.*)\)$/.exec(b);
        if (!this.consts.has(m[1])) this.consts.set(m[1], { sort: m[2], axioms: [] });
      }
      const inner = body.startsWith('(! ') ? kids(body)[1] : body;
      this.oblige(st, name, inner, kind);
      return;
    }
    if (goal.startsWith('(=> ')) {
      const [, h, c] = kids(goal);
      if (c.startsWith('(and ') || c.startsWith('(forall ') || c.startsWith('(=> ')) {
        const s2 = st.clone();
        s2.assume(h);
        this.oblige(s2, name, c, kind);
        return;
      }
    }
    this.obls.push({ fn: this.current, name, kind, facts: st.path.slice(), goal, pin: this.pin });
  }

  safety(st, cond, what, node) {
    if (cond === 'true') return;
    if (!this.noSafety) this.oblige(st, `safe:${what}`, cond, 'safety');
    st.assume(cond);
  }

  // ---------------------------------------------------------------- merging
  mergeStates(base, a, b) {
    // a, b: states that extend base; returns {st, br} or null.
    const n = Math.min(base.path.length, a.path.length, b.path.length);
    for (let i = 0; i < n; i++) if (a.path[i] !== b.path[i]) return null;
    const br = this.newConst('br', 'Bool');
    const st = base.clone();
    st.path = base.path.slice(0, n);
    const ea = a.path.slice(n);
    const eb = b.path.slice(n);
    if (ea.length > 0) st.path.push(`(=> ${br} ${and(ea)})`);
    if (eb.length > 0) st.path.push(`(=> (not ${br}) ${and(eb)})`);
    const keys = new Set([...a.cells.keys(), ...b.cells.keys()]);
    st.cells = new Map();
    for (const k of keys) {
      const x = a.cells.get(k);
      const y = b.cells.get(k);
      if (x === undefined || y === undefined) { st.cells.set(k, x ?? y); continue; }
      if (x === y) { st.cells.set(k, x); continue; }
      if (['Fn', 'Class', 'NS'].includes(x.s) || ['Fn', 'Class', 'NS'].includes(y.s)) {
        if (!(x.s === 'Fn' && y.s === 'Fn' && x.node === y.node && x.env === y.env)) return null;
        st.cells.set(k, x);
        continue;
      }
      const v = this.iteVal(br, x, y, st);
      if (v.t !== undefined && v.t.length > 40) {
        const c = this.newConst('m', v.s, v.t);
        st.cells.set(k, { ...v, t: c });
      } else st.cells.set(k, v);
    }
    const hk = new Set([...a.heap.keys(), ...b.heap.keys()]);
    st.heap = new Map();
    for (const k of hk) {
      const x = this.heap(a, k);
      const y = this.heap(b, k);
      if (x === y || x.name === y.name) { st.heap.set(k, x); continue; }
      const name = this.newConst(k.replace(/:/g, '_'), this.keySort(k), `(ite ${br} ${x.name} ${y.name})`);
      st.heap.set(k, { name, sort: x.sort, key: k, parent: null });
    }
    if (a.alloc === b.alloc) st.alloc = a.alloc;
    else {
      st.alloc = this.newConst('alloc', 'Int', `(ite ${br} ${a.alloc} ${b.alloc})`);
    }
    st.fresh = new Map([...a.fresh, ...b.fresh].filter(([k]) => a.fresh.has(k) && b.fresh.has(k)));
    return { st, br };
  }

  mergeOuts(base, outs, kind) {
    // Merges the outcomes of the given kind into one when possible.
    if (this.noMerge || (this.contract?.split === 'statements' ? kind !== 'val' : this.contract?.split)) return outs;
    const sel = outs.filter((o) => o.k === kind);
    if (sel.length < 2) return outs;
    const rest = outs.filter((o) => o.k !== kind);
    let acc = sel[0];
    const kept = [];
    for (let i = 1; i < sel.length; i++) {
      const m = this.mergeStates(base, acc.st, sel[i].st);
      if (m === null) { kept.push(sel[i]); continue; }
      let v;
      if (kind === 'val' || kind === 'return') {
        const x = acc.v ?? UNDEF;
        const y = sel[i].v ?? UNDEF;
        if ((['Fn', 'Class', 'NS'].includes(x.s) || ['Fn', 'Class', 'NS'].includes(y.s)) && x !== y) { kept.push(sel[i]); continue; }
        v = this.iteVal(m.br, x, y, m.st);
        if (v.t !== undefined && v.t.length > 60) v = { ...v, t: this.newConst('mv', v.s, v.t) };
      }
      acc = { k: kind, st: m.st, v };
    }
    return [acc, ...kept, ...rest];
  }
}

export { V, BOOL, INT, UNDEF, NULL, TRUE, FALSE, St, Env, DOM_NS };
export const newCell = () => ++cellCount;
