// Front end: parses the TypeScript sources of /repo on every run and indexes
// the functions, classes, interfaces, type aliases, enums and constants.
import fs from 'node:fs';
import path from 'node:path';
import { createRequire } from 'node:module';

const TS_PATH = '/opt/veriftools/node/node_modules/typescript/lib/typescript.js';
export const ts = createRequire(import.meta.url)(TS_PATH);
export const SK = ts.SyntaxKind;

export function listSources(root) {
  const out = [];
  const walk = (d) => {
    for (const e of fs.readdirSync(d, { withFileTypes: true })) {
      const p = path.join(d, e.name);
      if (e.isDirectory()) walk(p);
      else if (/\.ts$/.test(e.name) && !/\.d\.ts$/.test(e.name)) out.push(p);
    }
  };
  walk(root);
  return out.sort();
}

export class Program {
  constructor(repo, extra = []) {
    this.repo = repo;
    this.functions = new Map(); // key -> {node, cls, module, static}
    this.classes = new Map();
    this.interfaces = new Map(); // name -> {members: Map name->typeNode}
    this.aliases = new Map();
    this.enums = new Map();
    this.consts = new Map(); // name -> [{init, type, module}]
    this.modules = new Map();
    this.subclasses = new Map();
    for (const f of [...listSources(path.join(repo, 'src')), ...extra]) {
      const text = fs.readFileSync(f, 'utf8');
      const sf = ts.createSourceFile(f, text, ts.ScriptTarget.Latest, true);
      if (sf.parseDiagnostics.length > 0) {
        throw new Error(`parse error in ${f}: ${sf.parseDiagnostics[0].messageText}`);
      }
      this.addModule(sf, path.relative(repo, f));
    }
  }

  addModule(sf, rel) {
    const mod = { rel, sf, functions: new Map(), consts: new Map(), classes: new Map(), imports: new Map(), enums: new Map() };
    this.modules.set(rel, mod);
    const visit = (stmts, ns) => {
      for (const s of stmts) {
        if (ts.isImportDeclaration(s) && s.importClause?.namedBindings && ts.isNamedImports(s.importClause.namedBindings)) {
          for (const el of s.importClause.namedBindings.elements) {
            mod.imports.set(el.name.text, (el.propertyName ?? el.name).text);
          }
        } else if (ts.isFunctionDeclaration(s) && s.name && s.body) {
          const info = { node: s, cls: null, module: mod, key: s.name.text };
          mod.functions.set(s.name.text, info);
          if (!this.functions.has(s.name.text)) this.functions.set(s.name.text, info);
          this.functions.set(`${rel}#${s.name.text}`, info);
        } else if (ts.isClassDeclaration(s) && s.name) {
          this.addClass(s, mod);
        } else if (ts.isInterfaceDeclaration(s)) {
          this.addInterface(s, ns);
        } else if (ts.isTypeAliasDeclaration(s)) {
          this.aliases.set(ns + s.name.text, { node: s.type, module: mod, decl: s });
          if (ns) this.aliases.has(s.name.text) || this.aliases.set(s.name.text, { node: s.type, module: mod, decl: s });
        } else if (ts.isEnumDeclaration(s)) {
          const m = new Map();
          let v = 0;
          for (const e of s.members) {
            if (e.initializer && ts.isNumericLiteral(e.initializer)) v = Number(e.initializer.text);
            else if (e.initializer) v = NaN;
            m.set(e.name.text, v);
            v++;
          }
          this.enums.set(s.name.text, m);
        } else if (ts.isVariableStatement(s)) {
          for (const d of s.declarationList.declarations) {
            if (ts.isIdentifier(d.name)) {
              const info = { init: d.initializer, type: d.type, module: mod, name: d.name.text };
              mod.consts.set(d.name.text, info);
              if (!this.consts.has(d.name.text)) this.consts.set(d.name.text, info);
              if (d.initializer && (ts.isArrowFunction(d.initializer) || ts.isFunctionExpression(d.initializer))) {
                const finfo = { node: d.initializer, cls: null, module: mod, key: d.name.text };
                mod.functions.set(d.name.text, finfo);
                if (!this.functions.has(d.name.text)) this.functions.set(d.name.text, finfo);
              }
            }
          }
        } else if (ts.isModuleDeclaration(s) && s.body && ts.isModuleBlock(s.body)) {
          visit(s.body.statements, s.name.text + '.');
        }
      }
    };
    visit(sf.statements, '');
  }

  addInterface(s, ns) {
    const members = new Map();
    for (const m of s.members) {
      const name = memberName(m);
      if (name) members.set(name, m);
    }
    const ext = (s.heritageClauses ?? []).flatMap((h) => h.types.map((t) => t.expression.getText() + (t.typeArguments ? '' : '')));
    const info = { name: ns + s.name.text, members, ext, node: s };
    this.interfaces.set(ns + s.name.text, info);
    if (ns && !this.interfaces.has(s.name.text)) this.interfaces.set(s.name.text, info);
  }

  addClass(s, mod) {
    const info = { name: s.name.text, node: s, module: mod, fields: new Map(), methods: new Map(), getters: new Map(), setters: new Map(), statics: new Map(), ctor: null, base: null, tparams: (s.typeParameters ?? []).map((t) => t.name.text) };
    for (const h of s.heritageClauses ?? []) {
      if (h.token === SK.ExtendsKeyword) info.base = h.types[0].expression.getText();
      else info.implements = h.types.map((t) => t.expression.getText());
    }
    for (const m of s.members) {
      const isStatic = (ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Static) !== 0;
      if (ts.isConstructorDeclaration(m) && m.body) {
        info.ctor = m;
        for (const p of m.parameters) {
          if (ts.getCombinedModifierFlags(p) & ts.ModifierFlags.ParameterPropertyModifier) {
            info.fields.set(p.name.text, { type: p.type, init: null, param: true });
          }
        }
        this.functions.set(`${info.name}.constructor`, { node: m, cls: info, module: mod, key: `${info.name}.constructor`, ctor: true });
        continue;
      }
      const name = memberName(m);
      if (!name) continue;
      if (ts.isPropertyDeclaration(m)) {
        if (isStatic) continue;
        info.fields.set(name, { type: m.type, init: m.initializer, node: m });
      } else if (ts.isMethodDeclaration(m)) {
        if (!m.body) continue;
        const key = `${info.name}.${name}`;
        const f = { node: m, cls: info, module: mod, key, static: isStatic };
        (isStatic ? info.statics : info.methods).set(name, f);
        this.functions.set(key, f);
      } else if (ts.isGetAccessorDeclaration(m) && m.body) {
        const key = `${info.name}.get ${name}`;
        const f = { node: m, cls: info, module: mod, key, getter: true };
        info.getters.set(name, f);
        this.functions.set(key, f);
      } else if (ts.isSetAccessorDeclaration(m) && m.body) {
        const key = `${info.name}.set ${name}`;
        const f = { node: m, cls: info, module: mod, key, setter: true };
        info.setters.set(name, f);
        this.functions.set(key, f);
      }
    }
    mod.classes.set(info.name, info);
    this.classes.set(info.name, info);
    if (info.base) {
      if (!this.subclasses.has(info.base)) this.subclasses.set(info.base, []);
      this.subclasses.get(info.base).push(info.name);
    }
  }

  lookupMember(clsName, kind, name) {
    for (let c = this.classes.get(clsName); c; c = this.classes.get(c.base)) {
      if (c[kind].has(name)) return c[kind].get(name);
    }
    return undefined;
  }

  fieldDecl(clsName, name) {
    for (let c = this.classes.get(clsName); c; c = this.classes.get(c.base)) {
      if (c.fields.has(name)) return { ...c.fields.get(name), cls: c };
    }
    return undefined;
  }

  allSubclasses(name) {
    const out = [name];
    for (const s of this.subclasses.get(name) ?? []) out.push(...this.allSubclasses(s));
    return out;
  }

  memberType(name, member, seen = new Set()) {
    // Type node of a member of a class or an interface.
    if (seen.has(name)) return undefined;
    seen.add(name);
    const cls = this.classes.get(name);
    if (cls) {
      if (cls.fields.has(member)) return cls.fields.get(member).type;
      if (cls.getters.has(member)) return cls.getters.get(member).node.type;
      if (cls.methods.has(member)) return cls.methods.get(member).node;
      if (cls.base) return this.memberType(cls.base, member, seen);
      return undefined;
    }
    const itf = this.interfaces.get(name);
    if (itf) {
      const m = itf.members.get(member);
      if (m) return ts.isPropertySignature(m) ? m.type : m;
      for (const e of itf.ext) {
        const r = this.memberType(e, member, seen);
        if (r) return r;
      }
    }
    return undefined;
  }
}

export function memberName(m) {
  const n = m.name;
  if (!n) return undefined;
  if (ts.isIdentifier(n) || ts.isStringLiteral(n) || ts.isPrivateIdentifier(n)) return n.text;
  if (ts.isComputedPropertyName(n)) return `[${n.expression.getText()}]`;
  return undefined;
}

export function parseExpr(text, what = 'spec') {
  const sf = ts.createSourceFile(what + '.ts', `(${text});`, ts.ScriptTarget.Latest, true);
  if (sf.parseDiagnostics.length > 0) {
    throw new Error(`cannot parse ${what}: ${text}: ${sf.parseDiagnostics[0].messageText}`);
  }
  return sf.statements[0].expression.expression;
}
