// Statements and expressions.
import path from "node:path";
import * as S from "./smt.mjs";
import { Interp, ts, JObj, JArr, JFn, JMap, JPromise, JRegExp, JSymbol, JAny, JThrow, PathAbort, Unsupported, Cell, Scope, NORMAL, DELETED, POISON, loopCompletion, unsupported, el, parseFile, isPrim, nextBirth } from "./interp.mjs";
const K = ts.SyntaxKind;
const { T, isT } = S;
const CHAIN = { chain: true };
const P = Interp.prototype;
const loc = (n) => { const sf = n.getSourceFile(); const { line } = sf.getLineAndCharacterOfPosition(n.getStart()); return path.basename(sf.fileName) + ":" + (line + 1); };
P.loc = loc;
const bad = (n, m) => unsupported(`${m ?? "construct outside the fragment"}: ${K[n.kind]} at ${loc(n)}`);

// ------------------------------------------------------------------ modules
P.loadModule = function (file) {
  let m = this.modules.get(file); if (m) return m;
  const sf = parseFile(file);
  const sc = new Scope(null); sc.fn = null; sc.global = this.globals; sc.file = file;
  m = { file, scope: sc, exports: new Map(), star: [] }; this.modules.set(file, m);
  const I = this;
  const lazy = (name, thunk) => { const c = new Cell(undefined, thunk); c.birth = 0; sc.vars.set(name, c); return c; };
  const isExp = (n) => (ts.getCombinedModifierFlags(n) & ts.ModifierFlags.Export) !== 0 || n.modifiers?.some((x) => x.kind === K.ExportKeyword);
  const isDef = (n) => n.modifiers?.some((x) => x.kind === K.DefaultKeyword);
  for (const st of sf.statements) {
    if (ts.isImportDeclaration(st)) {
      if (st.importClause?.isTypeOnly || !st.importClause) continue;
      const spec = st.moduleSpecifier.text; const tgt = () => I.importModule(spec, file);
      const ic = st.importClause;
      if (ic.name) lazy(ic.name.text, function* () { return yield* I.exportOf(tgt(), "default"); });
      if (ic.namedBindings && ts.isNamespaceImport(ic.namedBindings)) lazy(ic.namedBindings.name.text, function* () { return I.namespaceOf(tgt()); });
      else if (ic.namedBindings) for (const e of ic.namedBindings.elements) { if (e.isTypeOnly) continue; const nm = (e.propertyName ?? e.name).text; lazy(e.name.text, function* () { return yield* I.exportOf(tgt(), nm); }); }
    } else if (ts.isExportDeclaration(st)) {
      if (st.isTypeOnly) continue;
      const spec = st.moduleSpecifier?.text;
      if (!st.exportClause) m.star.push(() => I.importModule(spec, file));
      else if (ts.isNamedExports(st.exportClause)) for (const e of st.exportClause.elements) { if (e.isTypeOnly) continue; const nm = (e.propertyName ?? e.name).text; m.exports.set(e.name.text, spec ? () => I.exportOf(I.importModule(spec, file), nm) : () => I.readCell(sc.vars.get(nm), nm)); }
      else m.exports.set(st.exportClause.name.text, function* () { return I.namespaceOf(I.importModule(spec, file)); });
    } else if (ts.isFunctionDeclaration(st)) {
      if (!st.body) continue; const nm = st.name?.text ?? "default"; lazy(nm, function* () { return I.makeFn(st, sc); });
      if (isExp(st)) m.exports.set(isDef(st) ? "default" : nm, () => I.readCell(sc.vars.get(nm), nm));
    } else if (ts.isClassDeclaration(st)) {
      const nm = st.name?.text ?? "default"; lazy(nm, function* () { return yield* I.makeClass(st, sc); });
      if (isExp(st)) m.exports.set(isDef(st) ? "default" : nm, () => I.readCell(sc.vars.get(nm), nm));
    } else if (ts.isVariableStatement(st)) {
      if (st.modifiers?.some((x) => x.kind === K.DeclareKeyword)) continue;
      for (const d of st.declarationList.declarations) {
        if (ts.isIdentifier(d.name)) { const nm = d.name.text; lazy(nm, function* () { return d.initializer ? yield* I.evNamed(d.initializer, sc, nm) : undefined; }); if (isExp(st)) m.exports.set(nm, () => I.readCell(sc.vars.get(nm), nm)); }
        else { const names = []; collectNames(d.name, names); let done = null; for (const nm of names) { lazy(nm, function* () { const tmp = new Scope(sc); yield* I.bindPattern(d.name, yield* I.ev(d.initializer, sc), tmp); return tmp.vars.get(nm).v; }); if (isExp(st)) m.exports.set(nm, () => I.readCell(sc.vars.get(nm), nm)); } }
      }
    } else if (ts.isEnumDeclaration(st)) { const nm = st.name.text; lazy(nm, function* () { return yield* I.makeEnum(st, sc); }); if (isExp(st)) m.exports.set(nm, () => I.readCell(sc.vars.get(nm), nm)); }
    else if (ts.isExportAssignment(st)) m.exports.set("default", () => I.ev(st.expression, sc));
  }
  return m;
};
const collectNames = (n, out) => { if (ts.isIdentifier(n)) out.push(n.text); else for (const e of n.elements) if (!ts.isOmittedExpression(e)) collectNames(e.name, out); };
P.importModule = function (spec, from) {
  const r = this.resolveImport(spec, from);
  if (r.native) return { native: r.native(this) };
  if (!r.file) unsupported("import of an unmodelled module " + spec);
  return this.loadModule(r.file);
};
P.exportOf = function* (m, name) {
  if (m.broken) unsupported(m.broken);
  if (m.native) { if (!(name in m.native)) unsupported("no model for export " + name); return m.native[name]; }
  const g = m.exports.get(name); if (g) return yield* g();
  for (const s of m.star) { const x = s(); if (yield* this.hasExport(x, name)) return yield* this.exportOf(x, name); }
  const c = m.scope.vars.get(name); if (c) return yield* this.readCell(c, name); // private top-level names are visible to contracts
  unsupported(`module ${m.file} has no top-level binding ${name}`);
};
P.hasExport = function* (m, name) { if (m.native) return name in m.native; if (m.exports.has(name)) return true; for (const s of m.star) if (yield* this.hasExport(s(), name)) return true; return false; };
P.namespaceOf = function (m) { const I = this; const o = new JObj(null); if (m.native) { for (const k of Object.keys(m.native)) this.rawSet(o, k, m.native[k]); return o; } for (const k of m.exports.keys()) { const f = this.fn("get " + k, function* () { return yield* I.exportOf(m, k); }); o.props.set(k, { get: f, enumerable: true }); } return o; };
P.readCell = function* (c, name) {
  if (c.lazy) {
    const th = c.lazy; if (c.busy) unsupported("cyclic top-level initialisation of " + name);
    c.busy = true; const sd = this.stack; let v; try { v = yield* th(); } finally { c.busy = false; this.stack = sd; }
    this.trail.push({ kind: "memo", birth: Infinity, undo: () => { c.lazy = th; c.v = undefined; }, cur: () => 0 }); c.lazy = null; c.v = v;
  }
  if (c.v === POISON) unsupported("reading a conditionally assigned loop variable inside the loop (" + name + ")");
  return c.v;
};

// ------------------------------------------------------------------ functions
P.makeFn = function (node, env, name) {
  const f = new JFn(this.P.Function); f.node = node; f.env = env; f.name = name ?? node.name?.text ?? ""; f.isArrow = ts.isArrowFunction(node);
  f.isAsync = !!node.modifiers?.some((x) => x.kind === K.AsyncKeyword); f.isGen = !!node.asteriskToken;
  f.proto = this.P.Function;
  if (!f.isArrow && !ts.isMethodDeclaration(node)) { const p = new JObj(this.P.Object); this.rawSet(p, "constructor", f, true); f.props.set("prototype", { value: p, enumerable: false }); }
  return f;
};
P.evNamed = function* (n, sc, name) { const v = yield* this.ev(n, sc); if (v instanceof JFn && !v.name && v.node) v.name = name; return v; };
P.fnKey = function (f) { const file = f.node.getSourceFile().fileName; return file + "#" + (f.name || "?"); };
P.call = function* (f, thisVal, args, newTarget) {
  f = this.force(f);
  if (!(f instanceof JFn)) this.throwError("TypeError", "not a function");
  if (++this.steps > this.maxSteps) unsupported("step budget exhausted");
  if (this.stack.length > 250) unsupported("call depth exceeded (unbounded recursion)");
  if (f.proxyCall) return yield* f.proxyCall(thisVal, args, newTarget);
  if (f.native) return yield* f.native.call(this, thisVal, args, this, newTarget);
  if (f.isClass && !newTarget) this.throwError("TypeError", "Class constructor cannot be invoked without 'new'");
  const key = this.fnKey(f); this.usedFns.add(key);
  const use = this.uses.get(key); if (use && !this.stack.includes(use.fn.node)) return yield* this.call(use.fn, thisVal, args);
  if (this.replacements?.has(f.node)) return yield* this.call(this.replacements.get(f.node), undefined, args);
  if (this.recursion && (this.recursion.always || this.stack.includes(f.node)) && this.recursion.applies(f)) { return yield* this.recursion.run(f, thisVal, args); }
  return yield* this.invoke(f, thisVal, args, newTarget);
};
P.invoke = function* (f, thisVal, args, newTarget) {
  const I = this, node = f.node;
  const body = function* () {
    const sc = new Scope(f.env);
    if (!f.isArrow) { sc.vars.set("this", new Cell(thisVal)); sc.vars.set("arguments", new Cell(undefined, function* () { return I.arr(args); })); sc.vars.set("new.target", new Cell(newTarget)); if (f.home) { sc.vars.set("%home", new Cell(f.home)); } }
    yield* I.bindParams(thisless(node.parameters), args, sc);
    if (!ts.isBlock(node.body)) return yield* I.ev(node.body, sc);
    const c = yield* I.block(node.body.statements, new Scope(sc));
    return c.t === "ret" ? c.v : undefined;
  };
  const st = this.stack; this.stack = [...st, node];
  if (f.isGen) { this.stack = st; return this.makeGenerator(body, [...st, node], f.isAsync); }
  if (f.isAsync) { const p = this.runAsync(body, [...st, node]); this.stack = st; return p; }
  try { return yield* body(); } finally { this.stack = st; }
};
P.bindParams = function* (params, args, sc) {
  for (let i = 0; i < params.length; i++) {
    const p = params[i]; if (ts.isIdentifier(p.name) && p.name.text === "this") continue;
    if (p.dotDotDotToken) { const rest = args.slice(i); yield* this.bindPattern(p.name, args.restArr && i === 0 ? args.restArr : this.arr(rest), sc); return; }
    let v = args[i];
    if (p.initializer) { v = v instanceof JAny ? this.force(v) : v; if (v === undefined) v = yield* this.evNamed(p.initializer, sc, ts.isIdentifier(p.name) ? p.name.text : ""); }
    yield* this.bindPattern(p.name, v, sc);
    if (p.modifiers?.some((m) => [K.PrivateKeyword, K.PublicKeyword, K.ReadonlyKeyword, K.ProtectedKeyword].includes(m.kind))) { sc.paramProps ??= []; sc.paramProps.push(p.name.text); }
  }
};
P.bindPattern = function* (n, v, sc, assign) {
  const put = function* (target, val) { if (assign) yield* this.assignTo(target, val, sc); else yield* this.bindPattern(target, val, sc); }.bind(this);
  if (ts.isIdentifier(n)) { if (assign) return yield* this.assignTo(n, v, sc); sc.vars.set(n.text, new Cell(v)); return; }
  if (ts.isObjectBindingPattern(n)) {
    v = this.force(v); if (v === undefined || v === null) this.throwError("TypeError", "Cannot destructure " + v);
    const used = [];
    for (const e of n.elements) {
      if (e.dotDotDotToken) { yield* put(e.name, yield* this.restObject(v, used)); continue; }
      const key = e.propertyName ? yield* this.propName(e.propertyName, sc) : e.name.text; used.push(key);
      let x = yield* this.get(v, key); if (e.initializer) { x = this.force(x); if (x === undefined) x = yield* this.evNamed(e.initializer, sc, ts.isIdentifier(e.name) ? e.name.text : ""); }
      yield* put(e.name, x);
    }
    return;
  }
  if (ts.isArrayBindingPattern(n)) return yield* this.bindArray(n.elements.map((e) => ts.isOmittedExpression(e) ? null : { rest: !!e.dotDotDotToken, target: e.name, init: e.initializer }), v, sc, put);
  bad(n);
};
P.bindArray = function* (elems, v, sc, put) {
  const a = new JArr(this.P.Array, yield* this.iterSegs(v));
  for (let i = 0; i < elems.length; i++) {
    const e = elems[i]; if (!e) continue;
    if (e.rest) { yield* put(e.target, yield* this.arrSlice(a, i)); return; }
    const r = yield* this.arrAt(a, i); let x = r.found ? r.v : undefined;
    if (e.init) { x = this.force(x); if (x === undefined) x = yield* this.ev(e.init, sc); }
    yield* put(e.target, x);
  }
};
P.restObject = function* (v, used) {
  const o = new JObj(this.P.Object); yield* this.copyProps(o, v);
  for (const k of used) yield* this.del(o, k);
  return o;
};
P.copyProps = function* (o, src) {
  src = this.force(src); if (src === undefined || src === null) return o;
  if (!(src instanceof JObj)) { if (typeof src === "string") for (let i = 0; i < src.length; i++) yield* this.set(o, String(i), src[i]); return o; }
  if (src.layers) { this.makeLayered(o); const m = [...o.layers, ...src.layers]; this.setField(o, "layers", m); return o; }
  if (src instanceof JArr) { let i = 0; for (const s of src.segs) { if (s.k !== "el") unsupported("spread of symbolic array into an object"); yield* this.set(o, String(i++), s.v); } return o; }
  for (const [k, d] of [...src.props]) { if (!d.enumerable) continue; const val = d.get !== undefined ? (d.get ? yield* this.call(d.get, src, []) : undefined) : d.value; if (o.layers) this.layerSet(o, k, val); else this.setProp(o, k, { value: val, enumerable: true }); }
  return o;
};
// assignment target
P.assignTo = function* (n, v, sc) {
  n = strip(n);
  if (ts.isIdentifier(n)) { const c = this.lookup(sc, n.text); if (!c) { const g = this.globals.get(n.text); if (!g) this.throwError("ReferenceError", n.text + " is not defined"); this.setCell(g, v); return; } this.setCell(c, v); return; }
  if (ts.isPropertyAccessExpression(n)) { if (n.expression.kind === K.SuperKeyword) bad(n); return yield* this.set(yield* this.ev(n.expression, sc), n.name.text, v); }
  if (ts.isElementAccessExpression(n)) { const o = yield* this.ev(n.expression, sc); return yield* this.set(o, yield* this.toKey(yield* this.ev(n.argumentExpression, sc)), v); }
  if (ts.isArrayLiteralExpression(n)) { const self = this; return yield* this.bindArray(n.elements.map((e) => ts.isOmittedExpression(e) ? null : ts.isSpreadElement(e) ? { rest: true, target: e.expression } : ts.isBinaryExpression(e) ? { target: e.left, init: e.right } : { target: e }), v, sc, function* (t, x) { yield* self.assignTo(t, x, sc); }); }
  if (ts.isObjectLiteralExpression(n)) {
    const used = [];
    for (const p of n.properties) {
      if (ts.isShorthandPropertyAssignment(p)) { used.push(p.name.text); let x = yield* this.get(v, p.name.text); if (p.objectAssignmentInitializer && this.force(x) === undefined) x = yield* this.ev(p.objectAssignmentInitializer, sc); yield* this.assignTo(p.name, x, sc); }
      else if (ts.isPropertyAssignment(p)) { const k = yield* this.propName(p.name, sc); used.push(k); let x = yield* this.get(v, k), t = p.initializer; if (ts.isBinaryExpression(t)) { if (this.force(x) === undefined) x = yield* this.ev(t.right, sc); t = t.left; } yield* this.assignTo(t, x, sc); }
      else if (ts.isSpreadAssignment(p)) yield* this.assignTo(p.expression, yield* this.restObject(this.force(v), used), sc);
      else bad(p);
    }
    return;
  }
  bad(n, "assignment target");
};
const strip = (n) => { while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || ts.isTypeAssertionExpression?.(n) || ts.isSatisfiesExpression?.(n)) n = n.expression; return n; };
P.lookup = function (sc, name) { for (let s = sc; s; s = s.parent) { const c = s.vars.get(name); if (c) return c; if (!s.parent && s.global) return null; } return null; };
P.ident = function* (name, sc) {
  const c = this.lookup(sc, name); if (c) return yield* this.readCell(c, name);
  const g = this.globals.get(name); if (g) return yield* this.readCell(g, name);
  return undefined === name ? undefined : MISSING;
};
const MISSING = { missing: true };

// ------------------------------------------------------------------ statements
P.block = function* (stmts, sc) {
  for (const s of stmts) if (ts.isFunctionDeclaration(s) && s.body) sc.vars.set(s.name.text, new Cell(this.makeFn(s, sc)));
  for (const s of stmts) { const c = yield* this.stmt(s, sc); if (c.t !== "n") return c; }
  return NORMAL;
};
P.stmt = function* (n, sc) {
  if (++this.steps > this.maxSteps) unsupported("step budget exhausted");
  switch (n.kind) {
    case K.ExpressionStatement: yield* this.ev(n.expression, sc); return NORMAL;
    case K.VariableStatement:
      for (const d of n.declarationList.declarations) { const nm = ts.isIdentifier(d.name) ? d.name.text : ""; const v = d.initializer ? yield* this.evNamed(d.initializer, sc, nm) : undefined; yield* this.bindPattern(d.name, v, sc); }
      return NORMAL;
    case K.ReturnStatement: return { t: "ret", v: n.expression ? yield* this.ev(n.expression, sc) : undefined };
    case K.IfStatement: {
      if (this.test(yield* this.ev(n.expression, sc))) return yield* this.stmt(n.thenStatement, sc);
      return n.elseStatement ? yield* this.stmt(n.elseStatement, sc) : NORMAL;
    }
    case K.Block: return yield* this.block(n.statements, new Scope(sc));
    case K.ThrowStatement: throw new JThrow(yield* this.ev(n.expression, sc));
    case K.TryStatement: return yield* this.tryStmt(n, sc);
    case K.ForOfStatement: return yield* this.forOf(n, sc);
    case K.ForStatement: return yield* this.forStmt(n, sc);
    case K.WhileStatement: return yield* this.whileStmt(n, sc);
    case K.DoStatement: {
      for (let i = 0; ; i++) { this.checkUnroll(n, i); const c = yield* this.stmt(n.statement, new Scope(sc)); const r = loopCompletion(c); if (r) { if (r === "break") return NORMAL; return r; } if (!this.test(yield* this.ev(n.expression, sc))) return NORMAL; }
    }
    case K.ForInStatement: {
      const o = this.force(yield* this.ev(n.expression, sc)); if (o === null || o === undefined) return NORMAL;
      const segs = (yield* this.entrySegs(o)).map((s) => (s.k === "el" ? el(s.v.segs[0].v) : this.mapSeg(s, (p) => [p.segs[0].v], true)));
      return yield* this.loopOver(n, segs, sc);
    }
    case K.BreakStatement: return { t: "brk", label: n.label?.text };
    case K.ContinueStatement: return { t: "cont", label: n.label?.text };
    case K.LabeledStatement: { const c = yield* this.stmt(n.statement, sc); if ((c.t === "brk") && c.label === n.label.text) return NORMAL; if (c.t === "cont" && c.label === n.label.text) bad(n, "labelled continue"); return c; }
    case K.SwitchStatement: {
      const v = yield* this.ev(n.expression, sc); const s2 = new Scope(sc); const cl = n.caseBlock.clauses; let start = -1;
      for (let i = 0; i < cl.length && start < 0; i++) if (ts.isCaseClause(cl[i]) && this.branch(this.lift(this.strictEq(v, yield* this.ev(cl[i].expression, s2))))) start = i;
      if (start < 0) start = cl.findIndex((c) => ts.isDefaultClause(c));
      if (start < 0) return NORMAL;
      for (let i = start; i < cl.length; i++) { const c = yield* this.block(cl[i].statements, s2); if (c.t === "brk" && !c.label) return NORMAL; if (c.t !== "n") return c; }
      return NORMAL;
    }
    case K.FunctionDeclaration: if (n.body && !sc.vars.has(n.name.text)) sc.vars.set(n.name.text, new Cell(this.makeFn(n, sc))); return NORMAL;
    case K.ClassDeclaration: sc.vars.set(n.name.text, new Cell(yield* this.makeClass(n, sc))); return NORMAL;
    case K.EmptyStatement: case K.InterfaceDeclaration: case K.TypeAliasDeclaration: case K.DebuggerStatement: return NORMAL;
    case K.EnumDeclaration: sc.vars.set(n.name.text, new Cell(yield* this.makeEnum(n, sc))); return NORMAL;
  }
  bad(n);
};
P.tryStmt = function* (n, sc) {
  let c, thrown = null;
  try { c = yield* this.stmt(n.tryBlock, sc); }
  catch (e) { if (!(e instanceof JThrow)) throw e; thrown = e; }
  if (thrown && n.catchClause) {
    const e = thrown; thrown = null;
    try { const s2 = new Scope(sc); if (n.catchClause.variableDeclaration) yield* this.bindPattern(n.catchClause.variableDeclaration.name, e.value, s2); c = yield* this.block(n.catchClause.block.statements, s2); }
    catch (e2) { if (!(e2 instanceof JThrow)) throw e2; thrown = e2; }
  }
  if (n.finallyBlock) { const f = yield* this.stmt(n.finallyBlock, sc); if (f.t !== "n") return f; }
  if (thrown) throw thrown;
  return c;
};
P.checkUnroll = function (n, i, known) { if (i > (known ? 5000 : this.unroll ?? 40)) unsupported(`loop at ${loc(n)} needs an invariant (unrolled ${i} times)`); };
P.forOf = function* (n, sc) {
  const it = yield* this.ev(n.expression, sc);
  if (n.awaitModifier) {
    const v = this.force(it); let segs;
    const am = v instanceof JObj ? yield* this.get(v, this.symbols.asyncIterator) : undefined;
    if (am instanceof JFn) { const iter = yield* this.call(am, v, []); const nx = yield* this.get(iter, "next"); for (let i = 0; ; i++) { this.checkUnroll(n, i); const r = yield* this.awaitV(yield* this.call(nx, iter, [])); if (this.test(yield* this.get(r, "done"))) return NORMAL; const s2 = new Scope(sc); yield* this.bindLoopVar(n, yield* this.get(r, "value"), s2); const c = loopCompletion(yield* this.stmt(n.statement, s2)); if (c) return c === "break" ? NORMAL : c; } }
    segs = yield* this.iterSegs(v); const self = this;
    return yield* this.loopSegs(segs, function* (x) { const y = yield* self.awaitV(x); const s2 = new Scope(sc); yield* self.bindLoopVar(n, y, s2); return yield* self.stmt(n.statement, s2); });
  }
  return yield* this.loopOver(n, yield* this.iterSegs(it), sc);
};
P.bindLoopVar = function* (n, v, s2) { if (ts.isVariableDeclarationList(n.initializer)) yield* this.bindPattern(n.initializer.declarations[0].name, v, s2); else yield* this.assignTo(n.initializer, v, s2); };
P.loopOver = function* (n, segs, sc) {
  const self = this;
  return yield* this.loopSegs(segs, function* (v) { const s2 = new Scope(sc); yield* self.bindLoopVar(n, v, s2); return yield* self.stmt(n.statement, s2); });
};
// canonical counting loops:  for (let i = a; i < N; i++)
P.forStmt = function* (n, sc) {
  const s1 = new Scope(sc);
  if (n.initializer) { if (ts.isVariableDeclarationList(n.initializer)) for (const d of n.initializer.declarations) yield* this.bindPattern(d.name, d.initializer ? yield* this.ev(d.initializer, s1) : undefined, s1); else yield* this.ev(n.initializer, s1); }
  const names = n.initializer && ts.isVariableDeclarationList(n.initializer) ? n.initializer.declarations.flatMap((d) => { const o = []; collectNames(d.name, o); return o; }) : [];
  let cur = s1;
  const ix = yield* this.indexedLoop(n, n.condition, n.incrementor, n.statement, s1, sc, names); if (ix) return ix.c;
  const p0 = this.pos; // iterations that decide nothing symbolic need no invariant
  for (let i = 0; ; i++) {
    let known = false;
    if (n.condition) {
      const cv = this.truthy(yield* this.ev(n.condition, cur)); known = !isT(cv) && this.pos === p0;
      if (isT(cv) && this.needsSummary(cv) && !(this.pos < this.dec.length && false)) {
        const r = yield* this.summariseCounting(n, n.condition, cur, function* (s) { const c = loopCompletion(yield* this.stmt(n.statement, s)); if (c) return c; if (n.incrementor) yield* this.ev(n.incrementor, s); return null; }.bind(this));
        if (r) return r.c;
      }
      if (!this.branch(this.lift(cv))) return NORMAL;
    }
    this.checkUnroll(n, i, known);
    const it = new Scope(cur.parent === sc ? sc : sc); for (const nm of names) it.vars.set(nm, new Cell(cur.vars.get(nm).v));
    const c = loopCompletion(yield* this.stmt(n.statement, it)); if (c) return c === "break" ? NORMAL : c;
    const nx = new Scope(sc); for (const nm of names) nx.vars.set(nm, new Cell(it.vars.get(nm).v)); cur = names.length ? nx : s1;
    if (n.incrementor) yield* this.ev(n.incrementor, cur);
  }
};
// for (let i = 0; i < xs.length; i++) … xs[i] …  with a list of unknown length that the body leaves alone is a loop over that list
const stepOf = (e) => { // the variable that e counts up by one
  e = e && strip(e); if (!e) return null;
  if ((ts.isPostfixUnaryExpression(e) || ts.isPrefixUnaryExpression(e)) && e.operator === K.PlusPlusToken && ts.isIdentifier(e.operand)) return e.operand.text;
  if (ts.isBinaryExpression(e) && ts.isIdentifier(e.left)) {
    const one = (x) => ts.isNumericLiteral(x) && x.text === "1";
    if (e.operatorToken.kind === K.PlusEqualsToken && one(strip(e.right))) return e.left.text;
    const r = strip(e.right); if (e.operatorToken.kind === K.EqualsToken && ts.isBinaryExpression(r) && r.operatorToken.kind === K.PlusToken) { const a = strip(r.left), b = strip(r.right); if (ts.isIdentifier(a) && a.text === e.left.text && one(b) || ts.isIdentifier(b) && b.text === e.left.text && one(a)) return e.left.text; }
  }
  return null;
};
const hasContinue = (n) => { let c = false; const go = (m) => { if (m.kind === K.ContinueStatement) c = true; if (!c) ts.forEachChild(m, go); }; go(n); return c; };
const eachOf = (n, f) => (n.vfOf ? n.statements.forEach(f) : f(n));
const writesTo = (n, name) => { let w = false; const go = (m) => { if (w) return; if (ts.isBinaryExpression(m) && m.operatorToken.kind >= K.FirstAssignment && m.operatorToken.kind <= K.LastAssignment) { const l = strip(m.left); if (ts.isIdentifier(l) ? l.text === name : !ts.isElementAccessExpression(l) && !ts.isPropertyAccessExpression(l) && l.getText().includes(name)) w = true; } else if ((ts.isPostfixUnaryExpression(m) || ts.isPrefixUnaryExpression(m)) && (m.operator === K.PlusPlusToken || m.operator === K.MinusMinusToken) && ts.isIdentifier(m.operand) && m.operand.text === name) w = true; ts.forEachChild(m, go); }; eachOf(n, go); return w; };
P.indexedLoop = function* (n, cond, inc, body, s1, sc, names) { // names: null when the counter lives outside the loop
  const i = stepOf(inc); if (!i || !cond || (names && !names.includes(i))) return null;
  const cell = names ? s1.vars.get(i) : this.lookup(s1, i); if (!cell || cell.v !== 0) return null;
  let e = strip(cond); if (!ts.isBinaryExpression(e)) return null;
  let k = e.operatorToken.kind, l = strip(e.left), r = strip(e.right);
  if (k === K.GreaterThanToken) { [l, r] = [r, l]; k = K.LessThanToken; }
  if ((k !== K.LessThanToken && k !== K.ExclamationEqualsEqualsToken) || !ts.isIdentifier(l) || l.text !== i || writesTo(body, i)) return null;
  const used = new Map(); let other = false; // the lists that the body reads at i
  const go = (m) => { if (ts.isElementAccessExpression(m) && ts.isIdentifier(strip(m.expression)) && m.argumentExpression && ts.isIdentifier(strip(m.argumentExpression)) && strip(m.argumentExpression).text === i) { const x = strip(m.expression).text; if (!used.has(x)) used.set(x, m); if (ts.isBinaryExpression(m.parent) && m.parent.left === m && m.parent.operatorToken.kind >= K.FirstAssignment && m.parent.operatorToken.kind <= K.LastAssignment || ts.isDeleteExpression(m.parent)) other = true; } ts.forEachChild(m, go); };
  eachOf(body, go); if (other || used.size === 0) return null;
  let pure = r; while (ts.isPropertyAccessExpression(pure)) pure = strip(pure.expression); if (!ts.isIdentifier(pure) && pure.kind !== K.ThisKeyword) return null;
  const lim = yield* this.ev(r, s1); if (!isT(lim)) return null;
  let arr = null; for (const x of used.keys()) { if (writesTo(body, x)) continue; const c = this.lookup(s1, x); if (!c) continue; const v = c.v; const a = v instanceof JArr || v instanceof JAny ? this.force(v) : null; if (a instanceof JArr && a.segs.some((g) => g.k !== "el") && this.arrLen(a) === lim) { arr = a; break; } }
  if (!arr) return null;
  const I = this, segs0 = arr.segs;
  const c = yield* this.loopSegs(segs0, function* (v, off, at) {
    const it = new Scope(sc); for (const nm of names ?? []) it.vars.set(nm, new Cell(s1.vars.get(nm).v));
    if (!names) it.vars.set(i, new Cell(0));
    const pos = off !== null ? I.lower(off) : I.lower(S.uf("position@" + loc(n), "Int", [at])); it.vars.get(i).v = pos; // where a filtered list's element stands is not known
    const cur = { a: arr, segs: segs0, i: pos, v }; (I.cursors ??= []).push(cur);
    try { let r; try { r = yield* I.stmt(body, it); } catch (e) { if (!names && e instanceof JThrow) I.setCell(cell, pos); throw e; } if (!names && loopCompletion(r)) I.setCell(cell, pos); if (arr.segs !== segs0) unsupported("a list changes while it is walked by index at " + loc(n)); return r; } finally { I.cursors.splice(I.cursors.lastIndexOf(cur), 1); }
  });
  if (!names && cell.v === 0) this.setCell(cell, lim); // walked to its end
  return { c };
};
P.whileStmt = function* (n, sc) {
  const inv = this.invariantFor?.(n); if (inv) return yield* this.invariantLoop(n, sc, inv);
  const all = ts.isBlock(n.statement) ? n.statement.statements : null, last = all?.at(-1);
  if (last && ts.isExpressionStatement(last) && stepOf(last.expression) && !hasContinue(n.statement)) {
    const body = (n.vfBody ??= { kind: K.Block, statements: all.slice(0, -1), parent: n, vfOf: n });
    const ix = yield* this.indexedLoop(n, n.expression, last.expression, body, sc, sc, null); if (ix) return ix.c;
  }
  const p0 = this.pos;
  for (let i = 0; ; i++) {
    const cv = this.truthy(yield* this.ev(n.expression, sc));
    if (isT(cv) && this.needsSummary(cv)) {
      const r = yield* this.summariseCounting(n, n.expression, sc, function* (s) { return loopCompletion(yield* this.stmt(n.statement, new Scope(s))); }.bind(this));
      if (r) return r.c;
    }
    if (!this.branch(this.lift(cv))) return NORMAL;
    this.checkUnroll(n, i, !isT(cv) && this.pos === p0);
    const c = loopCompletion(yield* this.stmt(n.statement, new Scope(sc))); if (c) return c === "break" ? NORMAL : c;
  }
};
// is the condition's truth undetermined, i.e. does the trip count depend on symbolic data?
P.needsSummary = function (c) { return this.entailed(c) === null || !S.isConst(c); };
// Loops of the form  while (v < N) { ...; v += 1 }  become a summarised loop over 0 .. N - v0.
P.summariseCounting = function* (n, cond, sc, step) {
  let e = strip(cond), extra = null;
  if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.AmpersandAmpersandToken) return null;
  if (!ts.isBinaryExpression(e)) return null;
  let k = e.operatorToken.kind, l = strip(e.left), r = strip(e.right);
  if (k === K.GreaterThanToken || k === K.GreaterThanEqualsToken) { [l, r] = [r, l]; k = k === K.GreaterThanToken ? K.LessThanToken : K.LessThanEqualsToken; }
  if (![K.LessThanToken, K.LessThanEqualsToken, K.ExclamationEqualsEqualsToken].includes(k) || !ts.isIdentifier(l)) return null;
  const cell = this.lookup(sc, l.text); if (!cell) return null;
  const v0 = cell.v; if (!this.isNum(v0)) return null;
  const lim = yield* this.ev(r, sc); if (!this.isNum(lim) || (typeof lim === "number" && !Number.isFinite(lim))) return null;
  const v0t = this.lift(v0), limt = this.lift(lim); if (v0t.sort !== "Int" || limt.sort !== "Int") return null;
  let len = S.sub(limt, v0t); if (k === K.LessThanEqualsToken) len = S.add(len, S.int(1));
  if (S.isConst(len)) return null;
  if (!this.branch(S.gt(len, S.int(0)))) { if (k === K.ExclamationEqualsEqualsToken && !this.branch(S.eq(len, S.int(0)))) return null; return null; }
  const I = this; const b = this.newBase("range@" + loc(n), len, (i) => S.add(v0t, i));
  const onceAt = function* (i) {
    const cv = I.truthy(yield* I.ev(cond, sc));
    if (!I.discovering) { if (I.entailed(cv) !== true) unsupported("loop bound changes during the loop at " + loc(n)); }
    else if (!I.branch(I.lift(cv))) throw new PathAbort();
    const c = yield* step(sc); return { exit: c };
  };
  const c = yield* this.inductiveLoop(b, onceAt);
  if (c) return { c: c === "break" ? NORMAL : c };
  const after = this.truthy(yield* this.ev(cond, sc)); if (this.entailed(after) !== false) unsupported("summarised loop does not terminate at its bound: " + loc(n));
  return { c: NORMAL };
};

// ------------------------------------------------------------------ classes
P.makeEnum = function* (n, sc) { const o = new JObj(this.P.Object); let next = 0; for (const m of n.members) { const k = m.name.text; let v = next; if (m.initializer) v = yield* this.ev(m.initializer, sc); if (typeof v === "number") { next = v + 1; this.rawSet(o, String(v), k); } this.rawSet(o, k, v); } return o; };
P.makeClass = function* (n, sc) {
  const I = this; let parent = null;
  const ext = n.heritageClauses?.find((h) => h.token === K.ExtendsKeyword);
  if (ext) parent = this.force(yield* this.ev(ext.types[0].expression, sc));
  const C = new JFn(parent ?? this.P.Function); C.isClass = true; C.name = n.name?.text ?? ""; C.node = n; C.parentClass = parent; C.birth = 0;
  const proto = new JObj(parent ? (yield* this.get(parent, "prototype")) : this.P.Object); proto.birth = 0;
  this.rawSet(proto, "constructor", C, true); C.props.set("prototype", { value: proto, enumerable: false });
  const csc = new Scope(sc); if (n.name) csc.vars.set(n.name.text, new Cell(C));
  C.ctorNode = null; C.fieldNodes = []; C.env = csc; C.homeProto = proto;
  const statics = [];
  for (const m of n.members) {
    const isStatic = m.modifiers?.some((x) => x.kind === K.StaticKeyword); const tgt = isStatic ? C : proto;
    if (ts.isConstructorDeclaration(m)) { if (m.body) C.ctorNode = m; }
    else if (ts.isMethodDeclaration(m)) { if (!m.body) continue; const key = yield* this.propName(m.name, csc); const f = this.makeFn(m, csc, typeof key === "string" ? key : ""); f.home = tgt; f.birth = 0; tgt.props.set(key, { value: f, enumerable: false }); }
    else if (ts.isGetAccessorDeclaration(m) || ts.isSetAccessorDeclaration(m)) { const key = yield* this.propName(m.name, csc); const f = this.makeFn(m, csc, key); f.home = tgt; f.birth = 0; const d = tgt.props.get(key) ?? { get: null, set: null, enumerable: false }; tgt.props.set(key, { ...d, [ts.isGetAccessorDeclaration(m) ? "get" : "set"]: f }); }
    else if (ts.isPropertyDeclaration(m)) { if (m.modifiers?.some((x) => x.kind === K.DeclareKeyword)) continue; if (isStatic) statics.push(m); else C.fieldNodes.push(m); }
    else if (ts.isIndexSignatureDeclaration(m) || ts.isSemicolonClassElement(m)) { }
    else bad(m);
  }
  for (const m of statics) { const s2 = new Scope(csc); s2.vars.set("this", new Cell(C)); const key = yield* this.propName(m.name, csc); C.props.set(key, { value: m.initializer ? yield* this.evNamed(m.initializer, s2, key) : undefined, enumerable: true }); }
  return C;
};
P.initFields = function* (C, obj) { for (const m of C.fieldNodes) { const s2 = new Scope(C.env); s2.vars.set("this", new Cell(obj)); s2.vars.set("%home", new Cell(C.homeProto)); const key = yield* this.propName(m.name, s2); const v = m.initializer ? yield* this.evNamed(m.initializer, s2, typeof key === "string" ? key : "") : undefined; this.setProp(obj, key, { value: v, enumerable: typeof key === "string" && !key.startsWith("#") }); } };
P.construct = function* (F, args, newTarget) {
  F = this.force(F); if (!(F instanceof JFn)) this.throwError("TypeError", "not a constructor");
  newTarget = newTarget ?? F;
  if (F.native) { const o = yield* F.native.call(this, undefined, args, this, newTarget); if (newTarget !== F && o instanceof JArr && o.proto === this.P.Array) o.proto = yield* this.get(newTarget, "prototype"); return o; }
  if (!F.isClass) { const o = new JObj(yield* this.get(newTarget, "prototype")); const r = yield* this.invoke(F, o, args, newTarget); return r instanceof JObj ? r : o; }
  if (++this.steps > this.maxSteps) unsupported("step budget exhausted");
  const file = F.node.getSourceFile().fileName; if (F.ctorNode) this.usedFns.add(file + "#" + F.name + ".constructor");
  const runCtor = function* (self, thisCell) {
    const sc = new Scope(F.env); sc.vars.set("this", thisCell); sc.vars.set("new.target", new Cell(newTarget)); sc.vars.set("%home", new Cell(F.homeProto)); sc.vars.set("%ctor", new Cell({ F, newTarget, thisCell }));
    yield* self.bindParams(F.ctorNode.parameters, args, sc);
    if (sc.paramProps && !F.parentClass) for (const p of sc.paramProps) self.setProp(thisCell.v, p, { value: sc.vars.get(p).v, enumerable: true });
    sc.pendingParamProps = sc.paramProps;
    const c = yield* self.block(F.ctorNode.body.statements, new Scope(sc));
    if (sc.paramProps && F.parentClass) for (const p of sc.paramProps) self.setProp(thisCell.v, p, { value: sc.vars.get(p).v, enumerable: true });
    return c;
  };
  if (!F.parentClass) {
    const o = new JObj(yield* this.get(newTarget, "prototype")); o.cls = newTarget.name;
    yield* this.initFields(F, o);
    if (F.ctorNode) { const c = yield* runCtor(this, new Cell(o)); if (c.t === "ret" && c.v instanceof JObj) return c.v; }
    return o;
  }
  if (!F.ctorNode) { const o = yield* this.construct(F.parentClass, args, newTarget); yield* this.initFields(F, o); return o; }
  const cell = new Cell(undefined); const c = yield* runCtor(this, cell); if (c.t === "ret" && c.v instanceof JObj) return c.v; return cell.v;
};
P.propName = function* (n, sc) {
  if (ts.isIdentifier(n) || ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return n.text;
  if (ts.isPrivateIdentifier(n)) return n.text;
  if (ts.isNumericLiteral(n)) return String(Number(n.text));
  if (ts.isComputedPropertyName(n)) return yield* this.toKey(yield* this.ev(n.expression, sc));
  bad(n);
};

// ------------------------------------------------------------------ async
P.awaitV = function* (v) {
  if (v instanceof JAny) v = this.force(v);
  let p = v;
  if (!(v instanceof JPromise)) { if (v instanceof JObj && !(v instanceof JArr)) { const th = yield* this.get(v, "then"); if (th instanceof JFn) { p = this.newPromise(); yield* this.resolveWith(p, v); } else p = null; } else p = null; }
  if (this.subDepth > 0) {
    if (!p) return v;
    for (let i = 0; p.state === "pending"; i++) { if (this.micro.length && i < 1000) this.micro.shift()(); else unsupported("await of a pending promise inside a summarised loop"); }
    if (p.state === "fulfilled") return p.value; throw new JThrow(p.value);
  }
  const st = this.stack; const r = yield { await: p ?? this.resolved(v) }; this.stack = st;
  if (r.ok) return r.v; throw new JThrow(r.v);
};
P.newPromise = function () { return new JPromise(this.P.Promise); };
P.resolved = function (v) { const p = this.newPromise(); p.state = "fulfilled"; p.value = v; return p; };
P.rejectedP = function (v) { const p = this.newPromise(); p.state = "rejected"; p.value = v; this.setField(this, "rejections", [...this.rejections, p]); return p; };
P.settle = function (p, ok, v) { if (p.state !== "pending") return; this.setField(p, "state", ok ? "fulfilled" : "rejected"); this.setField(p, "value", v); const hs = p.handlers; if (!ok && hs.length === 0) this.setField(this, "rejections", [...this.rejections, p]); this.setField(p, "handlers", []); for (const h of hs) this.micro.push(() => h(ok, v)); };
P.bindAls = function (h) { const I = this, c = this.als; return (...a) => { const s = I.als; I.als = c; try { return h(...a); } finally { I.als = s; } }; };
P.onSettle = function (p, h) { h = this.bindAls(h); if (!p.handled) this.setField(p, "handled", true); if (p.state === "pending") this.setField(p, "handlers", [...p.handlers, h]); else this.micro.push(() => h(p.state === "fulfilled", p.value)); };
P.resolveWith = function* (p, v) {
  if (v instanceof JAny) v = this.force(v);
  if (v instanceof JPromise) { this.onSettle(v, (ok, x) => this.settle(p, ok, x)); return; }
  if (v instanceof JObj && !(v instanceof JArr)) { let th; try { th = yield* this.get(v, "then"); } catch (e) { if (!(e instanceof JThrow)) throw e; this.settle(p, false, e.value); return; } if (th instanceof JFn) { const I = this; this.micro.push(this.bindAls(() => I.runSync(function* () { try { yield* I.call(th, v, [I.fn("resolve", function* (_t, [x]) { yield* I.resolveWith(p, x); }), I.fn("reject", function* (_t, [x]) { I.settle(p, false, x); })]); } catch (e) { if (!(e instanceof JThrow)) throw e; I.settle(p, false, e.value); } }))); return; } }
  this.settle(p, true, v);
};
P.runAsync = function (body, stack) {
  const I = this, p = this.newPromise(); let g;
  const step = (r) => {
    const saved = I.stack; I.stack = stack;
    let x;
    try { x = r === null ? g.next() : g.next(r); }
    catch (e) { if (!(e instanceof JThrow)) throw e; I.settle(p, false, e.value); return; }
    finally { stack = I.stack; I.stack = saved; }
    if (x.done) { I.runSync(function* () { yield* I.resolveWith(p, x.value); }); return; }
    if (x.value?.await) I.onSettle(x.value.await, (ok, v) => step({ ok, v }));
    else unsupported("unexpected suspension");
  };
  g = body(); step(null); return p;
};
P.runSync = function (gf) { const g = typeof gf === "function" ? gf() : gf; const r = g.next(); if (!r.done) unsupported("suspension in synchronous code"); return r.value; };
P.makeGenerator = function (body, stack, isAsync) {
  const I = this; if (isAsync) unsupported("async generator");
  const g = body(); const it = new JObj(this.P.Object); let done = false;
  const step = function* (mode, v) { if (done) return I.obj({ value: undefined, done: true }); const st = I.stack; I.stack = stack; let r; try { r = mode === "throw" ? g.throw(new JThrow(v)) : g.next({ ok: true, v }); while (!r.done && r.value?.await) { const a = yield r.value; r = g.next(a); } } finally { I.stack = st; } if (r.done) { done = true; return I.obj({ value: r.value, done: true }); } return I.obj({ value: r.value.yield, done: false }); };
  this.rawSet(it, "next", this.fn("next", function* (_t, [v]) { return yield* step("next", v); }), true);
  this.rawSet(it, "return", this.fn("return", function* (_t, [v]) { done = true; return I.obj({ value: v, done: true }); }), true);
  it.props.set(this.symbols.iterator, { value: this.fn("iter", function* () { return it; }), enumerable: false });
  return it;
};
// run until `p` settles: microtasks first, then timers in time order
P.runLoop = function (p) {
  for (let n = 0; p.state === "pending"; n++) {
    if (n > 20000) unsupported("event loop budget exhausted");
    if (this.micro.length) { this.micro.shift()(); continue; }
    const live = this.timers.filter((t) => !t.dead); if (live.length === 0) return false;
    let best = live[0]; for (const t of live.slice(1)) if (this.branch(this.lift(this.lower(S.lt(t.at, best.at))))) best = t;
    this.fireTimer(best);
  }
  return true;
};
P.fireTimer = function (t) { const I = this; this.setField(t, "dead", true); this.setField(this, "now", S.isConst(t.at) ? t.at : t.at); if (t.every) { this.addTimer(t.f, t.args, t.every, true, t.id); } const s = this.als; this.als = t.als; try { this.runSync(function* () { yield* I.call(t.f, undefined, t.args); }); } finally { this.als = s; } };
P.addTimer = function (f, args, delay, repeat, id) { const t = { f, args, at: S.add(this.lift(this.now), delay), dead: false, id: id ?? this.timerSeq++, every: repeat ? delay : null, delay, als: this.als, birth: Infinity }; this.setField(this, "timers", [...this.timers, t]); return t; };

// ------------------------------------------------------------------ expressions
P.ev = function* (n, sc) {
  switch (n.kind) {
    case K.ParenthesizedExpression: case K.AsExpression: case K.NonNullExpression: case K.TypeAssertionExpression: case K.SatisfiesExpression: case K.PartiallyEmittedExpression: return yield* this.ev(n.expression, sc);
    case K.ExpressionWithTypeArguments: return yield* this.ev(n.expression, sc);
    case K.Identifier: { if (n.text === "undefined") return undefined; const v = yield* this.ident(n.text, sc); if (v === MISSING) { if (this.strictGlobals) unsupported("unknown global " + n.text); this.throwError("ReferenceError", n.text + " is not defined"); } return v; }
    case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return n.text;
    case K.NumericLiteral: return Number(n.text.replace(/_/g, ""));
    case K.BigIntLiteral: return BigInt(n.text.replace(/_/g, "").slice(0, -1));
    case K.TrueKeyword: return true; case K.FalseKeyword: return false; case K.NullKeyword: return null;
    case K.ThisKeyword: { const c = this.lookup(sc, "this"); return c ? c.v : undefined; }
    case K.RegularExpressionLiteral: { const j = n.text.lastIndexOf("/"); return this.newRegExp(n.text.slice(1, j), n.text.slice(j + 1)); }
    case K.TemplateExpression: { let t = n.head.text; let parts = [t]; for (const s of n.templateSpans) { parts.push(yield* this.toStr(yield* this.ev(s.expression, sc))); parts.push(s.literal.text); } return this.cat(...parts); }
    case K.TaggedTemplateExpression: { const f = yield* this.ev(n.tag, sc); const strs = [], vals = []; if (ts.isNoSubstitutionTemplateLiteral(n.template)) strs.push(n.template.text); else { strs.push(n.template.head.text); for (const s of n.template.templateSpans) { vals.push(yield* this.ev(s.expression, sc)); strs.push(s.literal.text); } } return yield* this.call(f, undefined, [this.arr(strs), ...vals]); }
    case K.ArrayLiteralExpression: { let segs = []; for (const e of n.elements) { if (ts.isSpreadElement(e)) segs.push(...(yield* this.iterSegs(yield* this.ev(e.expression, sc)))); else if (ts.isOmittedExpression(e)) segs.push(el(undefined)); else segs.push(el(yield* this.ev(e, sc))); } return new JArr(this.P.Array, segs); }
    case K.ObjectLiteralExpression: return yield* this.objectLit(n, sc);
    case K.ArrowFunction: case K.FunctionExpression: { const f = this.makeFn(n, sc); if (n.kind === K.FunctionExpression && n.name) { const s2 = new Scope(sc); s2.vars.set(n.name.text, new Cell(f)); f.env = s2; } return f; }
    case K.ClassExpression: return yield* this.makeClass(n, sc);
    case K.PropertyAccessExpression: case K.ElementAccessExpression: case K.CallExpression: { const r = yield* this.chain(n, sc); return r === CHAIN ? undefined : r.v; }
    case K.NewExpression: { const F = yield* this.ev(n.expression, sc); const args = yield* this.args(n.arguments ?? [], sc); return yield* this.construct(F, args); }
    case K.ConditionalExpression: return this.test(yield* this.ev(n.condition, sc)) ? yield* this.ev(n.whenTrue, sc) : yield* this.ev(n.whenFalse, sc);
    case K.BinaryExpression: return yield* this.binary(n, sc);
    case K.PrefixUnaryExpression: return yield* this.prefix(n, sc);
    case K.PostfixUnaryExpression: { const t = strip(n.operand); const { old, put } = yield* this.ref(t, sc); const v = yield* this.toNum(old); yield* put(this.arith(n.operator === K.PlusPlusToken ? "+" : "-", v, 1)); return v; }
    case K.TypeOfExpression: { const e = strip(n.expression); if (ts.isIdentifier(e) && !this.lookup(sc, e.text) && !this.globals.has(e.text) && e.text !== "undefined") return "undefined"; const v = this.force(yield* this.ev(n.expression, sc)); if (v === null) return "object"; return this.typeOf(v); }
    case K.VoidExpression: yield* this.ev(n.expression, sc); return undefined;
    case K.DeleteExpression: { const e = strip(n.expression); const o = yield* this.ev(e.expression, sc); const k = ts.isPropertyAccessExpression(e) ? e.name.text : yield* this.toKey(yield* this.ev(e.argumentExpression, sc)); return yield* this.del(o, k); }
    case K.AwaitExpression: return yield* this.awaitV(yield* this.ev(n.expression, sc));
    case K.YieldExpression: { if (n.asteriskToken) { for (const s of yield* this.iterSegs(yield* this.ev(n.expression, sc))) { if (s.k !== "el") bad(n); yield { yield: s.v }; } return undefined; } const r = yield { yield: n.expression ? yield* this.ev(n.expression, sc) : undefined }; return r?.v; }
    case K.MetaProperty: if (n.keywordToken === K.ImportKeyword) return this.importMeta ?? this.obj({ url: "file:///unknown" }); return this.lookup(sc, "new.target")?.v;
    case K.SpreadElement: bad(n);
  }
  bad(n);
};
P.cat = function (...xs) { if (xs.every((x) => typeof x === "string")) return xs.join(""); return this.lower(S.concat(...xs.map((x) => this.lift(x)))); };
P.args = function* (nodes, sc) { const out = []; for (const a of nodes) { if (ts.isSpreadElement(a)) { const v = yield* this.ev(a.expression, sc); const segs = yield* this.iterSegs(v); if (segs.some((s) => s.k !== "el")) { if (nodes.length === 1) { const r = []; r.restArr = new JArr(this.P.Array, segs); r.symbolicSpread = true; return r; } const pre = out.map(el); const r = [...out]; r.restArr = null; r.spreadSegs = [...pre, ...segs]; return r; } out.push(...segs.map((s) => s.v)); } else out.push(yield* this.ev(a, sc)); } return out; };
// property / element / call chains, with optional links
P.chain = function* (n, sc) {
  n = n;
  if (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n)) {
    const o = yield* this.chainObj(n.expression, sc); if (o === CHAIN) return CHAIN;
    if (n.questionDotToken && this.looseEqNull(o.v)) return CHAIN;
    if (n.expression.kind === K.SuperKeyword) { const home = this.lookup(sc, "%home").v; const self = this.lookup(sc, "this").v; return { v: yield* this.protoGet(home.proto, n.name.text, self), self }; }
    if (ts.isPropertyAccessExpression(n)) return { v: yield* this.getChecked(o.v, n.name.text, n), self: o.v };
    const k = yield* this.toKey(yield* this.ev(n.argumentExpression, sc)); return { v: yield* this.getChecked(o.v, k, n), self: o.v };
  }
  if (ts.isCallExpression(n)) {
    if (n.expression.kind === K.SuperKeyword) {
      const { F, newTarget, thisCell } = this.lookup(sc, "%ctor").v; const args = yield* this.args(n.arguments, sc);
      const o = yield* this.construct(F.parentClass, args, newTarget); this.setCell(thisCell, o); yield* this.initFields(F, o);
      let s = sc; while (s && !s.pendingParamProps) s = s.parent; if (s?.pendingParamProps) for (const p of s.pendingParamProps) this.setProp(o, p, { value: s.vars.get(p).v, enumerable: true });
      return { v: undefined };
    }
    if (n.expression.kind === K.ImportKeyword) { const spec = yield* this.ev(n.arguments[0], sc); if (typeof spec !== "string") bad(n, "dynamic import"); return { v: this.resolved(this.namespaceOf(this.importModule(spec, n.getSourceFile().fileName))) }; }
    const f = yield* this.chainObj(n.expression, sc); if (f === CHAIN) return CHAIN;
    if (n.questionDotToken && this.looseEqNull(f.v)) return CHAIN;
    const args = yield* this.args(n.arguments, sc);
    const fv = this.force(f.v);
    if (!(fv instanceof JFn)) { if (fv && fv.missing) unsupported("call of unknown global at " + loc(n)); this.throwError("TypeError", `${n.expression.getText().slice(0, 40)} is not a function`); }
    this.callSite = n;
    return { v: yield* this.call(fv, f.self, args) };
  }
  return { v: yield* this.ev(n, sc) };
};
P.chainObj = function* (e, sc) {
  if (e.kind === K.SuperKeyword) return { v: undefined };
  if (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e) || ts.isCallExpression(e)) return yield* this.chain(e, sc);
  if (ts.isNonNullExpression(e) || ts.isParenthesizedExpression(e) || ts.isAsExpression(e)) { const inner = strip(e); if (ts.isNonNullExpression(e)) return yield* this.chainObj(e.expression, sc); if (ts.isPropertyAccessExpression(inner) || ts.isElementAccessExpression(inner)) { const r = yield* this.chain(inner, sc); return r === CHAIN ? { v: undefined } : r; } }
  return { v: yield* this.ev(e, sc) };
};
P.getChecked = function* (o, k, n) { const v = yield* this.get(o, k); if (v === POISON) unsupported("reading a loop accumulator inside the loop at " + loc(n)); return v; };
P.objectLit = function* (n, sc) {
  const o = new JObj(this.P.Object);
  for (const p of n.properties) {
    if (ts.isPropertyAssignment(p)) { const k = yield* this.propName(p.name, sc); const v = yield* this.evNamed(p.initializer, sc, typeof k === "string" ? k : ""); if (k === "__proto__" && !ts.isComputedPropertyName(p.name)) { if (v instanceof JObj || v === null) o.proto = v; continue; } yield* this.defineOwn(o, k, v); }
    else if (ts.isShorthandPropertyAssignment(p)) { const v = yield* this.ev(p.name, sc); yield* this.defineOwn(o, p.name.text, v); }
    else if (ts.isSpreadAssignment(p)) yield* this.copyProps(o, yield* this.ev(p.expression, sc));
    else if (ts.isMethodDeclaration(p)) { const k = yield* this.propName(p.name, sc); const f = this.makeFn(p, sc, typeof k === "string" ? k : ""); f.home = o; yield* this.defineOwn(o, k, f); }
    else if (ts.isGetAccessorDeclaration(p) || ts.isSetAccessorDeclaration(p)) { const k = yield* this.propName(p.name, sc); const f = this.makeFn(p, sc, k); f.home = o; const d = o.props.get(k) ?? { get: null, set: null, enumerable: true }; o.props.set(k, { ...d, [ts.isGetAccessorDeclaration(p) ? "get" : "set"]: f }); }
    else bad(p);
  }
  return o;
};
P.defineOwn = function* (o, k, v) { if (isT(k)) { k = this.lower(k); } if (isT(k)) { if (k.sort === "Int") k = S.intToStr(k); this.makeLayered(o); this.layerSet(o, k, v); return; } if (o.layers && !(k instanceof JSymbol)) { this.layerSet(o, k, v); return; } this.setProp(o, k, { value: v, enumerable: true }); };
// reference for compound assignment
P.ref = function* (t, sc) {
  const I = this; t = strip(t);
  if (ts.isIdentifier(t)) return { old: yield* this.ev(t, sc), put: function* (v) { yield* I.assignTo(t, v, sc); } };
  const o = yield* this.ev(t.expression, sc); const k = ts.isPropertyAccessExpression(t) ? t.name.text : yield* this.toKey(yield* this.ev(t.argumentExpression, sc));
  return { old: yield* this.getChecked(o, k, t), put: function* (v) { yield* I.set(o, k, v); } };
};
const ASSIGN = { [K.PlusEqualsToken]: "+", [K.MinusEqualsToken]: "-", [K.AsteriskEqualsToken]: "*", [K.SlashEqualsToken]: "/", [K.PercentEqualsToken]: "%", [K.AsteriskAsteriskEqualsToken]: "**", [K.AmpersandEqualsToken]: "&", [K.BarEqualsToken]: "|", [K.CaretEqualsToken]: "^", [K.LessThanLessThanEqualsToken]: "<<", [K.GreaterThanGreaterThanEqualsToken]: ">>", [K.GreaterThanGreaterThanGreaterThanEqualsToken]: ">>>" };
const BIN = { [K.PlusToken]: "+", [K.MinusToken]: "-", [K.AsteriskToken]: "*", [K.SlashToken]: "/", [K.PercentToken]: "%", [K.AsteriskAsteriskToken]: "**", [K.AmpersandToken]: "&", [K.BarToken]: "|", [K.CaretToken]: "^", [K.LessThanLessThanToken]: "<<", [K.GreaterThanGreaterThanToken]: ">>", [K.GreaterThanGreaterThanGreaterThanToken]: ">>>" };
P.binary = function* (n, sc) {
  const k = n.operatorToken.kind;
  if (k === K.EqualsToken) { const t = strip(n.left); if (ts.isIdentifier(t) || ts.isArrayLiteralExpression(t) || ts.isObjectLiteralExpression(t)) { const v = yield* this.evNamed(n.right, sc, ts.isIdentifier(t) ? t.text : ""); yield* this.assignTo(t, v, sc); return v; }
    const o = yield* this.ev(t.expression, sc); const key = ts.isPropertyAccessExpression(t) ? t.name.text : yield* this.toKey(yield* this.ev(t.argumentExpression, sc)); const v = yield* this.ev(n.right, sc); yield* this.set(o, key, v); return v; }
  if (k in ASSIGN) { const { old, put } = yield* this.ref(n.left, sc); const r = yield* this.ev(n.right, sc); const v = yield* this.binop(ASSIGN[k], old, r); yield* put(v); return v; }
  if (k === K.QuestionQuestionEqualsToken || k === K.BarBarEqualsToken || k === K.AmpersandAmpersandEqualsToken) { const { old, put } = yield* this.ref(n.left, sc); const doIt = k === K.QuestionQuestionEqualsToken ? this.looseEqNull(old) : k === K.BarBarEqualsToken ? !this.test(old) : this.test(old); if (!doIt) return old; const v = yield* this.ev(n.right, sc); yield* put(v); return v; }
  if (k === K.AmpersandAmpersandToken) { const l = yield* this.ev(n.left, sc); return this.test(l) ? yield* this.ev(n.right, sc) : l === undefined || isPrim(l) && !isT(l) ? l : (isT(l) && l.sort === "Bool" ? false : l); }
  if (k === K.BarBarToken) { const l = yield* this.ev(n.left, sc); return this.test(l) ? (isT(l) && l.sort === "Bool" ? true : l) : yield* this.ev(n.right, sc); }
  if (k === K.QuestionQuestionToken) { const l = yield* this.ev(n.left, sc); return this.looseEqNull(l) ? yield* this.ev(n.right, sc) : l; }
  if (k === K.CommaToken) { yield* this.ev(n.left, sc); return yield* this.ev(n.right, sc); }
  if (k === K.InKeyword) { const key = ts.isPrivateIdentifier(n.left) ? n.left.text : yield* this.toKey(yield* this.ev(n.left, sc)); const o = this.force(yield* this.ev(n.right, sc)); if (!(o instanceof JObj)) this.throwError("TypeError", "Cannot use 'in' operator"); if (o.proxy) { const trap = yield* this.get(o.proxy.handler, "has"); if (trap !== undefined) return this.test(yield* this.call(trap, o.proxy.handler, [o.proxy.target, key])); } return yield* this.hasProp(o, key); }
  const l = yield* this.ev(n.left, sc), r = yield* this.ev(n.right, sc);
  switch (k) {
    case K.EqualsEqualsEqualsToken: return this.strictEq(l, r);
    case K.ExclamationEqualsEqualsToken: return this.notV(this.strictEq(l, r));
    case K.EqualsEqualsToken: return yield* this.looseEq(l, r);
    case K.ExclamationEqualsToken: return this.notV(yield* this.looseEq(l, r));
    case K.LessThanToken: return yield* this.less(l, r, false); case K.GreaterThanToken: return yield* this.less(r, l, false);
    case K.LessThanEqualsToken: return yield* this.less(l, r, true); case K.GreaterThanEqualsToken: return yield* this.less(r, l, true);
    case K.InstanceOfKeyword: return yield* this.instanceOf(l, r);
  }
  if (k in BIN) return yield* this.binop(BIN[k], l, r);
  bad(n.operatorToken, "operator");
};
P.instanceOf = function* (v, C) {
  v = this.force(v); C = this.force(C); if (!(C instanceof JFn)) this.throwError("TypeError", "Right-hand side of 'instanceof' is not callable");
  const h = C.props.get(this.symbols.hasInstance); if (h) return this.test(yield* this.call(h.value, C, [v]));
  if (isT(v) && v.sort === "Val") unsupported("instanceof on an opaque value");
  if (!(v instanceof JObj)) return false;
  const p = C.props.get("prototype")?.value; for (let x = v.proto; x; x = x.proto) if (x === p) return true; return false;
};
P.less = function* (a, b, orEq) {
  a = this.force(a); b = this.force(b);
  if (this.isStr(a) && this.isStr(b)) { if (typeof a === "string" && typeof b === "string") return orEq ? a <= b : a < b; const x = this.lift(a), y = this.lift(b); return this.lower(orEq ? S.not(S.strlt(y, x)) : S.strlt(x, y)); }
  a = typeof a === "bigint" ? a : yield* this.toNum(a); b = typeof b === "bigint" ? b : yield* this.toNum(b);
  if (!isT(a) && !isT(b)) return orEq ? a <= b : a < b;
  if (typeof a === "number" && !Number.isFinite(a)) return Number.isNaN(a) ? false : a < 0;
  if (typeof b === "number" && !Number.isFinite(b)) return Number.isNaN(b) ? false : b > 0;
  return this.lower(orEq ? S.le(this.lift(a), this.lift(b)) : S.lt(this.lift(a), this.lift(b)));
};
P.binop = function* (op, a, b) {
  a = this.force(a); b = this.force(b);
  if (op === "+") {
    const prim = function* (v) { if (v instanceof JObj) return yield* this.toStr(v); return v; }.bind(this);
    a = yield* prim(a); b = yield* prim(b);
    if (this.isStr(a) || this.isStr(b)) return this.cat(yield* this.toStr(a), yield* this.toStr(b));
  }
  if (typeof a === "bigint" || typeof b === "bigint") { if (typeof a === "bigint" && typeof b === "bigint") switch (op) { case "+": return a + b; case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b; case "**": return a ** b; case "&": return a & b; case "|": return a | b; case "^": return a ^ b; case "<<": return a << b; case ">>": return a >> b; } unsupported("bigint arithmetic"); }
  return this.arith(op, yield* this.toNum(a), yield* this.toNum(b));
};
P.arith = function (op, a, b) {
  if (!isT(a) && !isT(b)) switch (op) { case "+": return a + b; case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b; case "**": return a ** b; case "&": return a & b; case "|": return a | b; case "^": return a ^ b; case "<<": return a << b; case ">>": return a >> b; case ">>>": return a >>> b; }
  for (const [x, y] of [[a, b], [b, a]]) if (typeof x === "number" && !Number.isFinite(x)) { if (Number.isNaN(x)) return NaN; if (op === "+") return x; if (op === "-") return x === a ? x : -x; unsupported("arithmetic with infinity"); }
  const x = this.lift(a), y = this.lift(b);
  switch (op) {
    case "+": return this.lower(S.add(x, y)); case "-": return this.lower(S.sub(x, y)); case "*": return this.lower(S.mul(x, y));
    case "/": { if (S.isConst(y) && S.constVal(y) !== 0) return this.lower(S.div(x, y)); if (this.branch(S.eq(y, S.int(0)))) { if (this.branch(S.eq(x, S.int(0)))) return NaN; return this.branch(S.gt(x, S.int(0))) ? Infinity : -Infinity; } return this.lower(S.div(x, y)); }
    case "%": {
      if (x.sort === "Int" && y.sort === "Int" && S.isConst(y) && S.constVal(y) > 0) { if (this.entailed(S.ge(x, S.int(0))) === true) return this.lower(S.imod(x, y)); return this.branch(S.ge(x, S.int(0))) ? S.imod(x, y) : S.neg(S.imod(S.neg(x), y)); }
      if (x.sort === "Int" && y.sort === "Int") { if (this.branch(S.eq(y, S.int(0)))) return NaN; const t = S.uf("jsmod", "Int", [x, y]); this.fact(S.implies(S.and(S.ge(x, S.int(0)), S.gt(y, S.int(0))), S.and(S.ge(t, S.int(0)), S.lt(t, y)))); return t; }
      return S.uf("jsrem", "Real", [S.toReal(x), S.toReal(y)]);
    }
    case "**": { if (S.isConst(x) && S.constVal(x) === 2 && y.sort === "Int") { const t = S.uf("pow2", "Int", [y]); this.fact(S.implies(S.ge(y, S.int(0)), S.ge(t, S.add(y, S.int(1))))); this.fact(S.eq(S.uf("pow2", "Int", [S.int(0)]), S.int(1))); if (this.entailed(S.ge(y, S.int(0))) !== true) { const r = S.uf("jspow", "Real", [S.toReal(x), S.toReal(y)]); this.fact(S.gt(r, S.int(0))); return r; } return t; } const t = S.uf("jspow", "Real", [S.toReal(x), S.toReal(y)]); return t; }
    case "&": case "|": case "^": case "<<": case ">>": case ">>>": return this.bitop(op, x, y);
  }
  unsupported("operator " + op);
};
P.bitop = function (op, x, y) {
  if (x.sort !== "Int" || y.sort !== "Int") unsupported("bitwise operator on a non-integer");
  const nonneg32 = (t) => this.entailed(S.and(S.ge(t, S.int(0)), S.lt(t, S.int(2147483648)))) === true;
  const c = S.isConst(y) ? S.constVal(y) : null;
  if ((op === ">>>" || op === ">>") && c !== null && nonneg32(x)) return this.lower(S.idiv(x, S.int(2 ** (c & 31))));
  if (op === ">>>" && c === 0) { const t = S.uf("toUint32", "Int", [x]); this.fact(S.and(S.ge(t, S.int(0)), S.lt(t, S.int(4294967296)), S.eq(t, S.imod(x, S.int(4294967296))))); return t; }
  if (op === "&" && c !== null && nonneg32(x) && c >= 0 && ((c + 1) & c) === 0) return this.lower(S.imod(x, S.int(c + 1)));
  if (op === "&" && c !== null && nonneg32(x) && c > 0 && (c & (c - 1)) === 0) return this.lower(S.mul(S.int(c), S.imod(S.idiv(x, S.int(c)), S.int(2))));
  if (op === "<<" && c !== null && nonneg32(x) && this.entailed(S.lt(S.mul(x, S.int(2 ** c)), S.int(2147483648))) === true) return this.lower(S.mul(x, S.int(2 ** c)));
  const t = S.uf("bit" + op, "Int", [x, y]);
  this.fact(op === ">>>" ? S.and(S.ge(t, S.int(0)), S.lt(t, S.int(4294967296))) : S.and(S.ge(t, S.int(-2147483648)), S.lt(t, S.int(2147483648))));
  return t;
};
P.prefix = function* (n, sc) {
  const v = () => this.ev(n.operand, sc);
  switch (n.operator) {
    case K.ExclamationToken: return this.notV(yield* v());
    case K.MinusToken: { const x = this.force(yield* v()); if (typeof x === "bigint") return -x; return this.arith("-", 0, yield* this.toNum(x)); }
    case K.PlusToken: return yield* this.toNum(yield* v());
    case K.TildeToken: { const x = yield* this.toNum(yield* v()); return typeof x === "number" ? ~x : this.arith("-", this.arith("-", 0, x), 1); }
    case K.PlusPlusToken: case K.MinusMinusToken: { const { old, put } = yield* this.ref(n.operand, sc); const r = this.arith(n.operator === K.PlusPlusToken ? "+" : "-", yield* this.toNum(old), 1); yield* put(r); return r; }
  }
  bad(n);
};
P.opaqueFn = function (name, idxs, ret) {
  const I = this; const f = this.fn(name, function* (_t, args) { const enc = []; for (const a of args) enc.push(yield* I.encode(a)); return ret ? yield* ret(name + "()", [...idxs, ...enc]) : new JAny(name + "()", [...idxs, ...enc], Interp.JSONKINDS); });
  f.opaque = name; return f;
};
// a term standing for a value (used as an argument of uninterpreted functions)
P.encode = function* (v) {
  if (v instanceof JAny) { const e = this.encAny.get(v.baseKey); if (e) return e; const k = this.forced.get(v.key); if (k !== undefined || this.forced.has(v.key)) return yield* this.encode(k); if (v.json && !v.copy && v.kinds.length > 1) { const r = this.anyRoot(v); let t = this.encAny.get(r.baseKey); if (!t) { t = r.idxs.length ? S.uf("any:" + r.name, "Val", r.idxs) : S.variable("any:" + r.name, "Val"); this.memoSet(this.encAny, r.baseKey, t); } return t; } v = this.force(v); }
  if (isT(v)) return v;
  if (v === undefined) return S.variable("#undefined", "Val"); if (v === null) return S.variable("#null", "Val");
  if (isPrim(v)) { if (typeof v === "number" && !Number.isFinite(v)) return S.variable("#" + v, "Val"); if (typeof v === "bigint") return S.uf("#bigint", "Val", [S.int(v)]); return this.lift(v); }
  if (v instanceof JObj && v.ident) return v.ident;
  if (v instanceof JArr && v.segs.every((s) => s.k === "el")) { const e = []; for (const s of v.segs) e.push(yield* this.encode(s.v)); return S.uf("#arr" + e.length + ":" + e.map((x) => x.sort[0]).join(""), "Val", e); }
  if (v instanceof JRegExp) return S.uf("#re", "Val", [this.lift(v.source), this.lift(v.flags)]);
  if (v instanceof JObj && !v.layers && !(v instanceof JArr) && !(v instanceof JFn) && !(v instanceof JMap) && [...v.props.values()].every((d) => d.get === undefined)) { const ks = [...v.props.keys()].filter((k) => typeof k === "string" && v.props.get(k).enumerable); const e = []; for (const k of ks) e.push(yield* this.encode(v.props.get(k).value)); return S.uf("#obj{" + ks.join(",") + "}" + e.map((x) => x.sort[0]).join(""), "Val", e); }
  const key = v; let t = this.encoded?.get(key); if (!t) { t = this.fresh("enc", "Val"); this.encoded ??= new Map(); this.memoSet(this.encoded, key, t); } return t;
};
Interp.KINDS = ["undef", "null", "bool", "num", "int", "str", "arr", "obj", "fn", "err"];
Interp.JSONKINDS = ["null", "bool", "num", "str", "arr", "obj"];
export { CHAIN, strip, loc };
// a TypeScript `this` parameter is a type annotation
const thisless = (ps) => (ps.length && ps[0].name.text === "this" ? ps.slice(1) : ps);
