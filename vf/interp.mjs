// Symbolic evaluator for the TypeScript fragment: explores every path of a contract over the real source
// (compiler-API syntax trees), with loops over sequences of unknown length summarised inductively.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import * as S from "./smt.mjs";
import * as R from "./regex.mjs";
const req = createRequire("/opt/veriftools/node/node_modules/");
export const ts = req("typescript");
const K = ts.SyntaxKind;
const { T, isT } = S;

// ------------------------------------------------------------------ values
let birth = 1;
export class JObj { constructor(proto) { this.props = new Map(); this.proto = proto ?? null; this.layers = null; this.birth = birth++; this.cls = null; this.ident = null; this.frozen = false; } }
export class JArr extends JObj { constructor(proto, segs = []) { super(proto); this.segs = segs; } }
export class JFn extends JObj { constructor(proto) { super(proto); this.node = null; this.env = null; this.native = null; this.name = ""; this.thisVal = undefined; this.home = null; this.isClass = false; this.fields = null; this.file = null; } }
export class JMap extends JObj { constructor(proto) { super(proto); this.isSet = false; this.store = null; this.dups = false; } }
export class JPromise extends JObj { constructor(proto) { super(proto); this.state = "pending"; this.value = undefined; this.handlers = []; this.handled = false; } }
export class JRegExp extends JObj { constructor(proto, source, flags) { super(proto); this.source = source; this.flags = flags; } }
export class JSymbol { constructor(d) { this.description = d; } }
export class JAny { constructor(name, idxs, kinds) { this.name = name; this.idxs = idxs; this.kinds = kinds; this.birth = 0; this.copy = 0; this.json = false; } get baseKey() { return this.name + "@" + this.idxs.map((t) => t.id).join(","); } get key() { return this.copy ? this.baseKey + "~" + this.copy : this.baseKey; } }
export class JThrow { constructor(v) { this.value = v; } }
export class PathAbort { }
export class Unsupported extends Error { }
export const unsupported = (m) => { throw new Unsupported(m); };
export class Cell { constructor(v, lazy) { this.v = v; this.lazy = lazy ?? null; this.tdz = false; this.birth = birth++; this.konst = false; } }
export class Scope { constructor(parent) { this.vars = new Map(); this.parent = parent; this.fn = parent ? parent.fn : null; }
  find(n) { for (let s = this; s; s = s.parent) { const c = s.vars.get(n); if (c) return c; } return null; } }
export const NORMAL = { t: "n" };
export const ABSENT = { absent: true };
export const DELETED = { deleted: true, value: undefined };
export const POISON = new JObj(null); POISON.poison = true;
export const loopCompletion = (c) => { if (!c || c.t === "n") return null; if (c.t === "brk" && !c.label) return "break"; if (c.t === "cont") return c.label ? c : null; return c; };
const mentions = (t, x) => { if (t === x) return true; return t.args.some((a) => mentions(a, x)); };
export const nextBirth = () => birth;
let baseIds = 1;
// a sequence of unknown length: element i is get(i)
export class Base { constructor(name, len, get) { this.id = baseIds++; this.name = name; this.len = len; this.getter = get; this.univ = []; this.skolems = []; this.parent = null; this.distinctKeys = false; } }
export const el = (v) => ({ k: "el", v });
export const isPrim = (v) => v === undefined || v === null || typeof v !== "object" || v instanceof T || typeof v === "bigint";
const isObjV = (v) => v instanceof JObj;

const parseCache = new Map();
export const parseFile = (file, text) => {
  let sf = parseCache.get(file); if (sf) return sf;
  text ??= fs.readFileSync(file, "utf8"); if (file.endsWith(".json")) text = "export default (" + text + ");";
  sf = ts.createSourceFile(file, text, ts.ScriptTarget.ES2022, true, file.endsWith("x") ? ts.ScriptKind.TSX : ts.ScriptKind.TS);
  parseCache.set(file, sf); return sf;
};

// ------------------------------------------------------------------ interpreter
export class Interp {
  constructor(opts) {
    this.resolveImport = opts.resolveImport; // (spec, fromFile) -> {file} | {opaque:true}
    this.builtins = opts.builtins;           // installs globals and prototypes
    this.maxPaths = opts.maxPaths ?? 4000; this.maxSteps = opts.maxSteps ?? 3_000_000; this.timeoutMs = opts.timeoutMs ?? 600_000;
    this.obligations = new Map();            // label -> {checked, proved, by:{}, failed:[...]}
    this.assumptions = new Set();
    this.usedFns = new Set();
  }
  // ---- per-path state
  reset(prefix) {
    if (this.trail) this.undo(0);
    this.dec = prefix; this.pos = 0; this.pc = []; this.trail = []; this.counter = 0; this.modules = new Map(); this.forced = new Map();
    this.steps = 0; this.depth = 0; this.subDepth = 0; this.leaves = new Map(); this.micro = []; this.rejections = []; this.als = null; this.timers = []; this.timerSeq = 1; this.now = 0; this.stack = []; this.memo = new Map(); this.bases = [];
    this.jsonOf = new Map(); this.joins = new Map(); this.homOf = new Map(); this.homs = new Map(); this.encoded = new Map(); this.discovering = false; this.globalObj = null;
    this.charsets = new Map(); this.inputsMutated = false; this.folds = new Map(); this.aliasNames = new Map(); this.log = []; this.anyAlias = new Map(); this.sameTerms = new Map(); this.encAny = new Map(); this.recursion = null; this.replacements = null; this.uses = new Map(); this.symKeysSeen = [];
    birth = 1; baseIds = 1;
    if (!this.installed) { this.builtins(this); this.installed = birth; }
    birth = this.installed;
  }
  fresh(name, sort) { return S.variable(`${name}!${this.counter++}`, sort); }
  leaf(name, idxs, sort) {
    const t = idxs.length ? S.uf(name, sort, idxs) : S.variable(name, sort);
    if (!this.leaves.has(t)) { this.leaves.set(t, { name, idxs }); }
    return t;
  }
  assume(c) {
    if (c === true || c === S.TRUE) return; if (c === false || c === S.FALSE) throw new PathAbort();
    if (c.op === "and") { for (const a of c.args) this.assume(a); return; }
    if (this.pc.includes(c)) return;
    if (this.pc.includes(S.not(c))) throw new PathAbort();
    this.pc.push(c);
  }
  fact(c) { // globally valid fact about freshly introduced terms
    if (c === true || c === S.TRUE) return; if (c.op === "and") { for (const a of c.args) this.fact(a); return; } if (!this.pc.includes(c)) this.pc.push(c);
  }
  // decide a condition, forking the path when both outcomes are possible
  branch(c) {
    if (c === true || c === false) return c;
    if (c === S.TRUE) return true; if (c === S.FALSE) return false;
    this.splitFacts(c.op === "not" ? c.args[0] : c);
    if (this.pc.includes(c)) return true; const nc = S.not(c); if (this.pc.includes(nc)) return false;
    if (this.pos < this.dec.length) { const d = this.dec[this.pos++]; if (d.kind !== "b") throw new Error("decision mismatch"); this.assume(d.val ? c : nc); return d.val; }
    const ft = S.feasible([...this.pc, c]);
    const ff = ft ? S.feasible([...this.pc, nc]) : true;
    if (!ft && !S.feasible([...this.pc, nc])) throw new PathAbort();
    const val = ft; this.dec.push({ kind: "b", val, alt: ft && ff }); this.pos++;
    this.assume(val ? c : nc); return val;
  }
  choose(n, label) {
    for (let i = 0; i < n - 1; i++) if (this.branch(this.fresh("choice", "Bool"))) return i;
    return n - 1;
  }
  // entailed(c): true/false when decided by the path condition, otherwise null
  entailed(c) {
    if (c === true || c === S.TRUE) return true; if (c === false || c === S.FALSE) return false;
    if (this.pc.includes(c)) return true; if (this.pc.includes(S.not(c))) return false;
    const key = "ent" + c.id + ":" + this.pc.length; if (this.memo.has(key)) return this.memo.get(key);
    const v = !S.feasible([...this.pc, S.not(c)]) ? true : !S.feasible([...this.pc, c]) ? false : null;
    this.memo.set(key, v); return v;
  }
  static next(dec) { // advance the decision stack (depth first); null when exhausted
    while (dec.length) {
      const d = dec[dec.length - 1];
      if (d.kind === "b") { if (d.alt) { return [...dec.slice(0, -1), { kind: "b", val: !d.val, alt: false }]; } }
      else if (d.val + 1 < d.n) return [...dec.slice(0, -1), { ...d, val: d.val + 1 }];
      dec.pop();
    }
    return null;
  }
  // explore a sub-computation from the current state; every path is undone afterwards
  *sub(gen, opts = {}) {
    const out = []; let prefix = [];
    const saved = { dec: this.dec, pos: this.pos, pc: this.pc, micro: this.micro, stack: this.stack };
    const t0 = this.trail.length, b0 = birth; let n = 0;
    const keepIds = this.counter; let maxIds = keepIds;
    this.subDepth++;
    try {
      for (;;) {
        if (++n > 400) unsupported("too many paths in a loop body or callback");
        this.dec = prefix; this.pos = 0; this.pc = [...saved.pc]; this.micro = []; this.stack = [...saved.stack];
        const mark = this.trail.length, b = birth; this.counter = keepIds;
        let r;
        try { const v = yield* gen(); r = { ok: true, v }; }
        catch (e) { if (e instanceof PathAbort) r = null; else if (e instanceof JThrow) r = { ok: false, v: e.value }; else throw e; }
        if (r) { r.pc = this.pc.slice(saved.pc.length); r.writes = this.trail.slice(mark).filter((w) => w.birth < b).map((w) => ({ ...w, now: w.cur() })); r.mark = b; if (opts.inspect) opts.inspect(r); out.push(r); }
        this.undo(mark); maxIds = Math.max(maxIds, this.counter);
        prefix = Interp.next(this.dec); if (!prefix) break;
      }
    } finally { this.undo(t0); Object.assign(this, saved); this.subDepth--; this.counter = Math.max(maxIds, this.counter); }
    return out;
  }
  undo(mark) { while (this.trail.length > mark) this.trail.pop().undo(); }
  // writes
  setCell(c, v) { const old = c.v, lz = c.lazy; this.trail.push({ kind: "cell", target: c, birth: c.birth, old, undo: () => { c.v = old; c.lazy = lz; }, cur: () => c.v }); c.v = v; c.lazy = null; }
  noteMut(o) { if (o.jsonInput && !this.inputsMutated) { this.trail.push({ kind: "memo", birth: Infinity, undo: () => { this.inputsMutated = false; }, cur: () => true }); this.inputsMutated = true; } }
  setSegs(a, segs) { this.noteMut(a); const old = a.segs; this.trail.push({ kind: "segs", target: a, birth: a.birth, old, undo: () => { a.segs = old; }, cur: () => a.segs }); a.segs = segs; }
  setProp(o, key, d) { this.noteMut(o); const had = o.props.has(key), old = o.props.get(key); this.trail.push({ kind: "prop", target: o, key, birth: o.birth, old, had, undo: () => { if (had) o.props.set(key, old); else o.props.delete(key); }, cur: () => o.props.get(key) }); if (d === null) o.props.delete(key); else o.props.set(key, d); }
  setField(o, f, v) { if (f === "layers" || f === "proto") this.noteMut(o); const old = o[f]; this.trail.push({ kind: "field", target: o, field: f, birth: o.birth ?? 0, old, undo: () => { o[f] = old; }, cur: () => o[f] }); o[f] = v; }
  memoSet(m, k, v) { const had = m.has(k), old = m.get(k); this.trail.push({ kind: "memo", birth: Infinity, undo: () => { if (had) m.set(k, old); else m.delete(k); }, cur: () => v }); m.set(k, v); }

  // ------------------------------------------------------------ obligations
  *ensure(label, cond) {
    if (this.subDepth > 0) unsupported("ensure inside a summarised callback");
    let o = this.obligations.get(label); if (!o) this.obligations.set(label, (o = { label, checked: 0, proved: 0, by: {}, failed: [], ms: 0 }));
    o.checked++;
    let c = typeof cond === "boolean" ? S.bool(cond) : isT(cond) && cond.sort === "Bool" ? cond : this.lift(this.truthy(cond));
    const t0 = Date.now();
    const r = S.prove(this.pc, c, { values: [...this.leaves.keys()], timeout: this.proveTimeout ?? 8000 });
    o.ms += Date.now() - t0;
    if (r.res === "proved") { o.proved++; o.by[r.by] = (o.by[r.by] ?? 0) + 1; }
    else {
      const env = r.model ? this.modelEnv(r.model) : null;
      o.failed.push({ res: r.res, query: r.query, model: env, path: this.pc.length });
      if ((this.failCount = (this.failCount ?? 0) + 1) >= 12) { this.stopped = true; unsupported("stopped after 12 failed obligations"); }
    }
    this.assumeAfter(c);
  }
  assumeAfter(c) { if (c === S.FALSE) throw new PathAbort(); this.assume(c); }
  // assignment of contract inputs (leaf name + concrete indices) from a solver model
  modelEnv(m) {
    const env = {};
    for (const [t, v] of m) {
      const info = this.leaves.get(t); if (!info) continue;
      const idx = info.idxs.map((i) => (S.isConst(i) ? S.constVal(i) : m.get(i)));
      if (idx.some((x) => x === undefined)) continue;
      env[info.name + (idx.length ? "[" + idx.map((x) => JSON.stringify(x)).join(",") + "]" : "")] = v;
    }
    return env;
  }

  // ------------------------------------------------------------ conversions
  lift(v) {
    if (isT(v)) return v;
    if (typeof v === "boolean") return S.bool(v);
    if (typeof v === "string") return S.str(v);
    if (typeof v === "number") { if (!Number.isFinite(v)) unsupported("non-finite number mixed with a symbolic one"); return S.fromJsNumber(v); }
    if (typeof v === "bigint") return S.int(v);
    unsupported("cannot lift " + this.show(v));
  }
  lower(t) { return isT(t) && S.isConst(t) ? S.constVal(t) : t; }
  typeOf(v) {
    if (isT(v)) return v.sort === "Bool" ? "boolean" : v.sort === "String" ? "string" : v.sort === "Val" ? "object" : "number";
    if (v instanceof JFn) return "function"; if (v instanceof JSymbol) return "symbol";
    if (v instanceof JAny) return "any";
    return typeof v === "object" ? "object" : typeof v;
  }
  force(v) {
    if (!(v instanceof JAny)) return v;
    const key = v.key; if (this.forced.has(key)) return this.forced.get(key);
    const al = this.anyAlias.get(key); if (al) { const r = this.force(al); this.memoSet(this.forced, key, r); return r; }
    const kinds = v.kinds; let kind;
    if (v.copy) { if (this.inputsMutated) unsupported("lazy copy after a mutation of the input"); const o = this.force(v.original); const r = o instanceof JObj && o.jsonInput ? this.copyInput(o, v) : o; this.memoSet(this.forced, key, r); return r; }
    if (kinds.length === 1) kind = kinds[0];
    else {
      const tag = this.leaf(v.name + "#tag", v.idxs, "Int");
      const all = Interp.KINDS; kind = null;
      for (let i = 0; i < kinds.length - 1; i++) if (this.branch(S.eq(tag, S.int(all.indexOf(kinds[i]))))) { kind = kinds[i]; break; }
      if (!kind) { kind = kinds[kinds.length - 1]; this.assume(S.eq(tag, S.int(all.indexOf(kind)))); }
    }
    const r = this.materialise(v.name, v.idxs, kind, v);
    this.memoSet(this.forced, key, r); return r;
  }
  sameTerm(a, b, create) { // the condition that two unread values are identical
    if (a.copy || b.copy) return null; const [x, y] = a.baseKey <= b.baseKey ? [a, b] : [b, a]; const n = "same:" + x.name + "=" + y.name, ix = [...x.idxs, ...y.idxs]; const t = ix.length ? S.uf(n, "Bool", ix) : S.variable(n, "Bool");
    if (create) { if (!this.sameTerms.has(t)) this.memoSet(this.sameTerms, t, true); return t; } return this.sameTerms.has(t) ? t : null;
  }
  sameAny(a, b) {
    const t = this.sameTerm(a, b, true); if (!t) return null;
    if (!this.branch(t)) return false;
    const fa = this.forced.has(a.key), fb = this.forced.has(b.key);
    if (!fb) this.memoSet(this.anyAlias, b.key, a); else if (!fa) this.memoSet(this.anyAlias, a.key, b);
    return true;
  }
  anyRoot(v) { for (let n = 0; n < 20; n++) { const a = this.anyAlias.get(v.key); if (!a) return v; v = a; } return v; }
  copyAny(v) { const c = new JAny(v.name, v.idxs, v.kinds); c.json = v.json; c.elemKinds = v.elemKinds; c.copy = ++this.counter; c.original = v; return c; }
  copyInput(o, any) { // a fresh mutable copy of an unmodified JSON input
    const I = this, cp = (x) => (x instanceof JAny ? ((c) => { c.copy = any.copy; return c; })(I.copyAny(x)) : x);
    const r = o instanceof JArr ? new JArr(this.P.Array, o.segs.map((s) => (s.k === "el" ? el(cp(s.v)) : this.mapSeg(s, (x) => [cp(x)], true)))) : new JObj(this.P.Object);
    if (!(o instanceof JArr)) r.layers = o.layers.map((l) => ({ dict: l.dict.map((s) => this.mapSeg(s, (p) => [I.arr([p.segs[0].v, cp(p.segs[1].v)])], true)) }));
    r.ident = o.ident; r.jsonInput = true; r.origin = any; r.birth = 0; return r;
  }
  materialise(name, idxs, kind, any) {
    switch (kind) {
      case "undef": return undefined; case "null": return null;
      case "bool": return this.leaf(name + "#b", idxs, "Bool");
      case "num": return this.leaf(name + "#n", idxs, "Real");
      case "int": return this.leaf(name + "#i", idxs, "Int");
      case "str": return this.leaf(name + "#s", idxs, "String");
      case "arr": { const a = this.inputArray(name, idxs, (i) => this.childAny(name + "[]", [...idxs, i], any)); a.ident = this.identOf(name, idxs); if (any.json) { a.jsonInput = true; a.origin = any; } return a; }
      case "obj": { const o = this.inputDict(name, idxs, (i) => this.childAny(name + "{}", [...idxs, i], any)); o.ident = this.identOf(name, idxs); if (any.json) { o.jsonInput = true; o.origin = any; } return o; }
      case "fn": { const f = this.opaqueFn(name, idxs); f.ident = this.identOf(name, idxs); return f; }
      case "err": { const e = this.makeError("Error", this.leaf(name + "#msg", idxs, "String")); e.ident = this.identOf(name, idxs); return e; }
    }
    unsupported("kind " + kind);
  }
  childAny(name, idxs, any) { const c = new JAny(name, idxs, any.elemKinds ?? Interp.JSONKINDS); c.json = any.json; return c; }
  identOf(name, idxs) { return idxs.length ? S.uf(name + "#ref", "Val", idxs) : S.variable(name + "#ref", "Val"); }
  inputArray(name, idxs, elem) {
    const key = "arr:" + name + "@" + idxs.map((t) => t.id);
    let b = this.memo.get(key);
    if (!b) { const len = this.leaf(name + "#len", idxs, "Int"); this.fact(S.ge(len, S.int(0))); b = this.newBase(name, len, elem); this.memoSet(this.memo, key, b); }
    const a = new JArr(this.P.Array, [this.rawSeg(b)]); a.birth = 0; return a;
  }
  inputDict(name, idxs, elem) {
    const key = "dict:" + name + "@" + idxs.map((t) => t.id);
    let b = this.memo.get(key);
    if (!b) {
      const len = this.leaf(name + "#size", idxs, "Int"); this.fact(S.ge(len, S.int(0)));
      const I = this;
      b = this.newBase(name, len, function* (i) { const k = I.leaf(name + "#key", [...idxs, i], "String"); const v = elem(i); const p = new JArr(I.P.Array, [el(k), el(v && v.next ? yield* v : v)]); p.birth = 0; return p; });
      b.distinctKeys = true; b.keyOf = (i) => this.leaf(name + "#key", [...idxs, i], "String"); b.onSkolem = (i) => { for (const j of b.skolems) if (j !== i) this.fact(S.implies(S.eq(b.keyOf(i), b.keyOf(j)), S.eq(i, j))); };
      this.memoSet(this.memo, key, b);
    }
    const o = new JObj(this.P.Object); o.birth = 0; o.layers = [{ dict: [this.rawSeg(b)] }]; return o;
  }
  newBase(name, len, get) { const b = new Base(name, len, get); this.bases.push(b); return b; }
  rawSeg(b) { const I = this; return { k: "fm", base: b, exact: true, raw: true, f: function* (i) { return [yield* I.baseGet(b, i)]; } }; }
  *baseGet(b, i) {
    this.skolem(b, i);
    const key = "el:" + b.id + ":" + i.id; if (this.memo.has(key)) return this.memo.get(key);
    let v = b.getter(i); if (v && typeof v.next === "function") v = yield* v;
    this.memoSet(this.memo, key, v); return v;
  }
  // register an index of interest: universally quantified facts about the base are instantiated at it
  skolem(b, i) {
    for (let x = b; x; x = x.parent) {
      if (x.skolems.includes(i)) continue;
      const old = x.skolems; this.trail.push({ kind: "memo", birth: Infinity, undo: () => { x.skolems = old; }, cur: () => 0 }); x.skolems = [...old, i];
      if (x.onSkolem) x.onSkolem(i);
      for (const u of x.univ) this.instantiate(x, u, i);
    }
  }
  instantiate(b, u, i) {
    const key = "inst:" + u.id + ":" + i.id; if (this.memo.has(key)) return; this.memoSet(this.memo, key, true);
    const g = S.and(S.ge(i, S.int(0)), u.guard(i)); if (g === S.FALSE) return;
    const I = this;
    const it = this.merged(function* () { return I.lower(yield* u.cond(i)); }, g); const r = it.next(); if (!r.done) unsupported("suspension inside a quantified fact");
    if (!r.value) { const j = u.cond(i).next(); if (!j.done) unsupported("suspension inside a quantified fact"); this.fact(S.implies(g, j.value)); return; }
    this.fact(S.implies(g, this.lift(r.value.v)));
  }
  addUniv(b, guard, cond) { // forall i. guard(i) => cond(i)   (cond: generator returning a Bool term)
    const u = { id: this.counter++, guard, cond };
    for (let x = b; x; x = x.parent) { const xb = x; const old = xb.univ; this.trail.push({ kind: "memo", birth: Infinity, undo: () => { xb.univ = old; }, cur: () => 0 }); xb.univ = [...old, u]; if (!x.parent) for (const i of [...xb.skolems]) this.instantiate(xb, u, i); }
    return u;
  }
  show(v) { try { return isT(v) ? `<${v.sort}>` : v instanceof JArr ? "[array]" : v instanceof JFn ? `[fn ${v.name}]` : v instanceof JAny ? `[any ${v.name}]` : v instanceof JObj ? `{${[...v.props.keys()].map(String).join(",")}}` : String(v); } catch { return "?"; } }

  // truthiness: JS boolean or Bool term (may fork on the kind of an unconstrained value)
  truthy(v) {
    v = this.force(v);
    if (isT(v)) { switch (v.sort) { case "Bool": return v; case "String": return S.not(S.eq(v, S.str(""))); case "Val": return true; default: return S.not(S.eq(v, S.int(0))); } }
    if (v instanceof JObj || v instanceof JSymbol) return true;
    return Boolean(v);
  }
  test(v) { return this.branch(this.truthy(v)); }
  notV(v) { const t = this.truthy(v); return typeof t === "boolean" ? !t : this.lower(S.not(t)); }
  // strict equality as JS boolean or Bool term
  strictEq(a, b) {
    if (a === b) return !(typeof a === "number" && Number.isNaN(a));
    if (a instanceof JAny && b instanceof JAny) { a = this.anyRoot(a); b = this.anyRoot(b); if (a.key === b.key) return true; if (!(this.forced.has(a.key) && this.forced.has(b.key)) && a.json && b.json) { const r = this.sameAny(a, b); if (r !== null) return r; } }
    a = this.force(a); b = this.force(b);
    if (a === b) return !(typeof a === "number" && Number.isNaN(a));
    const ta = this.typeOf(a), tb = this.typeOf(b);
    if (isT(a) || isT(b)) {
      if (isT(a) && a.sort === "Val" || isT(b) && b.sort === "Val") { const ia = isT(a) ? a : a instanceof JObj ? a.ident : null, ib = isT(b) ? b : b instanceof JObj ? b.ident : null; return ia && ib ? this.lower(S.eq(ia, ib)) : false; }
      if (ta !== tb) return false;
      if (typeof a === "number" && !Number.isFinite(a)) return false; if (typeof b === "number" && !Number.isFinite(b)) return false;
      return this.lower(S.eq(this.lift(a), this.lift(b)));
    }
    if (a instanceof JObj && b instanceof JObj && a.ident && b.ident) return this.lower(this.identEq(a.ident, b.ident));
    if (isObjV(a) || isObjV(b)) return false;
    return a === b;
  }
  identEq(x, y) { // distinct inputs are distinct objects; results of opaque functions may alias anything
    if (x === y) return S.TRUE;
    const nm = (t) => t.val; const opaque = (t) => this.aliasNames.has(nm(t));
    if (nm(x) !== nm(y) && !opaque(x) && !opaque(y)) return S.FALSE;
    if (nm(x) === nm(y) && x.args.length && x.args.length === y.args.length && !opaque(x)) return S.and(...x.args.map((a, i) => S.eq(a, y.args[i])));
    return S.eq(x, y);
  }
  looseEqNull(v) { v = this.force(v); return v === undefined || v === null; }
  *looseEq(a, b) {
    a = this.force(a); b = this.force(b);
    if (a === null || a === undefined) return b === null || b === undefined;
    if (b === null || b === undefined) return false;
    if (this.typeOf(a) === this.typeOf(b)) return this.strictEq(a, b);
    unsupported("loose equality between different types");
  }
  makeError(cls, msg) { const C = this.globals.get(cls).v; const e = new JObj(C.props.get("prototype").value); e.cls = cls; e.isError = true; this.rawSet(e, "message", msg, true); this.rawSet(e, "stack", this.fresh("stack", "String"), true); return e; }
  throwError(cls, msg) { throw new JThrow(this.makeError(cls, msg)); }
  rawSet(o, k, v, hidden) { o.props.set(k, { value: v, enumerable: !hidden }); }
  isNum(v) { return typeof v === "number" || (isT(v) && (v.sort === "Int" || v.sort === "Real")); }
  isStr(v) { return typeof v === "string" || (isT(v) && v.sort === "String"); }
  isBool(v) { return typeof v === "boolean" || (isT(v) && v.sort === "Bool"); }

  *toStr(v) {
    v = this.force(v);
    if (typeof v === "string") return v;
    if (isT(v)) {
      if (v.sort === "String") return v;
      if (v.sort === "Bool") return this.lower(S.ite(v, S.str("true"), S.str("false")));
      if (v.sort === "Int") return this.lower(S.intToStr(v));
      if (v.sort === "Real") { if (v.op === "to_real") return S.intToStr(v.args[0]); const t = S.uf("num2str", "String", [v]); this.fact(S.not(S.eq(t, S.str("")))); return t; }
      return S.uf("val2str", "String", [v]);
    }
    if (v instanceof JSymbol) this.throwError("TypeError", "Cannot convert a Symbol value to a string");
    if (v instanceof JObj) {
      const f = yield* this.get(v, "toString"); if (f instanceof JFn) { const r = yield* this.call(f, v, []); return yield* this.toStr(r); }
      return "[object Object]";
    }
    return String(v);
  }
  *toNum(v) {
    v = this.force(v);
    if (this.isNum(v)) return v;
    if (typeof v === "bigint") return unsupported("bigint to number");
    if (isT(v)) {
      if (v.sort === "Bool") return S.ite(v, S.int(1), S.int(0));
      if (v.sort === "String") { // numeric reading of a string: NaN, or some finite number
        if (v.op === "ite") return yield* this.toNum(this.branch(v.args[0]) ? v.args[1] : v.args[2]);
        if (v.op === "from_int" && this.branch(S.ge(v.args[0], S.int(0)))) return v.args[0];
        if (v.op === "concat" && v.args.length === 2 && v.args[0].op === "cs" && v.args[0].val === "-" && v.args[1].op === "from_int" && this.branch(S.ge(v.args[1].args[0], S.int(0)))) return S.neg(v.args[1].args[0]);
        if (this.branch(S.eq(v, S.str("")))) return 0;
        const digits = S.inRe(v, S.re.plus(S.re.range(48, 57)));
        if (this.branch(digits)) return S.strToInt(v);
        if (this.branch(S.uf("str2num.isNaN", "Bool", [v]))) return NaN;
        if (this.branch(S.uf("str2num.isInf", "Bool", [v]))) return this.branch(S.uf("str2num.isNeg", "Bool", [v])) ? -Infinity : Infinity;
        return S.uf("str2num", "Real", [v]);
      }
      unsupported("to number of opaque");
    }
    if (v instanceof JObj) { const p = yield* this.get(v, "valueOf"); if (p instanceof JFn && !p.isDefaultValueOf) { const r = yield* this.call(p, v, []); if (!(r instanceof JObj)) return yield* this.toNum(r); } return yield* this.toNum(yield* this.toStr(v)); }
    return Number(v);
  }
  *toKey(v) { v = this.force(v); if (v instanceof JSymbol) return v; if (typeof v === "string") return v; if (typeof v === "number") return String(v); if (isT(v) && (v.sort === "Int" || v.sort === "String")) return v; return yield* this.toStr(v); }

  // ------------------------------------------------------------ property access
  *get(o, key, recv) {
    if (o instanceof JAny) o = this.force(o);
    if (o === undefined || o === null) this.throwError("TypeError", `Cannot read properties of ${o} (reading '${typeof key === "string" ? key : "?"}')`);
    if (isT(o) && o.sort === "Val") unsupported("property of an opaque value: " + String(key));
    if (this.isStr(o)) return yield* this.getStrProp(o, key);
    if (this.isNum(o)) return yield* this.protoGet(this.P.Number, key, o);
    if (this.isBool(o)) return yield* this.protoGet(this.P.Boolean, key, o);
    if (typeof o === "bigint") return yield* this.protoGet(this.P.BigInt, key, o);
    if (o instanceof JSymbol) return key === "description" ? o.description : yield* this.protoGet(this.P.Object, key, o);
    recv = recv === undefined ? o : recv;
    for (let x = o; x; x = x.proto) {
      if (x.proxy) { const h = x.proxy.handler; const trap = yield* this.get(h, "get"); if (trap !== undefined) return yield* this.call(trap, h, [x.proxy.target, isT(key) ? yield* this.toStr(key) : key, recv]); return yield* this.get(x.proxy.target, key, recv); }
      const r = yield* this.getOwn(x, key);
      if (r) { if (r.get !== undefined || r.set !== undefined) return r.get ? yield* this.call(r.get, recv, []) : undefined; return r.value; }
    }
    return undefined;
  }
  *protoGet(p, key, recv) { for (let x = p; x; x = x.proto) { const r = yield* this.getOwn(x, key); if (r) { if (r.get) return yield* this.call(r.get, recv, []); return r.value; } } return undefined; }
  *getOwn(x, key) {
    if (typeof key === "number" && !(x instanceof JArr)) key = String(key);
    if (x.isGlobal) { const c = isT(key) ? null : this.globals.get(key); return c ? { value: yield* this.readCell(c, key) } : null; }
    if (x instanceof JArr && !(key instanceof JSymbol)) {
      if (key === "length") return { value: this.lower(this.arrLen(x)) };
      if (typeof key === "number" || (isT(key) && key.sort === "Int")) { const r = yield* this.arrAt(x, key); return r.found ? { value: r.v } : null; }
      if (typeof key === "string" && /^(0|[1-9][0-9]*)$/.test(key)) { const r = yield* this.arrAt(x, Number(key)); return r.found ? { value: r.v } : null; }
    }
    if (isT(key) && key.sort === "Int") key = this.lower(S.intToStr(key));
    if (x.layers) return yield* this.getLayered(x, key);
    if (isT(key)) { // symbolic string key: fork over the known own keys
      for (const k of x.props.keys()) { if (typeof k !== "string") continue; if (this.branch(S.eq(key, S.str(k)))) return x.props.get(k); }
      return null;
    }
    return x.props.get(key) ?? null;
  }
  *getLayered(x, key) {
    if (key instanceof JSymbol) return x.props.get(key) ?? null;
    const kt = this.lift(key);
    for (let n = x.layers.length - 1; n >= 0; n--) {
      const L = x.layers[n];
      if (L.props) { for (const k of [...L.props.keys()].reverse()) { if (typeof k === "string" ? (isT(key) ? this.branch(S.eq(kt, S.str(k))) : k === key) : this.branch(S.eq(kt, k))) { const d = L.props.get(k); return d === DELETED ? null : d; } } }
      else for (let s = L.dict.length - 1; s >= 0; s--) {
        const r = yield* this.findIn(L.dict[s], (pair, I) => I.strictEq(pair.segs[0].v, key), "last", kt.id + ":" + (L.dict[s].sid ??= this.counter++));
        if (r.found) return { value: r.v.segs[1].v };
      }
    }
    return null;
  }
  *hasProp(o, key) { o = this.force(o); for (let x = o; x; x = x.proto) if (yield* this.getOwn(x, key)) return true; return false; }
  *set(o, key, v) {
    if (o instanceof JAny) o = this.force(o);
    if (o === undefined || o === null) this.throwError("TypeError", `Cannot set properties of ${o}`);
    if (!(o instanceof JObj)) return;
    if (o.proxy) { const h = o.proxy.handler; const trap = yield* this.get(h, "set"); if (trap !== undefined) { yield* this.call(trap, h, [o.proxy.target, key, v, o]); return; } return yield* this.set(o.proxy.target, key, v); }
    if (o.isGlobal) { const c = this.globals.get(key); if (c) this.setCell(c, v); else { const n = new Cell(v); this.memoSet(this.globals, key, n); } return; }
    if (o.frozen) this.throwError("TypeError", "Cannot assign to read only property");
    if (isT(key)) key = this.lower(key); if (typeof key === "number") key = String(key);
    if (o instanceof JArr && !(key instanceof JSymbol)) {
      if (key === "length") { if (v === 0) { this.setSegs(o, []); return; } unsupported("array length assignment"); }
      if (typeof key === "string" && /^(0|[1-9][0-9]*)$/.test(key)) { const i = Number(key); if (o.segs.every((s) => s.k === "el")) { if (i < o.segs.length) { const n = [...o.segs]; n[i] = el(v); this.setSegs(o, n); return; } if (i <= o.segs.length + 1000) { const n = [...o.segs]; while (n.length < i) n.push(el(undefined)); n.push(el(v)); this.setSegs(o, n); return; } } unsupported("store into a symbolic array"); }
      if (isT(key)) return yield* this.arrStore(o, key, v);
    }
    if (o instanceof JAny) unsupported("store into opaque");
    for (let x = o; x; x = x.proto) { if (x.layers) break; const d = typeof key === "string" || key instanceof JSymbol ? x.props.get(key) : null; if (d) { if (d.set) { yield* this.call(d.set, o, [v]); return; } if (d.get) this.throwError("TypeError", "Cannot set property which has only a getter"); if (d.readonly) { if (x === o) this.throwError("TypeError", "Cannot assign to read only property"); } break; } }
    if (key === "__proto__" && !o.layers && !o.props.has("__proto__")) { if (v instanceof JObj || v === null) this.setField(o, "proto", v); return; }
    if (isT(key) && key.sort === "String" && o.proto !== null && this.branch(S.eq(key, S.str("__proto__")))) { let own = false; for (const L of o.layers ?? []) if (L.props?.has("__proto__")) own = true; if (!own) { if (o.layers?.some((L) => !L.props)) { v = this.force(v); unsupported("__proto__ assigned on a dictionary"); } if (v instanceof JObj || v === null) this.setField(o, "proto", v); return; } key = "__proto__"; }
    if (o.layers) { this.layerSet(o, key, v); return; }
    if (isT(key)) { // symbolic key: known-equal keys are overwritten, otherwise the object becomes layered
      for (const k of o.props.keys()) if (typeof k === "string" && this.branch(S.eq(key, S.str(k)))) { this.setProp(o, k, { ...o.props.get(k), value: v }); return; }
      this.makeLayered(o); this.layerSet(o, key, v); return;
    }
    const d = o.props.get(key); this.setProp(o, key, d ? { ...d, value: v } : { value: v, enumerable: true });
  }
  makeLayered(o) { if (o.layers) return; const m = new Map(); for (const [k, d] of o.props) if (!(k instanceof JSymbol)) m.set(k, d); this.setField(o, "layers", [{ props: m }]); }
  layerSet(o, key, v) { const L = o.layers, last = L[L.length - 1]; if (last && last.props) { const m = new Map(last.props); m.set(key, { value: v, enumerable: true }); this.setField(o, "layers", [...L.slice(0, -1), { props: m }]); } else this.setField(o, "layers", [...L, { props: new Map([[key, { value: v, enumerable: true }]]) }]); }
  *del(o, key) {
    o = this.force(o); if (!(o instanceof JObj)) return true; if (isT(key)) key = this.lower(key); if (typeof key === "number") key = String(key);
    if (o.proxy) { const trap = yield* this.get(o.proxy.handler, "deleteProperty"); if (trap !== undefined) return yield* this.call(trap, o.proxy.handler, [o.proxy.target, key]); return yield* this.del(o.proxy.target, key); }
    if (o.layers) { const L = o.layers, last = L[L.length - 1]; if (last && last.props) { const m = new Map(last.props); m.delete(key); m.set(key, DELETED); this.setField(o, "layers", [...L.slice(0, -1), { props: m }]); } else this.setField(o, "layers", [...L, { props: new Map([[key, DELETED]]) }]); return true; }
    if (o.isGlobal) { if (this.globals.has(key)) { const old = this.globals.get(key); this.trail.push({ kind: "memo", birth: Infinity, undo: () => { this.globals.set(key, old); }, cur: () => 0 }); this.globals.delete(key); } return true; }
    if (isT(key)) { for (const k of o.props.keys()) if (typeof k === "string" && this.branch(S.eq(key, S.str(k)))) { this.setProp(o, k, null); return true; } return true; }
    if (o.props.has(key)) this.setProp(o, key, null); return true;
  }
  // enumerable own [key,value] pairs as segments of 2-arrays
  *entrySegs(o) {
    o = this.force(o);
    if (this.isStr(o)) { if (typeof o === "string") return [...o].map((c, i) => el(this.arr([String(i), c]))); unsupported("entries of symbolic string"); }
    if (o === null || o === undefined) this.throwError("TypeError", "Cannot convert undefined or null to object");
    if (!(o instanceof JObj)) return [];
    if (o instanceof JArr) { if (o.segs.every((s) => s.k === "el")) return o.segs.map((s, i) => el(this.arr([String(i), s.v]))); unsupported("entries of a symbolic array"); }
    const getv = function* (d) { return d.get !== undefined ? yield* this.call(d.get, o, []) : d.value; }.bind(this);
    if (!o.layers) { const out = []; const keys = [...o.props.keys()].filter((k) => typeof k === "string" && o.props.get(k).enumerable); const ints = keys.filter((k) => /^(0|[1-9][0-9]*)$/.test(k)).sort((a, b) => a - b); for (const k of [...ints, ...keys.filter((k) => !ints.includes(k))]) out.push(el(this.arr([k, yield* getv(o.props.get(k))]))); return out; }
    // layered: supported when no later layer can override an earlier key
    let out = []; const L = o.layers.filter((l) => l.dict || l.props.size);
    for (let n = 0; n < L.length; n++) {
      const l = L[n];
      if (l.props) { // keys of a props layer override earlier ones
        for (const [k, d] of l.props) {
          const prev = out; out = [];
          let placed = false;
          for (const s of prev) {
            if (s.k === "el") { const same = this.branch(S.eq(this.lift(s.v.segs[0].v), this.lift(k))); if (same) { if (d !== DELETED) out.push(el(this.arr([k, d.value]))); placed = true; } else out.push(s); }
            else if (d === DELETED) out.push(this.mapSeg(s, (pair, I) => I.branch(I.lift(I.strictEq(pair.segs[0].v, k))) ? [] : [pair], false));
            else { const r = yield* this.findIn(s, (pair, I) => I.strictEq(pair.segs[0].v, k), "any", this.lift(k).id + ":ovr:" + (s.sid ??= this.counter++)); if (r.found) { out.push(this.mapSeg(s, (pair, I) => [I.branch(I.lift(I.strictEq(pair.segs[0].v, k))) ? I.arr([pair.segs[0].v, d.value]) : pair], true)); placed = true; } else out.push(s); }
          }
          if (!placed && d !== DELETED) out.push(el(this.arr([k, d.value])));
        }
      } else if (out.length === 0) out = [...l.dict];
      else { // dict over known keys: an earlier key present in the dict takes the dict's value
        const later = l.dict; const kept = [];
        for (const s of out) { if (s.k !== "el") unsupported("merging two symbolic dictionaries"); let inDict = false; for (const ds of later) { const r = yield* this.findIn(ds, (pair, I) => I.strictEq(pair.segs[0].v, s.v.segs[0].v), "any", "mrg" + this.lift(s.v.segs[0].v).id + (ds.sid ??= this.counter++)); if (r.found) inDict = true; } if (!inDict) kept.push(s); else unsupported("key order of merged dictionaries"); }
        out = [...kept, ...later];
      }
    }
    return out;
  }
  mapSeg(s, f, exact) { // f: (value, I) -> array of outputs (may fork, may be generator)
    const I = this;
    const g = function* (v) { let r = f(v, I); if (r && typeof r.next === "function") r = yield* r; return r; };
    if (s.k === "el") unsupported("mapSeg on element");
    return { k: "fm", base: s.base, exact: s.exact && exact, f: function* (i) { const out = []; for (const v of yield* s.f(i)) out.push(...(yield* g(v))); return out; } };
  }
  arr(vs) { return new JArr(this.P.Array, vs.map(el)); }
  obj(o = {}) { const r = new JObj(this.P.Object); for (const k of Object.keys(o)) this.rawSet(r, k, o[k]); return r; }
  fn(name, native) { const f = new JFn(this.P.Function); f.native = native; f.name = name; f.birth = 0; return f; }

  // ------------------------------------------------------------ arrays
  segLen(s) {
    if (s.k === "el") return S.int(1);
    if (s.exact) return s.base.len;
    if (!s.lenT) { s.lenT = this.fresh("cnt", "Int"); s.srcName = `src!${this.counter++}`; }
    this.fact(S.and(S.ge(s.lenT, S.int(0)), s.multi ? S.TRUE : S.le(s.lenT, s.base.len)));
    return s.lenT;
  }
  arrLen(a) { return S.add(...a.segs.map((s) => this.segLen(s)), S.int(0)); }
  *segAt(s, rel) { // rel in range
    if (s.k === "el") return s.v;
    if (s.exact) { const r = yield* s.f(rel); if (r.length !== 1) unsupported("segment marked exact produced " + r.length); return r[0]; }
    if (s.multi) unsupported("index into a flattened sequence");
    this.segLen(s);
    const j = S.uf(s.srcName, "Int", [rel]);
    this.fact(S.and(S.ge(j, S.int(0)), S.lt(j, s.base.len), S.ge(j, rel)));
    const r = yield* s.f(j); if (r.length === 0) throw new PathAbort(); return r[0];
  }
  *arrAt(a, i) {
    if (this.cursors) for (let k = this.cursors.length - 1; k >= 0; k--) { const c = this.cursors[k]; if (c.a === a && c.segs === a.segs && c.i === i) return { found: true, v: c.v }; }
    if (typeof i === "number") {
      if (i < 0 || !Number.isInteger(i)) return { found: false };
      if (i < a.segs.length && a.segs.slice(0, i + 1).every((s) => s.k === "el")) return { found: true, v: a.segs[i].v };
      if (a.segs.every((s) => s.k === "el")) return { found: false };
    }
    let rel = this.lift(i);
    if (rel.sort === "Real") { const r2 = S.toInt(rel); if (!this.branch(S.eq(S.toReal(r2), rel))) return { found: false }; rel = r2; }
    if (typeof i !== "number" && !this.branch(S.ge(rel, S.int(0)))) return { found: false };
    for (const s of a.segs) {
      const L = this.segLen(s);
      if (this.branch(S.lt(rel, L))) { if (S.isConst(rel) === false && s.k === "fm") this.skolem(s.base, rel); return { found: true, v: yield* this.segAt(s, rel) }; }
      rel = S.sub(rel, L);
    }
    return { found: false };
  }
  *arrStore(o, idx, v) { // a[i] = v with symbolic i: fork over known positions
    if (o.segs.every((s) => s.k === "el")) {
      for (let n = 0; n < o.segs.length; n++) if (this.branch(S.eq(idx, S.int(n)))) { const c = [...o.segs]; c[n] = el(v); this.setSegs(o, c); return; }
      if (this.branch(S.eq(idx, S.int(o.segs.length)))) { this.setSegs(o, [...o.segs, el(v)]); return; }
    } else if (this.entailed(S.eq(idx, this.arrLen(o))) === true) { this.setSegs(o, [...o.segs, el(v)]); return; }
    unsupported("store at a symbolic index");
  }
  // merged evaluation of a pure callback: a single term instead of forked paths (null when not possible)
  *merged(gen, guard = S.TRUE) {
    let rs; const I = this, b0 = birth;
    const gf = (c) => I.fact(S.implies(guard, c));
    try { rs = yield* this.sub(function* () { I.assume(guard); return yield* gen(); }); } catch (e) { if (e instanceof Unsupported && /too many/.test(e.message)) return null; throw e; }
    if (rs.length === 0) { if (guard !== S.TRUE) { gf(S.FALSE); return { v: S.TRUE }; } throw new PathAbort(); }
    if (rs.some((r) => !r.ok || r.writes.length)) return null;
    const vals = rs.map((r) => r.v);
    if (vals.every((v) => v === vals[0]) && (isPrim(vals[0]) || vals[0].birth < b0)) { gf(S.or(...rs.map((r) => S.and(...r.pc)))); return { v: vals[0] }; }
    if (!vals.every((v) => isPrim(v) && v !== undefined && v !== null && typeof v !== "bigint" && !(typeof v === "number" && !Number.isFinite(v)))) return null;
    const ty = this.typeOf(vals[0]); if (!vals.every((v) => this.typeOf(v) === ty)) return null;
    // facts introduced under a path are implied by that path's decisions only; keep them as guarded facts
    let t = this.lift(vals[vals.length - 1]);
    for (let i = vals.length - 2; i >= 0; i--) t = S.ite(S.and(...rs[i].pc), this.lift(vals[i]), t);
    gf(S.or(...rs.map((r) => S.and(...r.pc))));
    return { v: this.lower(t) };
  }
  // condition of a callback as a Bool term without committing the path
  *condTerm(gen) {
    const I = this; const m = yield* this.merged(function* () { const v = yield* gen(); const t = I.truthy(v); return typeof t === "boolean" ? t : t; });
    if (m) return this.lift(m.v);
    const v = yield* gen(); const t = this.truthy(v); return typeof t === "boolean" ? S.bool(t) : t;
  }
  // find an element of a segment satisfying pred; mode first/last/any. Decides presence; absence becomes a universal fact.
  *findIn(s, pred, mode, memoKey) {
    const I = this;
    const P = this.captured(function* (v, i) { let r = pred(v, I, i); if (r && typeof r.next === "function") r = yield* r; return r; });
    if (s.k === "el") { const c = yield* P(s.v, S.int(0)); return this.test(c) ? { found: true, v: s.v, idx: S.int(0) } : { found: false }; }
    const mk = memoKey ? "find:" + mode + memoKey : null;
    if (mk && this.memo.has(mk)) return this.memo.get(mk);
    const hit = function* (i) { // Bool term: some output of index i satisfies pred
      return yield* I.condTerm(function* () { for (const v of yield* s.f(i)) { if (I.test(yield* P(v, i))) return true; } return false; });
    };
    const j = this.fresh("hit", "Int");
    let res;
    const some = this.fresh("some", "Bool");
    if (s.base.len === S.int(0)) { res = { found: false }; }
    else if (this.branchAlways(some)) {
      this.assume(S.and(S.ge(j, S.int(0)), S.lt(j, s.base.len))); this.skolem(s.base, j);
      let out = null; for (const v of yield* s.f(j)) { if (this.test(yield* P(v, j))) { out = { v }; break; } }
      if (!out) throw new PathAbort();
      if (mode === "first") this.addUniv(s.base, (i) => S.lt(i, j), function* (i) { return S.not(yield* hit(i)); });
      if (mode === "last") this.addUniv(s.base, (i) => S.and(S.gt(i, j), S.lt(i, s.base.len)), function* (i) { return S.not(yield* hit(i)); });
      res = { found: true, v: out.v, idx: j };
    } else {
      this.addUniv(s.base, (i) => S.lt(i, s.base.len), function* (i) { return S.not(yield* hit(i)); });
      res = { found: false };
    }
    if (mk) this.memoSet(this.memo, mk, res);
    return res;
  }
  branchAlways(b) { return this.branch(b); }
  *iterSegs(v) { // the segments an iterable yields
    v = this.force(v);
    if (v instanceof JArr) return yield* this.knownSegs(v.segs);
    if (typeof v === "string") return [...v].map(el);
    if (isT(v) && v.sort === "String") return [this.charSeg(v)];
    if (v instanceof JMap) {
      return v.store.segs;
    }
    if (v instanceof JObj) {
      const m = yield* this.get(v, this.symbols.iterator);
      if (m instanceof JFn) {
        const it = yield* this.call(m, v, []);
        if (it instanceof JArr) return it.segs;
        if (it.iterSegs) return it.iterSegs;
        const out = []; const nx = yield* this.get(it, "next");
        for (let n = 0; n < 2000; n++) { const r = yield* this.call(nx, it, []); if (this.test(yield* this.get(r, "done"))) return out; out.push(el(yield* this.get(r, "value"))); }
        unsupported("unbounded iterator");
      }
    }
    this.throwError("TypeError", "object is not iterable");
  }
  charSeg(s) { const key = "chars:" + s.id; let b = this.memo.get(key); if (!b) { b = this.newBase("chars", S.strlen(s), (i) => S.at(s, i)); b.charsOf = s; this.memoSet(this.memo, key, b); } return this.rawSeg(b); }

  // ------------------------------------------------------------ loops over sequences
  // body: function*(value, indexTerm) -> completion. Returns a completion (NORMAL, brk, ret) or throws JThrow.
  // the elements of sequences whose length the path has fixed
  *knownSegs(segs) {
    if (!segs.some((s) => s.raw && s.base.splitOf)) return segs;
    const out = [];
    for (const s of segs) {
      let n; if (s.raw && s.base.splitOf) for (let k = 1; k <= 6 && n === undefined; k++) if (this.pc.includes(S.eq(s.base.len, S.int(k)))) n = k;
      if (n === undefined) out.push(s); else for (let i = 0; i < n; i++) out.push(el(yield* this.baseGet(s.base, S.int(i))));
    }
    return out;
  }
  *loopSegs(segs, body) {
    let off = S.int(0);
    for (const s of yield* this.knownSegs(segs)) {
      if (s.k === "el") { const c = yield* body(s.v, off); const r = loopCompletion(c); if (r) return r === "break" ? NORMAL : r; off = S.add(off, S.int(1)); }
      else { const o = off; const r = yield* this.symLoop(s, body, o); if (r) return r === "break" ? NORMAL : r; off = S.add(off, this.segLen(s)); }
    }
    return NORMAL;
  }
  *symLoop(s, body, off) {
    const I = this, b = s.base;
    if (b.len === S.int(0)) return null;
    if (S.isConst(b.len) && S.constVal(b.len) <= 16) { for (let n = 0; n < S.constVal(b.len); n++) for (const v of yield* s.f(S.int(n))) { const r = loopCompletion(yield* body(v, s.exact ? S.add(off, S.int(n)) : null, S.int(n))); if (r) return r; } return null; }
    const onceAt = function* (i) { // one iteration at source index i
      for (const v of yield* s.f(i)) { const c = yield* body(v, s.exact ? S.add(off, i) : null, i); const r = loopCompletion(c); if (r) return { exit: r }; }
      return { exit: null };
    };
    return yield* this.inductiveLoop(b, onceAt);
  }
  // Summarise  for (i = 0; i < len(b); i++) onceAt(i)
  captured(f) { // a generator function that always runs under the contracts in force now
    const I = this, rec = this.recursion, rep = this.replacements; if (!rec && !rep) return f;
    const rec2 = rec && !rec.always && this.stack.includes(rec.node) ? { ...rec, always: true } : rec;
    return function* (...a) { const r0 = I.recursion, p0 = I.replacements; I.recursion = rec2; I.replacements = rep; try { return yield* f(...a); } finally { I.recursion = r0; I.replacements = p0; } };
  }
  *inductiveLoop(b, onceAt) {
    const I = this; onceAt = this.captured(onceAt);
    const inRange = (i) => S.and(S.ge(i, S.int(0)), S.lt(i, b.len));
    const run = function* (i, prep) { return yield* I.sub(function* () { I.assume(inRange(i)); I.skolem(b, i); if (prep) prep(); return yield* onceAt(i); }); };
    // phase A: discover what the body writes, iterating until the written set is stable
    const k0 = this.fresh("k", "Int");
    const W = new Map(); // location key -> info
    const locKey = (w) => w.kind === "cell" ? w.target : w.kind === "segs" ? w.target : w.kind === "prop" ? `${w.target.birth}.${typeof w.key === "string" ? w.key : w.key.description}` : `${w.target.birth ?? "?"}#${w.field}`;
    let results, generic = new Map(), prep = null; const disc0 = this.discovering; this.discovering = true;
    for (let round = 0; ; round++) {
      if (round > 5) unsupported("loop write set does not stabilise");
      results = yield* run(k0, prep);
      if (results.length === 0) { this.discovering = disc0; return null; } // no feasible iteration
      let grew = false;
      for (const r of results) for (const w of this.lastWrites(r.writes)) { const k = locKey(w); if (!W.has(k)) { W.set(k, { ...w }); grew = true; } }
      if (!grew && round > 0) break;
      if (W.size === 0) break;
      // generic pre-state: every written location holds an arbitrary value of the same shape
      for (const [k, w] of W) if (!generic.has(k)) generic.set(k, this.genericValue(w));
      prep = () => { for (const [k, w] of W) this.putLoc(w, generic.get(k).value(k0)); };
    }
    this.discovering = disc0;
    const normal = results.filter((r) => r.ok && !r.v.exit), exits = results.filter((r) => !r.ok || r.v.exit);
    if (W.size === 0 && exits.length === 0) return null;
    // classify writes
    for (const [k, w] of W) {
      const g = generic.get(k); const news = normal.map((r) => { const ws = this.lastWrites(r.writes).filter((x) => locKey(x) === k); return ws.length ? ws[ws.length - 1].now : g.value(k0); });
      w.cls = this.classify(w, g, news, normal);
    }
    // second pass for counters: re-express the generic value as v0 + c*k and re-run the classification of the others
    let changed = false;
    for (const [k, w] of W) if (w.cls.t === "count") { const v0 = this.lift(w.old), c = w.cls.c; generic.set(k, { value: (i) => S.add(v0, S.mul(c, i)) }); changed = true; }
      else if (w.cls.t === "assign") { const C = w.cls; generic.set(k, { value: () => w.old, alt: C }); }
    // assign-type locations: the pre-state holds either the old value or one assigned by an earlier iteration
    const assigns = [...W].filter(([, w]) => w.cls.t === "assign");
    const prep2at = (i) => () => {
      for (const [k, w] of W) {
        if (w.cls.t === "count") this.putLoc(w, this.lower(generic.get(k).value(i)));
        else if (w.cls.t === "append") this.putLoc(w, [...w.base0, this.prefixOpaque(w, i)]);
        else if (w.cls.t === "concat" || w.cls.t === "sum") this.putLoc(w, this.fresh("acc", this.typeOf(w.old) === "string" ? "String" : "Int"));
        else if (w.cls.t === "assign") { if (w.cls.konst) { if (this.choose(2)) this.putLoc(w, w.cls.value); else this.putLoc(w, w.old); } else this.putLoc(w, POISON); }
        else if (w.cls.t === "dict") this.putLoc(w, [...(w.layers0 ?? []), this.prefixOpaqueDict()]);
      }
    };
    for (const [, w] of W) { if (w.cls.t === "append") w.base0 = w.old; if (w.cls.t === "dict") w.layers0 = w.old ?? null; }
    if (changed || assigns.length || [...W.values()].some((w) => w.cls.t !== "none")) {
      const chk = yield* run(k0, prep2at(k0));
      const nrm = chk.filter((r) => r.ok && !r.v.exit);
      exits.length = 0; exits.push(...chk.filter((r) => !r.ok || r.v.exit));
      for (const [k, w] of W) this.verifyClass(k, w, nrm, locKey, generic, k0, prep2at);
      for (const r of chk) for (const w of this.lastWrites(r.writes)) if (!W.has(locKey(w))) unsupported("loop writes a new location under its generic state");
    }
    // outputs of an iteration for location w (evaluated on demand at any index)
    const outputsAt = (w, k, pick) => function* (i) {
      const mark = I.trail.length, b0 = birth;
      I.skolem(b, i);
      prep2at(i)();
      const before = w.kind === "segs" ? w.target.segs : w.kind === "cell" ? w.target.v : null;
      const t1 = I.trail.length;
      let r; r = yield* onceAt(i);
      if (r.exit) throw new PathAbort();
      const res = pick(before);
      I.undoKeepMemo(mark, b0);
      return res;
    };
    const apply = (base) => { // effect of all iterations over `base` (b itself or a prefix of it)
      for (const [k, w] of W) {
        const c = w.cls;
        if (c.t === "none") continue;
        if (c.t === "count") this.putLoc(w, this.lower(S.add(this.lift(w.old), S.mul(c.c, base.len))));
        else if (c.t === "append") {
          const seg = { k: "fm", base, exact: c.exact, multi: c.multi, f: outputsAt(w, k, (before) => w.target.segs.slice(before.length).map((x) => { if (x.k !== "el") unsupported("nested symbolic append"); return x.v; })) };
          this.putLoc(w, [...w.old, seg]);
        } else if (c.t === "dict") {
          const seg = { k: "fm", base, exact: c.exact, f: outputsAt(w, k, () => { const L = w.target.layers; const last = L[L.length - 1]; return last.props ? [...last.props].map(([kk, d]) => I.arr([kk, d.value])) : []; }) };
          const old = w.old ?? [{ props: new Map([...w.target.props].filter(([kk]) => !(kk instanceof JSymbol))) }];
          this.putLoc(w, [...old, { dict: [seg] }]);
        } else if (c.t === "concat" || c.t === "sum") {
          const isS = c.t === "concat";
          const v = this.foldTerm(isS ? "concat" : "sum", base, function* (i) { const r = yield* I.merged(function* () { return (yield* outputsAt(w, k, (before) => { const d = isS ? I.strSuffix(I.lift(w.target.v ?? w.cur()), I.lift(before)) : S.sub(I.lift(w.cur()), I.lift(before)); if (d === null) unsupported("accumulator"); return d; })(i)); }); if (!r) unsupported("accumulator step"); return I.lift(r.v); }, isS ? "String" : c.sort);
          this.putLoc(w, this.lower(isS ? S.concat(this.lift(w.old), v) : S.add(this.lift(w.old), v)));
        }
      }
    };
    const assignAfter = function* (base, bound) { // final value of assign-type locations after the iterations over base
      for (const [k, w] of assigns) {
        const hitAt = function* (i) { return yield* I.condTerm(function* () { const m = I.trail.length, b0 = birth; I.skolem(b, i); prep2at(i)(); I.putLoc(w, w.cls.konst ? w.old : POISON); const r = yield* onceAt(i); if (r.exit) throw new PathAbort(); const now = w.cls.konst ? w.cls.same(w.read()) : w.read() !== POISON; I.undoKeepMemo(m, b0); return now; }); };
        if (I.branch(I.fresh("assigned", "Bool"))) {
          const j = I.fresh("aj", "Int"); I.assume(S.and(S.ge(j, S.int(0)), S.lt(j, base.len))); I.skolem(b, j);
          const m = I.trail.length, b0 = birth; prep2at(j)(); I.putLoc(w, w.cls.konst ? w.old : POISON);
          const r = yield* onceAt(j); if (r.exit) throw new PathAbort();
          const now = w.read(); const hit = w.cls.konst ? w.cls.same(now) : now !== POISON; I.undoKeepMemo(m, b0);
          if (!hit) throw new PathAbort();
          if (!w.cls.konst) I.addUniv(b, (i) => S.and(S.gt(i, j), S.lt(i, base.len)), function* (i) { return S.not(yield* hitAt(i)); });
          I.putLoc(w, now);
        } else { I.addUniv(b, (i) => S.lt(i, base.len), function* (i) { return S.not(yield* hitAt(i)); }); I.putLoc(w, w.old); }
      }
    };
    const exitAt = function* (i) { return yield* I.condTerm(function* () { const m = I.trail.length, b0 = birth; I.skolem(b, i); prep2at(i)(); let e; try { const r = yield* onceAt(i); e = !!r.exit; } catch (x) { if (!(x instanceof JThrow)) throw x; e = true; } I.undoKeepMemo(m, b0); return e; }); };
    if (exits.length && this.branch(this.fresh("exits", "Bool"))) {
      const j = this.fresh("ej", "Int"); this.assume(inRange(j)); this.skolem(b, j);
      this.addUniv(b, (i) => S.lt(i, j), function* (i) { return S.not(yield* exitAt(i)); });
      const pre = this.newBase(b.name + "<", j, (i) => b.getter(i)); pre.parent = b; pre.univ = []; pre.alias = b;
      pre.getter = function* (i) { return yield* I.baseGet(b, i); };
      apply(pre); yield* assignAfter(pre, j);
      const r = yield* onceAt(j); // may throw: that is the loop's outcome
      if (!r.exit) throw new PathAbort();
      return r.exit;
    }
    if (exits.length) this.addUniv(b, (i) => S.lt(i, b.len), function* (i) { return S.not(yield* exitAt(i)); });
    apply(b); yield* assignAfter(b, b.len);
    return null;
  }
  undoKeepMemo(mark, b0) { // undo writes to objects older than b0; keep memoised facts and the contents of newer objects
    const keep = []; while (this.trail.length > mark) { const w = this.trail.pop(); if (w.kind === "memo" || w.birth >= b0) keep.push(w); else w.undo(); } this.trail.push(...keep.reverse());
  }
  strSuffix(now, before) { if (now === before) return S.str(""); if (now.op === "concat") { if (before.op === "concat") { const n = before.args.length; if (now.args.length >= n && before.args.every((a, i) => a === now.args[i])) return S.concat(...now.args.slice(n)); return null; } if (now.args[0] === before) return S.concat(...now.args.slice(1)); } return null; }
  foldTerm(kind, base, f, sort) { const t = this.fresh("fold_" + kind, sort); this.memoSet(this.folds, t, { kind, base, f }); return t; }
  prefixOpaque(w, i) { const I = this; const nb = { k: "fm", base: this.newBase("prefix", i, () => unsupported("reading an accumulator inside its own loop")), exact: w.cls?.exact ?? false, multi: w.cls?.multi, opaque: true, f: function* () { unsupported("reading an accumulator inside its own loop"); } }; return nb; }
  prefixOpaqueDict() { const nb = { k: "fm", base: this.newBase("prefixd", this.fresh("pl", "Int"), () => unsupported("reading a dictionary accumulator inside its own loop")), exact: false, opaque: true, f: function* () { unsupported("reading a dictionary accumulator inside its own loop"); } }; return { dict: [nb] }; }
  lastWrites(ws) { const m = new Map(); for (const w of ws) { if (w.kind === "memo") continue; const k = w.kind + ":" + (w.kind === "prop" ? (typeof w.key === "string" ? w.key : "sym") : w.field ?? ""); let mm = m.get(w.target); if (!mm) m.set(w.target, (mm = new Map())); if (!mm.has(k)) mm.set(k, w); } return [...m.values()].flatMap((x) => [...x.values()]); }
  putLoc(w, v) {
    if (w.kind === "cell") this.setCell(w.target, v); else if (w.kind === "segs") this.setSegs(w.target, v);
    else if (w.kind === "prop") { const d = w.target.props.get(w.key); if (v === ABSENT) this.setProp(w.target, w.key, null); else this.setProp(w.target, w.key, { ...(d ?? { enumerable: true }), value: v }); }
    else this.setField(w.target, w.field, v);
    w.read = () => w.kind === "cell" ? w.target.v : w.kind === "segs" ? w.target.segs : w.kind === "prop" ? (w.target.props.get(w.key)?.value) : w.target[w.field];
  }
  genericValue(w) {
    const old = w.kind === "prop" ? (w.had ? w.old.value : ABSENT) : w.old;
    if (w.kind === "prop") { w.oldDesc = w.old; w.old = old; }
    if (w.kind === "segs") return { value: (i) => [...old, this.prefixOpaque(w, i)] , base: old };
    if (w.kind === "field" && w.field === "layers") return { value: () => [...(old ?? [{ props: new Map([...w.target.props].filter(([k]) => !(k instanceof JSymbol))) }]), this.prefixOpaqueDict()] };
    if (this.isNum(old) && !(typeof old === "number" && !Number.isFinite(old))) { const t = this.fresh("g", isT(old) ? old.sort : Number.isInteger(old) ? "Int" : "Real"); return { value: () => t, prim: true }; }
    if (this.isStr(old)) { const t = this.fresh("g", "String"); return { value: () => t, prim: true }; }
    if (this.isBool(old)) { const t = this.fresh("g", "Bool"); return { value: () => t, prim: true }; }
    return { value: () => old, fixed: true };
  }
  classify(w, g, news, normal) {
    if (w.kind === "segs") {
      let exact = true, multi = false; const base = g.base;
      for (const n of news) { const gl = base.length + 1; if (n.length < gl || !n.slice(0, base.length).every((s, i) => s === base[i])) unsupported("loop rewrites an array other than by appending"); const add = n.length - gl; if (add !== 1) exact = false; if (add > 1) multi = true; }
      return { t: "append", exact, multi };
    }
    if (w.kind === "field") {
      if (w.field === "layers") { let exact = true; for (const n of news) { const last = n[n.length - 1]; if (!last.props || last.props.size !== 1) exact = false; } return { t: "dict", exact }; }
      unsupported("loop writes internal field " + w.field);
    }
    const before = g.value(null);
    if (w.kind === "prop") news = news.map((d) => (d && typeof d === "object" && "enumerable" in d && !(d instanceof JObj) ? d.value : d));
    if (news.every((n) => n === before)) return { t: "none" };
    if (g.prim && isT(before) && before.sort !== "Bool") {
      if (before.sort === "String") { if (news.every((n) => this.strSuffix(this.lift(n), before) !== null)) return { t: "concat" }; }
      else {
        const ds = news.map((n) => this.isNum(n) && !(typeof n === "number" && !Number.isFinite(n)) ? S.sub(this.lift(n), before) : null);
        const indep = (d) => d && !mentions(d, before);
        if (ds.every((d) => d && S.isConst(d) && d === ds[0])) return { t: "count", c: ds[0] };
        if (ds.every(indep)) return { t: "sum", sort: ds.some((d) => d.sort === "Real") || before.sort === "Real" ? "Real" : "Int" };
      }
    }
    // assignment pattern: unchanged, or a value that does not depend on the accumulator itself
    const vals = news.filter((n) => n !== before);
    if (g.prim && vals.some((n) => isT(n) && mentions(n, before))) { return unsupported("loop-carried variable has no recognised pattern"); }
    const first = vals[0];
    const konst = vals.every((n) => isPrim(n) && !isT(n) && n === first);
    return { t: "assign", konst, value: first, same: (v) => v === first, vals };
  }
  verifyClass(k, w, nrm, locKey, generic, k0, prepAt) {
    const c = w.cls;
    for (const r of nrm) {
      const ws = this.lastWrites(r.writes).filter((x) => locKey(x) === k); // first write holds the pre-loop value of the sub path; `now` is final
      // nothing further to check for append/dict: the append-only shape is re-established on every evaluation of outputsAt
      if (c.t === "count") {
        let now = ws.length ? ws[0].now : null; if (now && typeof now === "object" && "enumerable" in now && !(now instanceof T)) now = now.value;
        const want = S.add(this.lift(w.old), S.mul(c.c, S.add(k0, S.int(1))));
        if (now === null || S.eq(this.lift(now), want) !== S.TRUE) unsupported("counter changes irregularly");
      }
    }
  }
}
