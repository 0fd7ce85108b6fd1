import { host } from "./host.mjs";
import { createHash } from "node:crypto";
// Symbolic execution of contracts: the "vf" module as seen by a contract, and the path driver.
import path from "node:path";
import fs from "node:fs";
import * as S from "./smt.mjs";
import * as R from "./regex.mjs";
import { Interp, ts, parseFile, JObj, JArr, JFn, JMap, JPromise, JAny, JThrow, PathAbort, Unsupported, Cell, unsupported, el, isPrim } from "./interp.mjs";
import "./eval.mjs";
import "./builtins.mjs";
import { install } from "./globals.mjs";
const { T, isT } = S;
export const ROOT = path.resolve(path.dirname(new URL(import.meta.url).pathname), "..");
export const REPO = process.env.VF_REPO ?? "/repo";
const PK = path.join(REPO, "packages");
const cands = (f) => [f, f + ".ts", f + ".tsx", f.replace(/\.js$/, ".ts"), f.replace(/\.mjs$/, ".mts"), path.join(f, "index.ts")];
export const resolveFile = (f) => cands(f).find((x) => { try { return fs.statSync(x).isFile(); } catch { return false; } });
export const modelFile = (spec, sym) => { const n = spec.replace(/^node:/, "").replace(/[/@]/g, "_") + ".ts"; for (const d of sym ? ["models/sym", "models"] : ["models"]) { const f = path.join(ROOT, d, n); if (fs.existsSync(f)) return f; } return null; };
let dirs; // a package whose folder has another name
// a package's own name for one of its files
const exported = (dir, sub) => { try { const e = JSON.parse(fs.readFileSync(path.join(dir, "package.json"), "utf8")).exports?.["./" + sub], to = typeof e === "string" ? e : e?.default ?? e?.import ?? e?.require; return to === undefined ? null : resolveFile(path.join(dir, to.replace(/^\.\/dist\//, "src/").replace(/\.[cm]?js$/, ""))); } catch { return null; } };
const dirOf = (n) => { if (fs.existsSync(path.join(PK, n))) return n; if (dirs === undefined) { dirs = new Map(); for (const d of fs.readdirSync(PK)) { try { dirs.set(JSON.parse(fs.readFileSync(path.join(PK, d, "package.json"), "utf8")).name, d); } catch { } } } return dirs.get("@alwaysmeticulous/" + n) ?? n; };
export const resolveSpec = (spec, from, sym) => {
  if (spec.startsWith("repo:")) { const f = resolveFile(path.join(PK, spec.slice(5))); if (!f) throw new Error("no such source file " + spec); return f; }
  if (spec.startsWith(".")) { const at = path.resolve(path.dirname(from), spec), f = resolveFile(at); if (f) return f; return at.startsWith(PK + "/") ? (resolveFile(path.join(ROOT, "models/repo", path.relative(PK, at))) ?? null) : null; } // a source file the tree does not contain: its stand-in
  const m = modelFile(spec, sym); if (m) return m;
  const w = /^@alwaysmeticulous\/([^/]+)(\/(.*))?$/.exec(spec); if (w) { const dir = path.join(PK, dirOf(w[1])); const f = resolveFile(w[3] ? path.join(dir, w[3].replace(/^dist\//, "src/")) : path.join(dir, "src/index.ts")) ?? (w[3] ? resolveFile(path.join(dir, "src", w[3])) ?? exported(dir, w[3]) : null); if (f) return f; }
  return null;
};

const SORTS = { string: "String", bool: "Bool", int: "Int", num: "Real", val: "Val" };
export const makeVf = (I, contracts) => {
  const vf = {};
  vf.contract = I.fn("contract", function* (_t, [name, opts, f]) { if (f === undefined) { f = opts; opts = I.obj(); } contracts.push({ name, opts, f }); });
  return vf;
};
export const makeG = (I, prefix, idxs) => {
  const g = new JObj(I.P.Object); g.birth = 0;
  const def = (n, f) => g.props.set(n, { value: Object.assign(I.fn(n, f), { birth: 0 }), enumerable: false });
  const nm = (n) => (prefix ? prefix + "." + n : n);
  const rootG = () => g;
  def("string", function* (_t, [n]) { return I.leaf(nm(n), idxs, "String"); });
  def("bool", function* (_t, [n]) { return I.leaf(nm(n), idxs, "Bool"); });
  def("int", function* (_t, [n, lo, hi]) { const t = I.leaf(nm(n), idxs, "Int"); if (lo !== undefined) I.fact(S.ge(t, I.lift(lo))); if (hi !== undefined) I.fact(S.le(t, I.lift(hi))); return t; });
  def("num", function* (_t, [n, lo, hi]) { const t = I.leaf(nm(n), idxs, "Real"); if (lo !== undefined) I.fact(S.ge(t, I.lift(lo))); if (hi !== undefined) I.fact(S.le(t, I.lift(hi))); return t; });
  const kindsOf = (ks) => (ks ? ks.segs.map((s) => s.v) : Interp.JSONKINDS);
  def("json", function* (_t, [n, ks]) { const a = new JAny(nm(n), idxs, kindsOf(ks)); a.json = true; return a; });
  def("any", function* (_t, [n, ks]) { return new JAny(nm(n), idxs, ks ? kindsOf(ks) : ["undef", ...Interp.JSONKINDS]); });
  def("oneOf", function* (_t, [n, xs]) {
    const vals = xs.segs.map((s) => s.v);
    if (vals.every((v) => typeof v === "string")) { const t = I.leaf(nm(n), idxs, "String"); I.fact(S.or(...vals.map((v) => S.eq(t, S.str(v))))); return t; }
    const t = I.leaf(nm(n), idxs, "Int"); I.fact(S.and(S.ge(t, S.int(0)), S.lt(t, S.int(vals.length)))); for (let i = 0; i < vals.length - 1; i++) if (I.branch(S.eq(t, S.int(i)))) return vals[i]; I.assume(S.eq(t, S.int(vals.length - 1))); return vals.at(-1);
  });
  def("opt", function* (_t, [n, th]) { return I.branch(I.leaf(nm(n) + "?", idxs, "Bool")) ? yield* I.call(th, undefined, []) : undefined; });
  def("array", function* (_t, [n, b, min]) {
    const name = nm(n); const key = "garr:" + name + "@" + idxs.map((t) => t.id); let base = I.memo.get(key);
    if (!base) { const len = I.leaf(name + "#len", idxs, "Int"); I.fact(S.ge(len, S.int(0))); base = I.newBase(name, len, function* (i) { return yield* I.call(b, undefined, [makeG(I, name + "[]", [...idxs, i])]); }); I.memoSet(I.memo, key, base); }
    if (min !== undefined) I.assume(S.ge(base.len, S.int(min)));
    const a = new JArr(I.P.Array, [I.rawSeg(base)]); a.birth = 0; return a;
  });
  def("dict", function* (_t, [n, b]) { const name = nm(n); return I.inputDict(name, idxs, function* (i) { return yield* I.call(b, undefined, [makeG(I, name + "{}", [...idxs, i])]); }); });
  def("uf", function* (_t, [n, sort, ...args]) { const enc = []; for (const a of args) enc.push(yield* I.encode(a)); const sg = enc.map((x) => x.sort[0]).join(""); if (sort === "json") { const a = new JAny(n + sg, enc, Interp.JSONKINDS); a.json = true; return a; } if (sort === "any") return new JAny(n + sg, enc, ["undef", ...Interp.JSONKINDS]); const t = S.uf(n + sg, SORTS[sort], enc); if (enc.length === 0 || true) I.leaves.set(t, { name: n, idxs: enc, uf: true }); return t; });
  def("assume", function* (_t, [c]) { const t = I.truthy(c); if (t === true) return; if (t === false) throw new PathAbort(); const ft = I.branch(t); if (!ft) throw new PathAbort(); });
  def("ensure", function* (_t, [label, c]) { yield* I.ensure(I.contractName + ": " + label, typeof c === "boolean" ? c : I.truthy(c)); });
  def("reach", function* (_t, [label]) { yield* I.ensure(I.contractName + ": reach " + label, true); });
  def("eq", function* (_t, [label, a, b]) {
    if (I.subDepth > 0) unsupported("eq inside a summarised callback");
    if (I.branch(I.fresh("check", "Bool"))) { const r = yield* I.deepEq(a, b); yield* I.ensure(I.contractName + ": " + label, r); throw new PathAbort(); }
  });
  def("forall", function* (_t, [arr, f]) {
    const a = I.force(arr); if (!(a instanceof JArr)) { const s = yield* I.iterSegs(a); return yield* g.props.get("forall").value.native(_t, [new JArr(I.P.Array, s), f]); }
    if (!I.branch(I.fresh("check", "Bool"))) return;
    const segs = a.segs.filter((s) => !(s.k === "fm" && s.base.len === S.int(0))); if (segs.length === 0) throw new PathAbort();
    const k = I.choose(segs.length); const s = segs[k]; let off = S.int(0); for (let m = 0; m < k; m++) off = S.add(off, I.segLen(segs[m]));
    let vs, idx;
    if (s.k === "el") { vs = [s.v]; idx = off; } else { const x = I.fresh("i", "Int"); I.assume(S.and(S.ge(x, S.int(0)), S.lt(x, s.base.len))); I.leaves.set(x, { name: "#skolem", idxs: [] }); I.skolem(s.base, x); vs = yield* s.f(x); idx = s.exact ? S.add(off, x) : I.fresh("pos", "Int"); }
    if (vs.length === 0) throw new PathAbort();
    const v = vs[I.choose(vs.length)];
    const r = yield* I.call(f, undefined, [v, I.lower(idx)]);
    if (r instanceof JPromise) I.runLoop(r);
    throw new PathAbort();
  });
  // choose one alternative: every alternative is explored
  def("choose", function* (_t, [n, xs]) { const vals = xs.segs.map((s) => s.v); const t = I.leaf(nm(n), idxs, "Int"); I.fact(S.and(S.ge(t, S.int(0)), S.lt(t, S.int(vals.length)))); for (let i = 0; i < vals.length - 1; i++) if (I.branch(S.eq(t, S.int(i)))) return vals[i]; I.assume(S.eq(t, S.int(vals.length - 1))); return vals.at(-1); });
  def("attempt", function* (_t, [th]) { // outcome of a thunk that may throw
    try { return I.obj({ ok: true, value: yield* I.call(th, undefined, []), error: undefined }); } catch (e) { if (!(e instanceof JThrow)) throw e; return I.obj({ ok: false, value: undefined, error: e.value }); }
  });
  def("attemptAsync", function* (_t, [th]) {
    let p; try { p = yield* I.call(th, undefined, []); } catch (e) { if (!(e instanceof JThrow)) throw e; return I.resolved(I.obj({ ok: false, value: undefined, error: e.value })); }
    const q = yield* I.toPromise(p);
    return I.thenP(q, I.fn("ok", function* (_x, [v]) { return I.obj({ ok: true, value: v, error: undefined }); }), I.fn("err", function* (_x, [e]) { return I.obj({ ok: false, value: undefined, error: e }); }));
  });
  def("setGlobal", function* (_t, [n, v]) { const c = I.globals.get(n); if (c) I.setCell(c, v); else { const x = new Cell(v); I.memoSet(I.globals, n, x); } });
  def("isSymbolic", function* () { return true; });
  def("timersPending", function* () { return I.timers.filter((t) => !t.dead).length; });
  def("now", function* () { return I.now; });
  // run `thunk` under the inductive hypothesis that every recursive call of the named function (on a smaller value) returns hyp(args)
  def("induct", function* (_t, [fnv, hyp, th]) {
    const node = I.force(fnv).node; const old = I.recursion; let entered = 0;
    I.recursion = { node, applies: (f) => f.node === node, run: function* (f, self, args) { return yield* I.call(hyp, undefined, args); } };
    try { return yield* I.call(th, undefined, []); } finally { I.recursion = old; }
  });
  // calls of the function are replaced by what its own contract (or an arbitrary function of its arguments) says about it
  def("replace", function* (_t, [fnv, hyp, th]) {
    const node = I.force(fnv).node; const old = I.replacements; I.replacements = new Map(old ?? []); I.replacements.set(node, hyp); let r;
    try { r = yield* I.call(th, undefined, []); } catch (e) { I.replacements = old; throw e; }
    if (!(I.force(r) instanceof JPromise)) I.replacements = old; return r;
  });
  def("settled", function* (_t, [p]) { return p.state; });
  // the end of a turn of the event loop: what is ready is done; how many rejections nobody handles so far
  def("turn", function* () { for (let i = 0; I.micro.length && i < 20000; i++) I.micro.shift()(); return I.rejections.filter((p) => !p.handled).length; });
  def("drain", function* () { while (I.micro.length) I.micro.shift()(); });
  return g;
};
const primModule = (I) => ({
  uf: I.fn("uf", function* (_t, [n, sort, ...args]) { const enc = []; for (const a of args) enc.push(yield* I.encode(a)); return S.uf("$" + n + enc.map((x) => x.sort[0]).join(""), SORTS[sort], enc); }),
  fact: I.fn("fact", function* (_t, [c]) { const t = I.truthy(c); I.fact(typeof t === "boolean" ? S.bool(t) : t); }),
  fresh: I.fn("fresh", function* (_t, [n, sort]) { return I.fresh(n, SORTS[sort]); }),
  inRe: I.fn("inRe", function* (_t, [r, s]) { return I.reTest(r, s); }),
  implies: I.fn("implies", function* (_t, [a, b]) { return I.lower(S.implies(I.lift(I.truthy(a)), I.lift(I.truthy(b)))); }),
  and: I.fn("and", function* (_t, xs) { return I.lower(S.and(...xs.map((x) => I.lift(I.truthy(x))))); }),
  or: I.fn("or", function* (_t, xs) { return I.lower(S.or(...xs.map((x) => I.lift(I.truthy(x))))); }),
  ite: I.fn("ite", function* (_t, [c, a, b]) { const t = I.truthy(c); return typeof t === "boolean" ? (t ? a : b) : I.lower(S.ite(t, I.lift(I.force(a)), I.lift(I.force(b)))); }),
  unsupported: I.fn("unsupported", function* (_t, [m]) { unsupported(m); }),
  // the text a term certainly starts with
  constPrefix: I.fn("constPrefix", function* (_t, [v]) { v = I.force(v); if (typeof v === "string") return v; if (!isT(v) || v.op !== "concat") return ""; return v.args[0].op === "cs" ? v.args[0].val : ""; }),
  isSym: I.fn("isSym", function* (_t, [v]) { return isT(I.force(v)); }),
  not: I.fn("not", function* (_t, [a]) { return I.lower(S.not(I.lift(I.truthy(a)))); }),
  eq: I.fn("eq", function* (_t, [a, b]) { const r = I.strictEq(I.force(a), I.force(b)); return r; }),
  native: I.fn("native", function* (_t, [n, ...args]) { const r = NATIVE[n](...args); return r !== null && typeof r === "object" ? I.fromPlain(r) : r; }),
  // a list of [string, string] pairs of unknown length determined by its arguments
  list: I.fn("list", function* (_t, [n, ...args]) { const enc = []; for (const a of args) enc.push(yield* I.encode(a)); const nm = "$" + n; const key = "plist:" + nm + "@" + enc.map((t) => t.id); let b = I.memo.get(key); if (!b) { const len = S.uf(nm + "#len", "Int", enc); I.fact(S.ge(len, S.int(0))); b = I.newBase(nm, len, (i) => I.arr([S.uf(nm + "#k", "String", [...enc, i]), S.uf(nm + "#v", "String", [...enc, i])])); I.memoSet(I.memo, key, b); } return new JArr(I.P.Array, [I.rawSeg(b)]); }),
  // fork over the length of a list (bounded contracts only): false when it is longer than the contract's bound
  concretise: I.fn("concretise", function* (_t, [a]) {
    const out = []; for (const s of a.segs) { if (s.k === "el") { out.push(s); continue; } if (I.bound === undefined) return false; let n = 0; for (; n <= I.bound; n++) if (I.branch(S.eq(s.base.len, S.int(n)))) break; if (n > I.bound) throw new PathAbort(); for (let k = 0; k < n; k++) for (const v of yield* s.f(S.int(k))) out.push(el(v)); }
    I.setSegs(a, out); return true;
  }),
  alsRun: I.fn("alsRun", function* (_t, [k, v, f, ...args]) { const s = I.als; I.als = new Map(s ?? []); I.als.set(k, v); try { return yield* I.call(f, undefined, args); } finally { I.als = s; } }),
  alsGet: I.fn("alsGet", function* (_t, [k]) { return I.als?.get(k); }),
  remember: I.fn("remember", function* (_t, [n, k, v]) { k = I.force(k); if (isT(k)) I.memoSet(I.memo, "rem:" + n + ":" + k.id, v); }),
  recall: I.fn("recall", function* (_t, [n, k]) { k = I.force(k); return isT(k) ? I.memo.get("rem:" + n + ":" + k.id) : undefined; }),
  pairsSet: I.fn("pairsSet", function* (_t, [a, k, v]) {
    if (a.segs.some((s) => s.opaque)) { I.setSegs(a, [...a.segs, el(I.arr([k, v]))]); return; }
    if (a.segs.every((s) => s.k === "el")) { const out = []; let done = false; for (const s of a.segs) { if (I.branch(I.lift(I.strictEq(s.v.segs[0].v, k)))) { if (!done) out.push(el(I.arr([s.v.segs[0].v, v]))); done = true; } else out.push(s); } if (!done) out.push(el(I.arr([k, v]))); I.setSegs(a, out); return; }
    const I2 = I; const r = yield* I.mapFind({ store: a, isSet: false }, k); if (!r.found) { I.setSegs(a, [...a.segs, el(I.arr([k, v]))]); return; }
    I.setSegs(a, [...a.segs.map((s) => (s.k === "el" ? s : I.mapSeg(s, function* (p) { return I2.branch(I2.lift(I2.strictEq(p.segs[0].v, k))) ? [] : [p]; }, false))).filter((s) => s.k !== "el" || !I.branch(I.lift(I.strictEq(s.v.segs[0].v, k)))), el(I.arr([k, v]))]);
  }),
  charset: I.fn("charset", function* (_t, [t, re]) { I.fact(I.lift(I.reTest(re, t))); const f = R.flat(I.regexInfo(re).ast)[0].find((x) => x.t === "rep"); if (isT(t) && f?.x.t === "set") I.memoSet(I.charsets, t, f.x.cs); }),
  json: I.fn("json", function* (_t, [n, ...args]) { const enc = []; for (const a of args) enc.push(yield* I.encode(a)); return new JAny("$" + n + enc.map((x) => x.sort[0]).join(""), enc, Interp.JSONKINDS); }),
});

const NATIVE = {
  parseModule: (code, o) => host.parseModule(code, JSON.parse(o)),
  runModule: (code, calls) => host.runModule(code, JSON.parse(calls)),
  formDecode: (s) => new URLSearchParams("=" + s).get("") ?? "",
  utf8Length: (s) => Buffer.byteLength(s),
  path: (n, ...a) => path.posix[n](...a),
  hash: (alg, text, enc) => createHash(alg).update(text).digest(enc),
  b64: (s, from, to) => Buffer.from(s, from).toString(to),
  formEncode: (s) => new URLSearchParams([["", s]]).toString().slice(1),
  userEncode: (s) => { const u = new URL("http://h/"); u.username = s; return u.username; },
  hashEncode: (s) => { const u = new URL("http://h/"); u.hash = "#" + s; return u.hash.slice(1); },
  pathEncode: (s, sp) => { const u = new URL(sp ? "http://h/" : "foo://h/"); u.pathname = s; return u.pathname; },
  parseQuery: (q) => [...new URLSearchParams(q)],
  parseUrl: (u, b) => { let x; try { x = new URL(u, b); } catch { return null; } const after = x.href.slice(x.protocol.length); const auth = after.startsWith("//"); const y = new URL(x.href); const before = y.pathname; return { protocol: x.protocol, username: x.username, password: x.password, hostname: x.hostname, port: x.port, pathname: x.pathname, search: x.search, hash: x.hash, href: x.href, auth, opaque: !auth && !before.startsWith("/") }; },
};
const preludeNames = () => { const f = path.join(ROOT, "models/sym/prelude.ts"); if (!fs.existsSync(f)) return []; const sf = parseFile(f); const out = []; for (const st of sf.statements) { if (!st.modifiers?.some((m) => m.kind === ts.SyntaxKind.ExportKeyword)) continue; if (st.name) out.push(st.name.text); else if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) out.push(d.name.text); } return out; };

// What a module does when it is loaded: its top-level statements other than declarations, and the constants that read a
// global another module may replace later. Everything else at top level is evaluated on first use.
const EAGER = /\b(globalThis|Date|Math|process|crypto|console|fetch)\b/;
const closures = new Map();
const closureOf = (root) => {
  if (closures.has(root)) return closures.get(root);
  const seen = new Set(), out = [];
  const visit = (file) => {
    if (seen.has(file)) return; seen.add(file);
    const sf = parseFile(file), items = [];
    for (const st of sf.statements) {
      const spec = (ts.isImportDeclaration(st) && !st.importClause?.isTypeOnly || ts.isExportDeclaration(st) && !st.isTypeOnly) && st.moduleSpecifier?.text;
      if (spec) { if (ts.isImportDeclaration(st) && st.importClause?.namedBindings?.elements?.length && !st.importClause.name && st.importClause.namedBindings.elements.every((e) => e.isTypeOnly)) continue; const f = spec === "vf" || spec === "vf-prim" ? null : resolveSpec(spec, file, true); if (f && (f.startsWith(REPO + "/") || f.startsWith(path.join(ROOT, "props")) || f.startsWith(path.join(ROOT, "models/repo")))) visit(f); }
      else if (ts.isVariableStatement(st)) { for (const d of st.declarationList.declarations) if (ts.isIdentifier(d.name) && d.initializer && !ts.isArrowFunction(d.initializer) && !ts.isFunctionExpression(d.initializer) && EAGER.test(d.initializer.getText(sf))) items.push({ name: d.name.text }); }
      else if (ts.isExpressionStatement(st) ? file !== root : ts.isIfStatement(st) || ts.isForStatement(st) || ts.isForOfStatement(st) || ts.isForInStatement(st) || ts.isWhileStatement(st) || ts.isTryStatement(st) || ts.isBlock(st) || ts.isSwitchStatement(st)) items.push({ st });
    }
    if (items.length) out.push({ file, items });
  };
  visit(root); closures.set(root, out); return out;
};
const eagerInit = (I, root) => {
  for (const { file, items } of closureOf(root)) {
    const m = I.loadModule(file);
    for (const it of items) {
      try { I.runSync(it.name ? I.readCell(m.scope.vars.get(it.name), it.name) : I.stmt(it.st, m.scope)); }
      catch (e) { if (it.name && (e instanceof Unsupported || e instanceof JThrow)) continue; if (e instanceof Unsupported || e instanceof JThrow) { m.broken = "module-level statement of " + path.relative(REPO, file) + ": " + (e.message ?? "throws"); break; } throw e; }
    }
  }
};

// explore every path of contract number `index` of a harness file
export const runContract = (file, index, opts = {}) => {
  const contracts = []; let native;
  const I = new Interp({
    resolveImport: (spec, from) => {
      if (spec === "vf") return { native: (i) => native };
      if (spec === "vf-prim") return { native: primModule };
      const f = resolveSpec(spec, from, true); if (f) return { file: f };
      return {};
    },
    builtins: (i) => { install(i); const pf = path.join(ROOT, "models/sym/prelude.ts"); for (const n of preludeNames()) { const c = new Cell(undefined, function* () { return yield* i.exportOf(i.loadModule(pf), n); }); c.birth = 0; i.globals.set(n, c); } },
    ...opts,
  });
  if (opts.proveTimeout) I.proveTimeout = opts.proveTimeout;
  const t0 = Date.now(); let prefix = []; let paths = 0, aborted = 0; let error = null; const out = { name: null, file, index };
  const deadline = t0 + (opts.budgetMs ?? 600000);
  try {
    for (;;) {
      if (Date.now() > deadline) { error = "time budget exhausted after " + paths + " paths"; break; }
      if (++paths > (opts.maxPaths ?? 6000)) { error = "too many paths"; break; }
      contracts.length = 0;
      let completed = false;
      try {
        I.reset(prefix); native = makeVf(I, contracts);
        const m = I.loadModule(file); const sf = parseFile(file);
        eagerInit(I, file);
        // evaluate the top-level contract(...) statements
        let n = 0;
        for (const st of sf.statements) if (ts.isExpressionStatement(st)) { I.runSync(I.ev(st.expression, m.scope)); }
        const c = contracts[index]; if (!c) throw new Error("no contract " + index);
        I.contractName = c.name; out.name = c.name; I.unroll = 40; const un = c.opts.props.get("unroll"); if (un) I.unroll = un.value; const bo = c.opts.props.get("bound"); I.bound = bo ? bo.value : undefined; I.strictGlobals = true;
        const g = makeG(I, "", []);
        const body = function* () { const r = yield* I.call(c.f, undefined, [g]); return r; };
        let r;
        try {
          r = I.runSync(body);
          if (r instanceof JPromise) { if (!I.runLoop(r)) { I.runSync(I.ensure(c.name + ": completes", false)); } else if (r.state === "rejected") throw new JThrow(r.value); }
        } catch (e) {
          if (!(e instanceof JThrow)) throw e;
          const v = e.value; let msg = ""; try { msg = v instanceof JObj ? `${v.cls ?? ""} ${I.show(v.props.get("message")?.value)}` : I.show(v); } catch { }
          if (opts.debug) console.error("throws:", msg);
          out.lastThrow = msg;
          I.runSync(I.ensure(c.name + ": does not throw", false));
        }
        completed = true;
      } catch (e) { if (e instanceof PathAbort) aborted++; else if (e instanceof Unsupported && !I.stopped && !S.consistent(I.pc)) aborted++; else throw e; }
      if (opts.debug > 1) console.error("path", paths, completed ? "done" : "abort", "dec", I.dec.map((d) => (d.val ? 1 : 0)).join(""), "pc", I.pc.length);
      prefix = Interp.next(I.dec); if (!prefix) break;
    }
  } catch (e) { if (e instanceof Unsupported) error = "unsupported: " + e.message; else if (e instanceof RangeError && /call stack/.test(e.message)) { error = "unsupported: evaluator stack overflow"; if (process.env.VF_DEBUG) console.error(e.stack); } else { error = "internal: " + e.message; if (opts.debug) console.error(e.stack); out.stack = e.stack?.split("\n").slice(0, 6).join("\n"); } }
  out.paths = paths; out.aborted = aborted; out.error = error; out.ms = Date.now() - t0;
  out.obligations = [...I.obligations.values()].map((o) => ({ ...o, failed: o.failed.slice(0, 6), failedCount: o.failed.length }));
  out.functions = [...I.usedFns].filter((f) => f.startsWith(REPO)).map((f) => f.slice(REPO.length + 1)).sort();
  out.stats = S.stats;
  return out;
};
// names and options of the contracts in a harness file
export const listContracts = (file) => {
  const sf = ts.createSourceFile(file, fs.readFileSync(file, "utf8"), ts.ScriptTarget.ES2022, true); const out = [];
  for (const st of sf.statements) if (ts.isExpressionStatement(st) && ts.isCallExpression(st.expression) && st.expression.expression.getText() === "contract") {
    const [a, o] = st.expression.arguments; const labels = []; const visit = (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ["ensure", "eq"].includes(n.expression.name.text) && n.arguments[0] && ts.isStringLiteral(n.arguments[0])) labels.push(n.arguments[0].text); ts.forEachChild(n, visit); }; visit(st);
    const opts = {}; if (o && ts.isObjectLiteralExpression(o)) for (const p of o.properties) if (ts.isPropertyAssignment(p)) { try { opts[p.name.text] = (0, eval)("(" + p.initializer.getText() + ")"); } catch { } }
    out.push({ name: a.text, labels: [...new Set(labels)], opts });
  }
  return out;
};
if (process.argv[1] && import.meta.url.endsWith(path.basename(process.argv[1])) && path.basename(process.argv[1]) === "sym.mjs") {
  const [file, idx, flags] = process.argv.slice(2);
  const dbg = process.env.VF_DEBUG ? Number(process.env.VF_DEBUG) : 0;
  const r = runContract(path.resolve(file), Number(idx), { debug: dbg, budgetMs: Number(process.env.VF_BUDGET_MS ?? 600000), proveTimeout: Number(process.env.VF_PROVE_MS ?? 8000) });
  process.stdout.write(JSON.stringify(r, (k, v) => (typeof v === "bigint" ? v.toString() : v)) + "\n");
}
