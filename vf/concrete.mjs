// Runs the same contracts concretely on the real code: a cross-check of the symbolic verdicts, the search for failing
// inputs, and the replay of solver models.
import path from "node:path";
import fs from "node:fs";
import vm from "node:vm";
import { createRequire } from "node:module";
import ts0 from "/opt/veriftools/node/node_modules/typescript/lib/typescript.js";
import * as R from "./regex.mjs";
import { ROOT, REPO, resolveSpec, listContracts } from "./sym.mjs";
import { softImports } from "./avail.mjs";
import { host } from "./host.mjs";
globalThis.__host = host;
globalThis.__dirname ??= "/dist"; // modules are loaded from a bundle, which has no place of its own
const ts = ts0;
const require = createRequire("/opt/veriftools/node/node_modules/");
const realRequire = createRequire(import.meta.url);
const KINDS = ["undef", "null", "bool", "num", "int", "str", "arr", "obj", "fn", "err"];
const JSONKINDS = ["null", "bool", "num", "str", "arr", "obj"];
const ALLOW = new Set(["path", "url", "crypto", "util", "buffer", "async_hooks", "events", "stream", "querystring", "string_decoder", "assert"]);

const declared = (sf) => {
  const out = new Set(), exported = new Set();
  for (const st of sf.statements) {
    const exp = st.modifiers?.some((m) => m.kind === ts.SyntaxKind.ExportKeyword); const add = (n) => { (exp && !st.modifiers.some((m) => m.kind === ts.SyntaxKind.DefaultKeyword) ? exported : out).add(n); };
    if (st.modifiers?.some((m) => m.kind === ts.SyntaxKind.DeclareKeyword)) continue;
    if ((ts.isFunctionDeclaration(st) || ts.isClassDeclaration(st) || ts.isEnumDeclaration(st)) && st.name && (st.body || !ts.isFunctionDeclaration(st))) add(st.name.text);
    else if (ts.isVariableStatement(st)) { const v = (n) => { if (ts.isIdentifier(n)) add(n.text); else n.elements.forEach((e) => e.name && v(e.name)); }; st.declarationList.declarations.forEach((d) => v(d.name)); }
    else if (ts.isExportDeclaration(st) && !st.moduleSpecifier && st.exportClause && ts.isNamedExports(st.exportClause)) for (const e of st.exportClause.elements) exported.add(e.name.text);
  }
  for (const n of exported) out.delete(n);
  return [...out];
};
export const bundle = async (file) => {
  const esbuild = require("esbuild"); const sources = new Set([file]);
  const plugin = { name: "vf", setup(b) {
    b.onResolve({ filter: /.*/ }, (a) => {
      if (a.kind === "entry-point") return { path: a.path };
      if (a.path === "vf") return { path: "vf", namespace: "vf" };
      const from = a.importer || file;
      const f = resolveSpec(a.path, from, false); if (f) return { path: f };
      const n = a.path.replace(/^node:/, ""); if (ALLOW.has(n)) return { path: n, external: true };
      return { path: a.path, namespace: "missing" };
    });
    b.onLoad({ filter: /.*/, namespace: "vf" }, () => ({ contents: "module.exports = globalThis.__vf;", loader: "js" }));
    b.onLoad({ filter: /.*/, namespace: "missing" }, () => ({ contents: "module.exports = {};", loader: "js" }));
    b.onLoad({ filter: /\.(m|c)?tsx?$/ }, (a) => {
      let text = fs.readFileSync(a.path, "utf8"); sources.add(a.path);
      if (a.path.startsWith(ROOT + "/props/")) text = softImports(a.path, text);
      if (a.path.startsWith(REPO + "/")) { const sf = ts.createSourceFile(a.path, text, ts.ScriptTarget.ES2022, true); const d = declared(sf); if (d.length) text += "\nexport { " + d.join(", ") + " };\n"; }
      if (a.path.startsWith(ROOT + "/models/")) return { contents: esbuild.transformSync(text, { loader: "ts", format: "cjs" }).code, loader: "js", resolveDir: path.dirname(a.path) }; // what a model lacks is missing when it is used, not when it is named
      return { contents: text, loader: a.path.endsWith("x") ? "tsx" : "ts", resolveDir: path.dirname(a.path) };
    });
    b.onLoad({ filter: /\.(js|mjs|cjs)$/ }, (a) => { sources.add(a.path); return { contents: fs.readFileSync(a.path, "utf8"), loader: "js", resolveDir: path.dirname(a.path) }; });
  } };
  const r = await esbuild.build({ entryPoints: [file], bundle: true, write: false, format: "cjs", platform: "node", target: "node22", plugins: [plugin], logLevel: "silent", tsconfigRaw: { compilerOptions: {} }, jsx: "automatic" });
  return { code: r.outputFiles[0].text, sources: [...sources], warnings: r.warnings.map((w) => w.text) };
};

// ---- literals of the code under test, used as a dictionary
const walkRegex = (n, rnd, out) => {
  switch (n.t) {
    case "set": { const cs = n.cs.length ? n.cs : [[97, 97]]; let pick = cs.filter(([a, b]) => b >= 32 && a <= 126); if (pick.length === 0 || rnd() < 0.05) pick = cs; const [a, b] = pick[Math.floor(rnd() * pick.length)]; const lo = Math.max(a, b >= 32 ? Math.min(32, b) : a), hi = Math.min(b, a <= 126 ? 126 : b); const l = Math.max(a, lo), h = Math.max(l, hi); out.push(String.fromCharCode(l + Math.floor(rnd() * (h - l + 1)))); return; }
    case "seq": n.xs.forEach((x) => walkRegex(x, rnd, out)); return;
    case "alt": walkRegex(n.as[Math.floor(rnd() * n.as.length)], rnd, out); return;
    case "grp": walkRegex(n.x, rnd, out); return;
    case "rep": { const k = n.lo + Math.floor(rnd() * (Math.min(n.hi, n.lo + 3) - n.lo + 1)); for (let i = 0; i < k; i++) walkRegex(n.x, rnd, out); return; }
  }
};
export const sampleRegex = (src, flags, rnd) => { try { const out = []; walkRegex(R.parse(src, flags).ast, rnd, out); return out.join(""); } catch { return ""; } };
export const mine = (sources) => {
  const strs = new Set(), nums = new Set(), regs = [];
  for (const f of sources) {
    if (!f.startsWith(REPO + "/") && !f.includes("/props/")) continue;
    const text = fs.readFileSync(f, "utf8"); const sf = ts.createSourceFile(f, text, ts.ScriptTarget.ES2022, true, f.endsWith("x") ? ts.ScriptKind.TSX : ts.ScriptKind.TS);
    const v = (n) => {
      if (ts.isImportDeclaration(n) || ts.isTypeNode(n)) return;
      if (f.includes("/props/") && ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ["ensure", "eq", "string", "int", "bool", "json", "any"].includes(n.expression.name.text)) { n.arguments.slice(1).forEach(v); return; }
      if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n) || ts.isTemplateHead(n) || ts.isTemplateMiddle(n) || ts.isTemplateTail(n)) { if (n.text.length && n.text.length < 80) strs.add(n.text); }
      else if (ts.isNumericLiteral(n)) nums.add(Number(n.text.replace(/_/g, "")));
      else if (ts.isPropertyAssignment(n) && ts.isIdentifier(n.name)) strs.add(n.name.text);
      else if (ts.isRegularExpressionLiteral(n)) { const m = /^\/(.*)\/([a-z]*)$/s.exec(n.text); if (m) regs.push([m[1], m[2]]); }
      ts.forEachChild(n, v);
    }; v(sf);
  }
  return { strs: [...strs], nums: [...nums], regs };
};

const mulberry = (a) => () => { a |= 0; a = (a + 0x6d2b79f5) | 0; let t = Math.imul(a ^ (a >>> 15), 1 | a); t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; };
const hash = (s) => { let h = 2166136261; for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 16777619); } return h | 0; };
const SPECIAL = ["", " ", "a", "A", "0", "-1", "1", "true", "false", "null", "undefined", "NaN", "__proto__", "constructor", "toString", "hasOwnProperty", "a@b.com", "John.Doe+x@mail.example.org", "http://a.com/", "https://user:pw@host.example:8080/a/b/?q=1&r=2#frag", "https://h/?email=a@b.c&token=s3cr3t", "file:///etc/passwd", "mailto:a@b.c", "data:text/html,<b>x</b>", "2020-01-02T03:04:05.678Z", "2020-01-02", "{}", "[]", '{"a":1}', '{"a":{"b":"secret"}}', "[1,\"x\"]", "\n", "a\nb", "\t", "\u2028", "é", "😀", "日本", "%", "%20", "%zz", "+", "../", "..", ".", "/", "\\", "a/b", "/a/../b", "<script>", "</script>", "<head>", "<!--", "-->", '"', "'", "`", "${x}", "a=b", "a=b; c=d", "k: v", "a,b", "x".repeat(64), "localhost", "127.0.0.1", "::1", "0.0.0.0", "example.com", "*.example.com", "ABCdef123"];
const ALPHA = "abcXYZ019 -_./@:?#=%&+,;\"'\\\n\t<>[]{}()*^$|~!\u2028é\u00df";

export class Gen {
  constructor(seed, dict, env) { this.rnd = mulberry(hash("s" + seed)); this.seed = seed; this.dict = dict; this.env = env ?? {}; this.vals = new Map(); this.pool = []; this.trace = {}; }
  pick(a) { return a[Math.floor(this.rnd() * a.length)]; }
  word(rnd = this.rnd) { const n = Math.floor(rnd() * 5); let s = ""; for (let i = 0; i < n; i++) s += ALPHA[Math.floor(rnd() * ALPHA.length)]; return s; }
  piece() { const r = this.rnd(); if (r < 0.45 && this.dict.strs.length) return this.pick(this.dict.strs); if (r < 0.55 && this.dict.regs.length) { const [a, b] = this.pick(this.dict.regs); return sampleRegex(a, b, this.rnd); } if (r < 0.75) return this.word(); if (r < 0.85 && this.pool.length) return this.pick(this.pool); return this.pick(SPECIAL); }
  str(eg) {
    const r = this.rnd(); let s;
    if (eg?.length && r < 0.4) s = this.pick(eg);
    else if (eg?.length && r < 0.55) { s = this.pick(eg); const i = Math.floor(this.rnd() * (s.length + 1)); const k = this.rnd(); s = k < 0.5 ? s.slice(0, i) + this.piece() + s.slice(i) : k < 0.75 ? s.slice(0, i) + s.slice(i + 1) : s + this.pick(eg); }
    else { const q = this.rnd(); if (q < 0.3) s = this.piece(); else if (q < 0.45) s = this.pick(SPECIAL); else if (q < 0.8) { s = ""; for (let i = 1 + Math.floor(this.rnd() * 4); i > 0; i--) s += this.piece(); } else if (q < 0.9) { s = ""; for (let i = Math.floor(this.rnd() * 12); i > 0; i--) s += this.word(); } else if (q < 0.95) s = this.piece().toUpperCase(); else { s = this.piece() || "x"; s = s.repeat(1 + Math.floor(this.rnd() * 40)); } }
    if (this.rnd() < 0.02) { // lengths around the limits the code names
      const ns = this.dict.nums.filter((n) => n >= 8 && n <= 5000 && Number.isInteger(n)); if (ns.length) { const n = Math.max(0, this.pick(ns) + Math.floor(this.rnd() * 4) - 1), fill = this.pick([" ", "\n", "a", "0", s || "x"]), k = Math.max(0, n - s.length); const pad = fill.repeat(Math.ceil(k / fill.length)).slice(0, k); s = this.rnd() < 0.5 ? s + pad : pad + s; }
    }
    s = s.toWellFormed(); // lone surrogates are outside the URL and encoding models
    if (this.pool.length < 30) this.pool.push(s); else this.pool[Math.floor(this.rnd() * 30)] = s;
    return s;
  }
  int(lo, hi) {
    const r = this.rnd(); let n; const clampOk = (x) => (lo === undefined || x >= lo) && (hi === undefined || x <= hi);
    const cands = [() => Math.floor(this.rnd() * 4), () => (lo !== undefined ? lo : 0) + Math.floor(this.rnd() * 3), () => (hi !== undefined && Number.isFinite(hi) ? hi - Math.floor(this.rnd() * 3) : Math.floor(this.rnd() * 100)), () => (this.dict.nums.length ? Math.trunc(this.pick(this.dict.nums)) + Math.floor(this.rnd() * 3) - 1 : 7), () => Math.floor(this.rnd() * 1000) - 200, () => Math.floor((this.rnd() - 0.5) * 2 ** 33), () => -1];
    for (let k = 0; k < 20; k++) { n = this.pick(cands)(); if (clampOk(n)) return n; }
    if (lo !== undefined && hi !== undefined) return lo + Math.floor(this.rnd() * (hi - lo + 1)); return lo !== undefined ? lo : hi !== undefined ? hi : 0;
  }
  num(lo, hi) { if (this.rnd() < 0.6) return this.int(lo, hi); for (let k = 0; k < 20; k++) { const n = this.pick([0.5, -0.5, 1.25, 1e-3, 1e9, this.rnd(), this.rnd() * 100, this.pick(this.dict.nums.length ? this.dict.nums : [3])]); if ((lo === undefined || n >= lo) && (hi === undefined || n <= hi)) return n; } return this.int(lo, hi); }
  len(min = 0) { const r = this.rnd(); if (r < 0.004) { const ns = this.dict.nums.filter((n) => n >= 8 && n <= 600 && Number.isInteger(n)); if (ns.length) return Math.max(min, this.pick(ns) + Math.floor(this.rnd() * 3) - 1); } return Math.max(min, r < 0.25 ? 0 : r < 0.55 ? 1 : r < 0.8 ? 2 : r < 0.95 ? 3 + Math.floor(this.rnd() * 3) : 8 + Math.floor(this.rnd() * 8)); }
  leaf(key, f) { if (this.vals.has(key)) return this.vals.get(key); const v = key in this.env ? this.env[key] : f(); this.vals.set(key, v); this.trace[key] = v; return v; }
}
const ik = (idxs) => (idxs.length ? "[" + idxs.map((x) => JSON.stringify(x)).join(",") + "]" : "");
class Reject extends Error { }
class Fail extends Error { constructor(label, detail) { super("ensure failed: " + label); this.label = label; this.detail = detail; } }
const same = (a, b, seen = new Map()) => {
  if (a === b || (typeof a === "number" && typeof b === "number" && Number.isNaN(a) && Number.isNaN(b))) return true;
  if (typeof a !== "object" || typeof b !== "object" || a === null || b === null) return false;
  if (seen.get(a) === b) return true; seen.set(a, b);
  if (Array.isArray(a) || Array.isArray(b)) return Array.isArray(a) && Array.isArray(b) && a.length === b.length && a.every((x, i) => same(x, b[i], seen));
  if (a instanceof Map || a instanceof Set) { if (a.constructor !== b.constructor || a.size !== b.size) return false; return same([...a], [...b], seen); }
  if (a instanceof Date) return b instanceof Date && same(a.getTime(), b.getTime());
  if (a instanceof Error || b instanceof Error) return a instanceof Error && b instanceof Error && a.name === b.name && a.message === b.message;
  if (a instanceof RegExp) return b instanceof RegExp && String(a) === String(b);
  if (ArrayBuffer.isView(a)) return ArrayBuffer.isView(b) && a.length === b.length && [...a].every((x, i) => x === b[i]);
  const ka = Object.keys(a).filter((k) => a[k] !== undefined), kb = Object.keys(b).filter((k) => b[k] !== undefined); return ka.length === kb.length && ka.every((k) => Object.hasOwn(b, k) && same(a[k], b[k], seen));
};
const encode = (v, d = 0) => { if (d > 6) return "…"; if (v === null || typeof v !== "object") return typeof v === "function" ? "fn" + (idOf(v)) : typeof v + ":" + String(v); if (Array.isArray(v)) return "[" + v.map((x) => encode(x, d + 1)).join(",") + "]"; const p = Object.getPrototypeOf(v); if (p === Object.prototype || p === null) return "{" + Object.keys(v).map((k) => JSON.stringify(k) + encode(v[k], d + 1)).join(",") + "}"; return (v.constructor?.name ?? "") + idOf(v); };
const ids = new WeakMap(); let idn = 0; const idOf = (o) => { if (!ids.has(o)) ids.set(o, ++idn); return ids.get(o); };

export const makeG = (st, prefix = "", idxs = []) => {
  const gen = st.gen; const nm = (n) => (prefix ? prefix + "." + n : n); const lf = (n, f) => gen.leaf(n + ik(idxs), f);
  const sub = (p, i) => makeG(st, p, [...idxs, i]);
  const mkAny = (n, ix, kinds, depth = 0) => {
    const L = (s, f) => gen.leaf(n + s + ik(ix), f); let kind;
    if (kinds.length === 1) kind = kinds[0];
    else { const tag = L("#tag", () => { let ks = kinds; if (depth > 3) { const f = ks.filter((k) => k !== "arr" && k !== "obj"); if (f.length) ks = f; } else if (depth === 0 && ks.includes("obj") && gen.rnd() < 0.35) return KINDS.indexOf("obj"); return KINDS.indexOf(gen.pick(ks)); }); kind = kinds.includes(KINDS[tag]) ? KINDS[tag] : kinds.at(-1); }
    switch (kind) {
      case "undef": return undefined; case "null": return null;
      case "bool": return L("#b", () => gen.rnd() < 0.5); case "num": return L("#n", () => gen.num()); case "int": return L("#i", () => gen.int()); case "str": return L("#s", () => gen.str());
      case "arr": { const len = L("#len", () => gen.len()); const o = []; for (let i = 0; i < Math.min(len, 200); i++) o.push(mkAny(n + "[]", [...ix, i], JSONKINDS, depth + 1)); return o; }
      case "obj": { const len = L("#size", () => gen.len()); const o = {}; for (let i = 0; i < Math.min(len, 200); i++) { let k = gen.leaf(n + "#key" + ik([...ix, i]), () => (gen.rnd() < 0.3 ? gen.str() : gen.dict.strs.length && gen.rnd() < 0.6 ? gen.pick(gen.dict.strs) : gen.pick(["a", "b", "id", "name", "email", "url", "token", "password", "x"]))); if (Object.hasOwn(o, k)) continue; Object.defineProperty(o, k, { value: mkAny(n + "{}", [...ix, i], JSONKINDS, depth + 1), enumerable: true, configurable: true, writable: true }); } return o; }
      case "fn": return (...a) => mkAny(n + "()", [...ix, hash(encode(a))], JSONKINDS, depth + 1);
      case "err": return new Error(L("#msg", () => gen.str()));
    }
  };
  const memo = (n, f) => { const k = "obj:" + n + ik(idxs); if (!st.memo.has(k)) st.memo.set(k, f()); return st.memo.get(k); };
  const g = {
    string: (n, eg) => lf(nm(n), () => gen.str(eg)),
    bool: (n) => lf(nm(n), () => gen.rnd() < 0.5),
    int: (n, lo, hi) => { const v = lf(nm(n), () => gen.int(lo, hi)); if ((lo !== undefined && v < lo) || (hi !== undefined && v > hi)) { st.rejected = true; throw new Reject(); } return v; },
    num: (n, lo, hi) => { const v = lf(nm(n), () => gen.num(lo, hi)); if ((lo !== undefined && v < lo) || (hi !== undefined && v > hi)) { st.rejected = true; throw new Reject(); } return v; },
    json: (n, ks) => memo("j" + nm(n), () => mkAny(nm(n), idxs, ks ?? JSONKINDS)),
    any: (n, ks) => memo("j" + nm(n), () => mkAny(nm(n), idxs, ks ?? ["undef", ...JSONKINDS])),
    oneOf: (n, xs) => (xs.every((v) => typeof v === "string") ? lf(nm(n), () => gen.pick(xs)) : xs[lf(nm(n), () => Math.floor(gen.rnd() * xs.length))]),
    choose: (n, xs) => xs[lf(nm(n), () => Math.floor(gen.rnd() * xs.length))],
    opt: (n, th) => (lf(nm(n) + "?", () => gen.rnd() < 0.6) ? th() : undefined),
    array: (n, b, min) => [...memo("a" + nm(n), () => { const len = lf(nm(n) + "#len", () => gen.len(min)); if (min !== undefined && len < min) { st.rejected = true; throw new Reject(); } return Array.from({ length: Math.min(len, 200) }, (_, i) => b(sub(nm(n) + "[]", i))); })],
    dict: (n, b) => { const len = lf(nm(n) + "#size", () => gen.len()); const o = {}; for (let i = 0; i < Math.min(len, 200); i++) { const k = gen.leaf(nm(n) + "#key" + ik([...idxs, i]), () => gen.str()); if (!Object.hasOwn(o, k)) Object.defineProperty(o, k, { value: b(sub(nm(n) + "{}", i)), enumerable: true, configurable: true, writable: true }); } return o; },
    uf: (n, sort, ...args) => {
      const key = n + "(" + args.map((a) => encode(a)).join(",") + ")"; const sg = n + args.map((a) => (typeof a === "string" ? "S" : typeof a === "boolean" ? "B" : typeof a === "number" ? (Number.isInteger(a) ? "I" : "R") : "V")).join("");
      const mk = key + (args.every((a) => typeof a !== "object") ? "" : "");
      const envKey = n + ik(args.filter((a) => typeof a !== "object"));
      const f = { string: () => gen.str(), bool: () => gen.rnd() < 0.5, int: () => gen.int(), num: () => gen.num(), json: null, any: null }[sort];
      if (f) { if (!gen.vals.has("uf:" + key)) { const v = envKey in gen.env ? gen.env[envKey] : f(); gen.vals.set("uf:" + key, v); gen.trace["uf:" + key] = v; } return gen.vals.get("uf:" + key); }
      const mm = "uf" + key; if (!st.memo.has(mm)) st.memo.set(mm, mkAny(sg, [key], sort === "json" ? JSONKINDS : ["undef", ...JSONKINDS])); return st.memo.get(mm);
    },
    assume: (c) => { if (!c) { st.rejected = true; throw new Reject(); } },
    ensure: (l, c) => { if (st.rejected) throw new Reject(); st.seen.add(l); if (!c) { st.fail ??= { label: l, detail: "condition is false" }; throw new Fail(l); } },
    reach: (l) => { st.seen.add("reach " + l); },
    eq: (l, a, b) => { if (st.rejected) throw new Reject(); st.seen.add(l); if (!same(a, b)) { st.fail ??= { label: l, detail: "got " + show(a) + " expected " + show(b) }; throw new Fail(l); } },
    forall: (arr, f) => { const rs = [...arr].map((v, i) => f(v, i)); if (rs.some((r) => r && typeof r.then === "function")) return Promise.all(rs); },
    attempt: (th) => { try { return { ok: true, value: th(), error: undefined }; } catch (e) { if (e instanceof Reject || e instanceof Fail) throw e; return { ok: false, value: undefined, error: e }; } },
    attemptAsync: async (th) => { try { return { ok: true, value: await th(), error: undefined }; } catch (e) { if (e instanceof Reject || e instanceof Fail) throw e; return { ok: false, value: undefined, error: e }; } },
    setGlobal: (n, v) => { st.setGlobal(n, v); },
    isSymbolic: () => false,
    timersPending: () => st.timers.filter((t) => !t.dead).length,
    now: () => st.now,
    induct: (_f, _h, th) => th(), replace: (_f, _h, th) => th(),
    invariant: (_f, _l, _h) => { },
    turn: async () => { await tick(); await tick(); return unhandled.length; },
    drain: () => { },
  };
  return g;
};
const show = (v) => { try { const s = realRequire("node:util").inspect(v, { depth: 5, maxStringLength: 300, breakLength: Infinity }); return s.length > 500 ? s.slice(0, 500) + "…" : s; } catch { return "?"; } };

// work the platform does off the event loop (cryptography): no timer may fire while it is under way
let pendingReal = 0;
for (const n of Object.getOwnPropertyNames(SubtleCrypto.prototype)) {
  const f = SubtleCrypto.prototype[n]; if (typeof f !== "function" || n === "constructor") continue;
  SubtleCrypto.prototype[n] = function (...a) { const p = f.apply(this, a); if (p && typeof p.then === "function") { pendingReal++; const d = () => { pendingReal--; }; p.then(d, d); } return p; };
}
const realSetImmediate = setImmediate, realSetTimeout = setTimeout, RealDate = Date, realProcess = process;
let unhandled = []; // rejections of this run that nobody handled in time
const tick = () => new Promise((r) => realSetImmediate(r));
export const makeRunner = async (file) => {
  const b = await bundle(file); const dict = mine(b.sources);
  let cur = []; const loadScript = new vm.Script("(function(require,module,exports){" + b.code + "\n})", { filename: path.basename(file) + ".bundle.js" });
  const load = loadScript.runInThisContext();
  const req = (m) => { if (!ALLOW.has(m.replace(/^node:/, ""))) throw new Error("module not allowed: " + m); return realRequire(m); };
  const callScript = new vm.Script("globalThis.__vfcall()");
  realProcess.removeAllListeners("warning"); realProcess.on("unhandledRejection", (e) => { unhandled.push(e); });
  const names = listContracts(file);
  // one execution of contract `index`
  const run = async (index, seed, env) => {
    const gen = new Gen(seed, dict, env); const st = { gen, memo: new Map(), seen: new Set(), timers: [], now: 0, rejected: false, fail: null }; const saved = new Map();
    st.setGlobal = (n, v) => { if (!saved.has(n)) saved.set(n, Object.getOwnPropertyDescriptor(globalThis, n)); Object.defineProperty(globalThis, n, { value: v, configurable: true, writable: true, enumerable: false }); };
    let tid = 1; const add = (f, d, args, every) => { const n = Number(d); const t = { id: tid++, f, at: st.now + Math.max(1, Number.isFinite(n) ? n : 1), args, every: every ? Math.max(1, n || 1) : 0, dead: false, unref() { return t; }, ref() { return t; }, hasRef() { return true; }, [Symbol.toPrimitive]() { return t.id; } }; st.timers.push(t); return t; };
    const clear = (h) => { for (const t of st.timers) if (t === h || t.id === h) t.dead = true; };
    const base = () => gen.leaf("now0", () => 1600000000000 + Math.floor(gen.rnd() * 1e11));
    class FDate extends RealDate { constructor(...a) { if (a.length) super(...a); else super(base() + st.now); } static now() { return base() + st.now; } }
    st.setGlobal("setTimeout", (f, d, ...a) => add(f, d, a, false)); st.setGlobal("setInterval", (f, d, ...a) => add(f, d, a, true)); st.setGlobal("clearTimeout", clear); st.setGlobal("clearInterval", clear); st.setGlobal("setImmediate", (f, ...a) => add(f, 0, a, false)); st.setGlobal("clearImmediate", clear); st.setGlobal("Date", FDate);
    st.setGlobal("console", Object.fromEntries(["log", "warn", "error", "info", "debug", "trace", "table", "group", "groupEnd"].map((k) => [k, () => { }])));
    st.setGlobal("process", { env: {}, argv: ["node", "script"], pid: 4242, platform: "linux", arch: "x64", version: "v22.0.0", versions: { node: "22.0.0" }, cwd: () => "/cwd", exit: (c) => { throw new Error("process.exit " + c); }, on() { return this; }, off() { return this; }, once() { return this; }, stdout: { write() { return true; }, isTTY: false }, stderr: { write() { return true; }, isTTY: false }, stdin: { isTTY: false }, nextTick: (f, ...a) => queueMicrotask(() => f(...a)), hrtime: Object.assign(() => [0, 0], { bigint: () => 0n }), uptime: () => 0, memoryUsage: () => ({ rss: 0 }), emitWarning() { } });
    st.setGlobal("fetch", undefined);
    const roots = [globalThis, Math, globalThis.crypto, globalThis.console, globalThis.Response?.prototype, globalThis.Headers?.prototype].filter(Boolean).map((o) => [o, Object.getOwnPropertyDescriptors(o)]);
    const restore = () => { for (const [n, d] of saved) if (d) Object.defineProperty(globalThis, n, d); else delete globalThis[n]; delete globalThis.__vf; delete globalThis.__vfcall;
      for (const [o, ds] of roots) for (const k of Reflect.ownKeys(o)) { if (o === globalThis && saved.has(k)) continue; const d = ds[k], now = Object.getOwnPropertyDescriptor(o, k); if (d === undefined) delete o[k]; else if (now.value !== d.value || now.get !== d.get) Object.defineProperty(o, k, d); }
    };
    let status = "ok", label = null, detail = null; unhandled = [];
    try {
      cur = []; globalThis.__vf = { contract: (name, o, f) => cur.push({ name, opts: f === undefined ? {} : o, f: f === undefined ? o : f }) };
      let p; let sync = true;
      globalThis.__vfcall = () => { const m = { exports: {} }; load(req, m, m.exports); const c = cur[index]; if (!c) throw new Error("no contract " + index); return c.f(makeG(st)); };
      p = callScript.runInThisContext({ timeout: 8000 });
      if (p && typeof p.then === "function") {
        let done = false, err; let val; p.then((v) => { done = true; }, (e) => { done = true; err = e; if (err === undefined || err === null) err = new Error("rejected with " + err); });
        let idle = 0, idleSince = 0;
        for (let n = 0; !done && n < 20000; n++) {
          await tick(); if (done || st.rejected || st.fail) break;
          if (pendingReal > 0) { await new Promise((r) => realSetTimeout(r, 1)); continue; }
          const live = st.timers.filter((t) => !t.dead);
          if (live.length === 0) { if (++idle === 1) idleSince = RealDate.now(); if (idle > 30 && RealDate.now() - idleSince > 3000) break; if (idle > 5) await new Promise((r) => realSetTimeout(r, 1)); continue; }
          idle = 0; let best = live[0]; for (const t of live) if (t.at < best.at) best = t;
          st.now = Math.max(st.now, best.at); if (best.every) best.at = st.now + best.every; else best.dead = true;
          globalThis.__vfcall = () => best.f(...best.args); callScript.runInThisContext({ timeout: 8000 });
          await tick();
        }
        if (!st.rejected && !st.fail) { if (!done) { status = "fail"; label = "completes"; detail = "the operation never completes"; } else if (err) throw err; }
      }
    } catch (e) {
      if (e instanceof Fail || st.fail || st.rejected || e instanceof Reject) { }
      else { status = "fail"; label = e?.code === "ERR_SCRIPT_EXECUTION_TIMEOUT" ? "completes" : "does not throw"; detail = String(e?.stack ?? e).slice(0, 800); }
    } finally { restore(); }
    if (st.rejected) return { status: "rejected" };
    if (st.fail) { status = "fail"; label = st.fail.label; detail = st.fail.detail; }
    return { status, label, detail, seen: st.seen, inputs: gen.trace };
  };
  return { run, names, sources: b.sources, dict };
};
// search for failing inputs: returns the first failure
export const search = async (runner, index, { seed, iters, ms, envs = [] }) => {
  const t0 = RealDate.now(); let ran = 0, rejected = 0; const seen = new Set();
  const go = async (s, env) => { const r = await runner.run(index, s, env); if (r.status === "rejected") { rejected++; return null; } ran++; for (const l of r.seen) seen.add(l); return r.status === "fail" ? { ...r, seed: s, env } : null; };
  for (const env of envs) { for (let k = 0; k < 3; k++) { const f = await go(seed + ":m" + k, env); if (f) return { failure: f, ran, rejected, seen }; } }
  for (let i = 0; i < iters && RealDate.now() - t0 < ms; i++) { const f = await go(seed + ":" + i, undefined); if (f) return { failure: f, ran, rejected, seen }; }
  return { failure: null, ran, rejected, seen };
};
if (process.argv[1] && path.basename(process.argv[1]) === "concrete.mjs") {
  const [file, idx, n] = process.argv.slice(2); const r = await makeRunner(path.resolve(file)); const ixs = idx === undefined || idx === "all" ? r.names.map((_, i) => i) : [Number(idx)];
  for (const i of ixs) { const t0 = RealDate.now(); const o = await search(r, i, { seed: process.env.VERIF_SEED ?? "1", iters: Number(n ?? 500), ms: 20000 }); console.log(r.names[i].name, "ran", o.ran, "rejected", o.rejected, "labels", [...o.seen].length, "/", r.names[i].labels.length, RealDate.now() - t0, "ms"); if (o.failure) console.log("  FAIL", o.failure.label, o.failure.detail, JSON.stringify(o.failure.inputs).slice(0, 600)); }
  process.exit(0);
}
