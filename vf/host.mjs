// What runs outside the code under contract, on concrete values, in both engines: a parser of modules and a machine that runs one.
import { createRequire } from "node:module";
const require = createRequire("/opt/veriftools/node/node_modules/");
const acorn = require("acorn"), ts = require("typescript"), MS = require("magic-string"), MagicString = MS.default ?? MS;
const plain = (x) => (Array.isArray(x) ? x.map(plain) : x !== null && typeof x === "object" ? (x instanceof RegExp ? {} : Object.fromEntries(Object.keys(x).map((k) => [k, plain(x[k])]))) : typeof x === "bigint" ? String(x) : x);
export const host = {
  MagicString,
  parseModule: (code, o) => { try { return { ok: true, tree: plain(acorn.parse(code, { ...o })) }; } catch (e) { return { ok: false, message: e.message }; } },
  // Runs a module: what it says (with the request it says it in), and what is marked in each request
  runModule: (code, calls) => {
    const r = { error: null, log: [], hits: {}, files: [], from: [] };
    try { acorn.parse(code, { ecmaVersion: "latest", sourceType: "module", allowHashBang: true }); } catch (e) { r.error = "no module: " + e.message; return r; }
    let now = 0; const sinks = {}, kept = [];
    const sink = () => (now === 0 ? undefined : (sinks[now] ??= new Uint8Array(4096)));
    const rt = { __mcEnter: sink, __mcHit: (id) => { const s = sink(); if (s) s[id] = 1; }, registerCoverageFile: (f) => { r.files.push(plain(f)); } };
    const world = {
      at: (n) => { r.log.push("at" + n + "@" + now); return n; }, free: (n) => { r.log.push("free" + n + "@" + now); return n; }, out: (v) => { r.log.push("out " + JSON.stringify(v)); return v; },
      keep: (f) => { kept.push(f); }, req: (k, f) => { const was = now; now = k; try { return f(); } finally { now = was; } },
    };
    try {
      const js = ts.transpileModule(code.replace(/^#!.*/, ""), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ESNext } }).outputText, m = { exports: {} };
      new Function("module", "exports", "require", ...Object.keys(world), js)(m, m.exports, (n) => { r.from.push(n); return rt; }, ...Object.values(world));
      for (const [k, name] of calls) { now = k; try { if (name === "kept") for (const f of kept.splice(0)) f(); else world.out(m.exports[name]() ?? null); } catch (e) { r.log.push("throws " + (e instanceof Error ? e.message : JSON.stringify(e))); } now = 0; }
    } catch (e) { r.error = String(e); }
    for (const k of Object.keys(sinks)) { r.hits[k] = []; sinks[k].forEach((v, i) => { if (v) r.hits[k].push(i); }); }
    return r;
  },
};
