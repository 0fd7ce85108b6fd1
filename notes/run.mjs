// bundle demo.ts (import "repo:<package>/src/..." from the current directory's packages) and run it; packages that are not installed become stubs
import { createRequire } from "node:module";
import path from "node:path";
import fs from "node:fs";
import os from "node:os";
import { pathToFileURL } from "node:url";
const require = createRequire("/opt/veriftools/node/node_modules/x.js");
const esbuild = require("esbuild");
const root = process.cwd(); const entry = path.resolve(process.argv[2]);
const find = (p) => [p, p + ".ts", p + ".tsx", p + ".js", p + "/index.ts"].find((q) => fs.existsSync(q) && fs.statSync(q).isFile());
const stubs = path.join(path.dirname(entry), "stub");
const plugin = { name: "r", setup(b) {
  b.onResolve({ filter: /^repo:/ }, (a) => ({ path: find(path.join(root, "packages", a.path.slice(5))) }));
  b.onResolve({ filter: /^[^./]/ }, (a) => {
    if (a.kind === "entry-point" || a.path.startsWith("repo:")) return;
    const st = stubs + "_" + a.path.replace(/\//g, "_") + ".ts"; if (fs.existsSync(st)) return { path: st };
    const own = /^@alwaysmeticulous\/([a-z-]+)$/.exec(a.path), src = own && find(path.join(root, "packages", own[1], "src/index.ts")); if (src && fs.existsSync(path.join(path.dirname(entry), "own.txt"))) return { path: src };
    const nb = a.path.replace(/^node:/, ""); if (require("module").builtinModules.includes(nb)) return { path: a.path, external: true };
    return { path: a.path, namespace: "stub" };
  });
  b.onResolve({ filter: /^\.\.?\// }, (a) => { if (a.namespace === "file" && !find(path.resolve(path.dirname(a.importer), a.path).replace(/\.js$/, ""))) return { path: a.path, namespace: "stub" }; });
  b.onLoad({ filter: /.*/, namespace: "stub" }, () => ({ contents: "const p = new Proxy(function(){}, { get: (t, k) => k === '__esModule' ? true : k === Symbol.toPrimitive ? () => 'stub' : k === 'then' ? undefined : p, apply: () => p, construct: () => p }); module.exports = p;", loader: "js" }));
} };
const dir = fs.mkdtempSync(path.join(os.tmpdir(), "demo-")); const out = path.join(dir, "d.cjs");
await esbuild.build({ entryPoints: [entry], bundle: true, platform: "node", format: "cjs", outfile: out, plugins: [plugin], logLevel: "error" });
let code = 0;
try { const m = require(out); await m.default?.(); await m.done; } catch (e) { console.error(e); code = 1; } finally { fs.rmSync(dir, { recursive: true }); }
process.exit(code);
