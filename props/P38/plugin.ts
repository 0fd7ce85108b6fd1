import { contract } from "vf";
import { runModule } from "modules";
import { meticulousCoverage } from "repo:backend-recorder-workerd/src/vite/index";
import { encode } from "./vlq";

const CODE = "export function main() {\nout(1);\nreturn out(2);\n}\n";
const world = (g, o = {}) => { g.setGlobal("process", { cwd: () => "/cwd", env: {} }); const w = { said: [] }; w.plugin = meticulousCoverage({ onWarning: (m) => { w.said.push(m); }, ...o }); return w; };
contract("ids are given out once, over all modules", { bounded: "4 modules" }, async (g) => {
  const w = world(g), n = 4, holes = g.choose("map", ["none", "first line", "second line"]), context = holes === "none" ? g.choose("context", [undefined, {}]) : { getCombinedSourcemap: () => ({ sources: ["x"], mappings: encode(holes === "first line" ? [[[0, 0, 0, 0]], [[0, 0, 1, 0]], [[0]], [[0, 0, 3, 0]]] : [[[0, 0, 0, 0]], [[0]], [[0, 0, 2, 0]], [[0, 0, 3, 0]]]) }) }, marked = holes === "none" ? [2, 3] : holes === "first line" ? [2] : [3], all = []; w.plugin.configResolved({ root: "/app" });
  for (let i = 0; i < n; i++) { const kind = g.choose("module" + i, ["two lines", "none", "unreadable"]), code = kind === "two lines" ? CODE : kind === "none" ? "export {};\n" : "let let"; const r = w.plugin.transform.call(context, code, "/app/src/m" + i + ".ts", { ssr: true }); g.ensure("an unreadable module is left alone", (r === null) === (kind !== "two lines")); if (r !== null) all.push({ i, r }); }
  const ids = [];
  for (const { i, r } of all) {
    const x = runModule(r.code, [[1, "main"]]), f = x.files[0];
    g.ensure("it says what it is", x.error === null && x.files.length === 1 && f.path === "src/m" + i + ".ts" && JSON.stringify(f.lineRanges) === JSON.stringify(marked.flatMap((l) => [l, l])));
    g.ensure("and does what it did", x.log.join() === "out 1,out 2,out 2");
    g.eq("its ids are its own", JSON.stringify(x.hits["1"]), JSON.stringify(marked.map((_l, k) => f.firstId + k))); for (let k = 0; k < marked.length; k++) ids.push(f.firstId + k);
    g.ensure("from the package", x.from.every((p) => p === "@alwaysmeticulous/backend-recorder-workerd"));
  }
  g.ensure("none twice", new Set(ids).size === ids.length);
  w.plugin.buildEnd(); g.ensure("what was done is told", w.said.length === 1 && (all.length === 0 ? w.said[0].includes("no modules") : w.said[0].includes(all.length + " module(s)") && w.said[0].includes(marked.length * all.length + " line marker(s)")));
});
contract("only the server's own modules are marked", { bounded: "the listed modules" }, async (g) => {
  const [id, own] = g.choose("module", [["/app/src/a.ts", 1], ["/app/src/a.tsx?v=3", 1], ["/app/src/a.vue", 1], ["/app/a.mjs", 1], ["C:/app/a.js", 1], ["/app/node_modules/x/i.js", 0], ["\u0000virtual.js", 0], ["virtual:x.ts", 0], ["/app/virtual:x.ts", 0], ["data:text/x.js", 0], ["https://x.test/a.js", 0], ["/app/a.css", 0], ["/app/a.json", 0], ["/app/noext", 0], ["/app/a.ts.txt", 0], ["/app/gen/a.ts", 2]]);
  const client = g.bool("client too"), ssr = g.choose("side", [undefined, { ssr: true }, { ssr: false }, {}]), exclude = g.choose("excluded", [undefined, [/\/gen\//], [/\/gen\//g], [/zz/, /gen/]]), times = 3, w = world(g, { includeClient: client, ...(exclude === undefined ? {} : { exclude }) });
  for (let i = 0; i < times; i++) { const r = w.plugin.transform.call(undefined, CODE, id, ssr); g.ensure("so", (r !== null) === ((client || (ssr !== undefined && ssr.ssr === true)) && (own === 1 || (own === 2 && exclude === undefined)))); }
});
contract("lines are found through the map of what was done before", { bounded: "the listed maps" }, async (g) => {
  const w = world(g), down = g.choose("lines stripped", [0, 1, 40]), gap = g.choose("gap", [false, true]); w.plugin.configResolved({ root: "/app" });
  const maps = encode([[[0, 0, down, 0]], [[0, 0, down + 1, 0], [5, 1, 900, 0]], gap ? [[0]] : [[0, 0, down + 2, 0]]]), twisted = encode([[[0, 1, down, 0]], [[0, 1, down + 1, 0], [5, 0, 900, 0]], gap ? [[0, 0, 7, 7]] : [[0, 1, down + 2, 0]]]);
  const how = g.choose("map", ["own", "own of two", "second of two", "relative", "named alike", "sources unknown", "no sources", "none", "throws", "null", "sections", "no mappings", "bad mappings", "text"]);
  const sources = how === "own" ? ["/elsewhere/b.ts"] : how === "own of two" ? ["/app/src/a.ts", "/app/src/b.ts"] : how === "second of two" ? [null, "/app/src/a.ts", ""] : how === "relative" ? ["src/b.ts", "./src/a.ts"] : how === "named alike" ? ["rc/a.ts", "/app/src/a.ts"] : how === "no sources" ? [] : ["/app/src/b.ts", "/x/src/c.ts"], at = how === "second of two" || how === "relative" || how === "named alike";
  const map = { sources, mappings: at ? twisted : maps }, context = how === "none" ? {} : { getCombinedSourcemap() { if (this !== context) throw new TypeError("not mine"); if (how === "throws") throw new Error("x"); return how === "null" ? null : how === "sections" ? { ...map, sections: [] } : how === "no mappings" ? { sources } : how === "bad mappings" ? { sources, mappings: 7 } : how === "text" ? "text" : map; } };
  const r = w.plugin.transform.call(context, CODE, "/app/src/a.ts", { ssr: true }), mapped = ["own", "own of two", "second of two", "relative", "named alike"].includes(how), lost = ["sources unknown", "no sources"].includes(how);
  g.ensure("a map of other files marks nothing", (r === null) === lost);
  if (r !== null) { const f = runModule(r.code, []).files[0]; g.eq("where they were", JSON.stringify(f.lineRanges), mapped ? (gap ? JSON.stringify([down + 2, down + 2]) : JSON.stringify([down + 2, down + 2, down + 3, down + 3])) : "[2,2,3,3]"); }
  w.plugin.buildEnd();
  g.ensure("what is missing is told", w.said[0].includes("had no source map") === !(mapped || lost) && w.said[0].includes("does not cover") === lost && w.said[0].includes("no original line") === (mapped && gap));
});
contract("a path is told from the root", {}, async (g) => {
  const w = world(g), root = g.choose("root", [undefined, "/app", "/app/"]), [id, want] = g.choose("module", [["/app/src/a.ts", "src/a.ts"], ["/app/a.ts", "a.ts"], ["/cwd/b.ts", "/cwd/b.ts"], ["/other/b.ts", "/other/b.ts"], ["/app/a\"b.ts", "a\"b.ts"]]); w.plugin.configResolved(root === undefined ? {} : { root });
  const r = w.plugin.transform.call(undefined, CODE, id, { ssr: true }), f = runModule(r.code, []).files[0];
  g.ensure("so", f.path === (root === undefined ? (id.startsWith("/cwd/") ? id.slice(5) : id) : want));
});
