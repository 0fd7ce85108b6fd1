import { contract } from "vf";
import { runModule } from "modules";
import { instrumentModule } from "repo:backend-recorder-workerd/src/vite/instrument";
import { KINDS, module, lines } from "./lib";

const CALLS = [[1, "main"], [3, "kept"], [4, "other"]];
// What was marked in a request, as lines
const marked = (r, k, ranges, first) => { const out = []; for (const id of r.hits[k] ?? []) { const at = ranges[id - first]; for (let n = at[0]; n <= at[1]; n++) out.push(n); } return out; };
const same = (g, code, more = {}) => {
  const first = more.first ?? 0, i = instrumentModule({ code, fileName: "src/a.ts", firstId: first, runtimeModuleId: "the-runtime", ...(more.resolve === undefined ? {} : { resolveOriginalLine: more.resolve }) });
  const before = runModule(code, CALLS); g.assume(before.error === null);
  if (i === null) { g.ensure("there is something to mark", false); return i; }
  const after = runModule(i.code, CALLS);
  g.eq("it does what it did", after.error + " " + after.log.join("\n"), "null " + before.log.join("\n"));
  g.ensure("it reports to the runtime alone", after.from.every((n) => n === "the-runtime"));
  return { i, before, after, first };
};
const honest = (g, code, t) => {
  const { i, before, after, first } = t, said = lines(code);
  for (const k of [1, 2, 3, 4]) {
    const hit = marked(after, k, i.lineRanges, first), ran = said.filter((n) => before.log.includes("at" + n + "@" + k));
    g.ensure("a line that ran in a request is marked in it", ran.every((n) => hit.includes(n)));
    g.ensure("no other line is", said.every((n) => ran.includes(n) || !hit.includes(n)));
  }
  g.ensure("ids are those given out", Object.keys(after.hits).every((k) => after.hits[k].every((id) => id >= first && id < first + i.lineRanges.length)));
  g.ensure("a line is not of another file", i.lineRanges.every((r) => r[0] >= 1 && r[1] >= r[0] && r[1] <= code.split("\n").length) && i.droppedMarkers === 0);
};
const LEAVES = ["plain", "concise", "concise object", "concise list", "concise async", "long call", "declared"];
const ALL = Object.keys(KINDS);
const nested = (g, some) => {
  const a = g.choose("statement", some), b = LEAVES.includes(a) ? "plain" : g.choose("within", ALL), code = module(KINDS[a](KINDS[b]([])));
  const t = same(g, code, { first: 7 }); if (t !== null) honest(g, code, t);
};
contract("a marked module does what it did, and says truly what ran", { bounded: "the listed statements, one within another" }, async (g) => { nested(g, ALL.slice(0, 9)); });
contract("so too", { bounded: "the listed statements, one within another" }, async (g) => { nested(g, ALL.slice(9, 19)); });
contract("so too, for functions", { bounded: "the listed statements, one within another" }, async (g) => { nested(g, ALL.slice(19, 26)); });
contract("so too, for what is run later", { bounded: "the listed statements, one within another" }, async (g) => { nested(g, ALL.slice(26)); });
contract("and so does one with three", { bounded: "the listed statements, three deep" }, async (g) => {
  const some = ["kept", "other request", "cases", "arrow", "derived", "generator", "bare", "thrown"], a = g.choose("statement", some), b = g.choose("within", ["kept", "arrow", "cases", "other request", "async"]), c = g.choose("within that", ["kept", "concise", "directive", "no semicolons", "default"]), code = module(KINDS[a](["at(@);", "{", ...KINDS[b](KINDS[c](["at(@);"])), "}", "at(@)"]));
  const t = same(g, code); if (t !== null) honest(g, code, t);
});
contract("however a module begins and ends", { bounded: "the listed beginnings and ends" }, async (g) => {
  const first = g.choose("begins", [[], ["#!/usr/bin/env node"], ["'use strict';"], ["// first"], ["/* a", "b */"], ["", ""]]), last = g.choose("ends", [[], ["// last"], ["//# sourceMappingURL=x"], ["/* end */"], ["export { main as named };"], ["export default function () {", "at(@);", "}"], ["export default () => free(1)"], ["export default class {", "m() { return 1; }", "}"]]), end = g.choose("end", ["", "\n"]), code = module(["at(@);"], { first, last, end });
  const t = same(g, code); if (t !== null) honest(g, code, t);
});
contract("what it cannot read or mark it leaves alone", { bounded: "the listed texts" }, async (g) => {
  const code = g.choose("text", ["", "export const a = 1;\nif (a) { out(a); }\n", "function f() {}\n", "class A { static { out(1); } }", "const x: number = 1; function f() { return x; }", "function (", "@dec class A { m() { return 1; } }", "const a = <div/>;", "import x from 'y';\nexport * from 'z';", "#!/usr/bin/env node", "export {};", "const o = { m() {} };"]);
  g.ensure("no marks", instrumentModule({ code, fileName: "a.ts", firstId: 0, runtimeModuleId: "rt" }) === null);
});
contract("lines are those of the source, and unknown ones are not guessed", {}, async (g) => {
  const s = g.int("first line", -3, 1000000), e = g.int("last line", -3, 1000000), gone = g.choose("unknown", ["none", "first", "last", "one line"]), first = g.int("first id", 0, 1000000);
  const code = "export function f() {\nout(\n1,\n);\nout(2);\nconst k = () => {\nreturn 3;\n};\nreturn k;\n}\n";
  const known = { 2: gone === "first" ? null : s, 4: gone === "last" ? null : e, 5: gone === "one line" ? null : 50, 6: 60, 7: 70, 8: 80, 9: 90 };
  const i = instrumentModule({ code, fileName: "a.ts", firstId: first, runtimeModuleId: "rt", resolveOriginalLine: (n, c) => (n === 2 && c !== 0 ? 999 : known[n] ?? null) });
  const want = [...(gone === "first" ? [] : [[s, gone !== "last" && e > s ? e : s]]), ...(gone === "one line" ? [] : [[50, 50]]), [60, 60], [70, 70], [90, 90]];
  g.ensure("as many as can be placed", i.lineRanges.length === want.length && i.droppedMarkers === (gone === "first" || gone === "one line" ? 1 : 0));
  i.lineRanges.forEach((r, n) => { g.ensure("where they are", r.length === 2 && r[0] === want[n][0] && r[1] === want[n][1]); });
});
