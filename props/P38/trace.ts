import { contract } from "vf";
import { MetTraceMap } from "repo:backend-recorder-workerd/src/vite/met-workerd-trace-mapping/trace-mapping";
import { decode } from "repo:backend-recorder-workerd/src/vite/met-workerd-trace-mapping/vlq";
import { encode } from "./vlq";

// The segment that covers a column: of those at the last column not beyond it, the first if that is the column itself, else the last
const covering = (segments, column) => { let best = null; for (const s of segments) if (s[0] <= column && (best === null || s[0] > best[0] || (s[0] === best[0] && s[0] < column))) best = s; return best; };
const questions = async (g, most, as, q) => {
  const n = g.choose("segments", most), line = []; let last = 0;
  for (let i = 0; i < n; i++) { const c = g.int("column" + i, 0, 100000); g.assume(i === 0 || c > last); last = c; line.push(i === 1 && n > 2 ? [c] : [c, i % 2, 10 * i + 3, i]); }
  const other = [[0, 0, 77, 0], [5, 1, 78, 4]], map = new MetTraceMap({ sources: ["a", "b"], mappings: [[...other], as === "sorted" ? [...line] : [...line].reverse()] });
  for (let k = 0; k < q; k++) {
    const at = q === 1 ? g.choose("line", [2, 1, 3]) : k === 1 ? g.choose("line", [2, 1]) : 2, c = g.int("asked" + k, -5, 200000), p = map.originalPositionFor(at, c), s = c < 0 || at === 3 ? null : covering(at === 2 ? line : other, c);
    if (s === null || s.length === 1) g.ensure("nothing is known of it", p === null);
    else g.ensure("it is where the segment says", p !== null && p.sourceIndex === s[1] && p.line === s[2] + 1 && p.column === s[3]);
  }
};
contract("a position is that of the segment that covers it", { bounded: "up to 5 segments a line" }, async (g) => { await questions(g, [0, 1, 2, 3, 4, 5], g.choose("order", ["sorted", "reversed"]), 1); });
contract("whatever was asked before", { bounded: "3 segments a line, 2 questions" }, async (g) => { await questions(g, [3], "sorted", 2); });
contract("and before that", { bounded: "2 segments a line, 3 questions" }, async (g) => { await questions(g, [2], "sorted", 3); });
contract("of segments at one column the first counts there, the last after it", { bounded: "up to 3 segments" }, async (g) => {
  const c = g.int("column", 0, 1000), d = g.int("more", 0, 3), asked = g.int("asked", 0, 2000), map = new MetTraceMap({ sources: ["a"], mappings: [[[c, 0, 1, 0], [c, 0, 2, 0], [c + d, 0, 3, 0]]] });
  const before = g.bool("asked before"); if (before) map.originalPositionFor(1, g.int("earlier", 0, 2000));
  const p = map.originalPositionFor(1, asked);
  g.ensure("so", asked < c ? p === null : p !== null && p.line === (d > 0 && asked >= c + d ? 4 : asked === c ? 2 : d > 0 ? 3 : 4));
});
contract("a map is read as it was written", { bounded: "the listed numbers" }, async (g) => {
  const N = [0, 15, 16, 32, 1000, 1048576, 2147483646], a = g.choose("a", N), b = g.choose("b", N), c = g.choose("c", [0, 16, 70000]), how = g.choose("names", [false, true]), down = g.choose("falling", [false, true]);
  const lines = [[[0, down ? 2 : 0, a, b], [c + 1], [c + 2, down ? 0 : 1, b, a, ...(how ? [5] : [])]], [], [[c, 1, c, c, ...(how ? [2] : [])], [c + 40, 0, 0, 0]], ...(down ? [[]] : [])].map((l) => l.map((s) => (s.length === 5 || s.length === 1 || !how ? s : [...s, 9])));
  g.eq("line by line", JSON.stringify(decode(encode(lines))), JSON.stringify(lines));
  const map = new MetTraceMap({ sources: ["x", "y", "z"], mappings: encode(lines) }), p = map.originalPositionFor(3, c + 39);
  g.ensure("and used so", p.line === c + 1 && p.sourceIndex === 1 && p.column === c && map.originalPositionFor(2, 5) === null && map.originalPositionFor(1, c + 1) === null && map.originalPositionFor(1, c + 2).line === b + 1);
});
contract("a line written out of order is put in order", { bounded: "the listed columns" }, async (g) => {
  const cols = g.choose("columns", [[5, 2, 9], [9, 5, 2], [0, 7, 3], [4, 1, 1]]), line = cols.map((c, i) => [c, 0, i * 10, 0]), asked = g.int("asked", 0, 12), s = covering(line, asked), p = new MetTraceMap({ sources: ["a"], mappings: encode([line]) }).originalPositionFor(1, asked);
  g.ensure("before it is asked", s === null ? p === null : p !== null && p.line === s[2] + 1);
});
contract("without mappings it is refused", {}, async (g) => {
  const m = g.choose("map", [{}, { mappings: null }, { mappings: undefined, sources: [] }]); g.ensure("so", !g.attempt(() => new MetTraceMap(m)).ok);
  g.ensure("an empty one knows nothing", new MetTraceMap({ mappings: "" }).originalPositionFor(1, g.int("c", 0, 10)) === null);
});
