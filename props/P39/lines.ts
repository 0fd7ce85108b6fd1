import { contract } from "vf";
import { diffs } from "parse-diff";
import { getGitDiff, parseGitDiffToEditedFiles } from "repo:cli/src/commands/local/get-edited-files.utils";
import { git } from "./lib";

// A chunk is a word: d is a line deleted, a one added, n one kept. Of its lines, which are edited?
const CHUNKS = ["d", "a", "da", "dda", "daa", "ddd", "aa", "nan", "ndn", "ndan", "nddann", "danda", "ndnnandn", "and", "dna", "dnd"];
const build = (word, at) => {
  const changes = [], edited = [], olds = [...word].filter((c) => c !== "a").length; let o = olds === 0 ? at + 1 : at, n = 1;
  const last = { line: olds === 0 ? at : at - 1 };
  for (const c of word) {
    if (c === "d") { edited.push(o); changes.push({ type: "del", del: true, ln: o, content: "-" }); last.line = o++; }
    else if (c === "a") { edited.push(last.line, last.line + 1); changes.push({ type: "add", add: true, ln: n++, content: "+" }); }
    else { changes.push({ type: "normal", normal: true, ln1: o, ln2: n++, content: " " }); last.line = o++; }
  }
  return { end: o - 1, edited, chunk: { content: "@@", changes, oldStart: at, oldLines: olds, newStart: 1, newLines: word.length } };
};
const ordered = (ranges) => ranges.every((r, i) => r[0] >= 1 && r[0] <= r[1] && (i === 0 || r[0] > ranges[i - 1][1] + 1));
contract("edited lines are those deleted and those beside what is added", {}, (g) => {
  const word = g.choose("chunk", CHUNKS), at = g.int("at", 0, 1000000), line = g.int("line", 1, 1000010); g.assume(at > 0 || /^a+$/.test(word));
  const c = build(word, at); diffs.files = [{ from: "src/a b.ts", to: "x", chunks: [c.chunk], additions: 0, deletions: 0 }];
  const r = parseGitDiffToEditedFiles("x");
  g.ensure("under its old name", r.length === 1 && r[0].filePath === "/src/a b.ts");
  g.ensure("no other line", r[0].editedRanges.some(([a, b]) => a <= line && line <= b) === c.edited.some((x) => x === line));
  g.ensure("in order, apart", ordered(r[0].editedRanges));
});
const TWO = ["d", "a", "da", "dd", "nan", "ndn", "ndan"];
contract("one change of a file says nothing about another", {}, (g) => {
  const at = g.int("at", 0, 1000000), gap = g.int("gap", 0, 1000000), one = g.choose("one", TWO), two = g.choose("two", TWO), line = g.int("line", 1, 2000020);
  const a = build(one, at); g.assume(at > 0 || one === "a"); const start = a.end + 1 + gap, b = build(two, start); g.assume(one !== "a" || gap > 0);
  diffs.files = [{ from: "f", to: "f", chunks: [a.chunk, b.chunk], additions: 0, deletions: 0 }];
  const [r] = parseGitDiffToEditedFiles("x");
  g.ensure("no other line", r.editedRanges.some(([x, y]) => x <= line && line <= y) === [...a.edited, ...b.edited].some((x) => x === line));
  g.ensure("in order, apart", ordered(r.editedRanges));
});
contract("each file for itself, a new one not at all", { bounded: "the listed diffs" }, (g) => {
  const FILES = {
    "new": ["diff --git a/n.ts b/n.ts\nnew file mode 100644\nindex 000..1\n--- /dev/null\n+++ b/n.ts\n@@ -0,0 +1,2 @@\n+a\n+b\n", null],
    "gone": ["diff --git a/g.ts b/g.ts\ndeleted file mode 100644\nindex 1..000\n--- a/g.ts\n+++ /dev/null\n@@ -1,3 +0,0 @@\n-a\n-b\n-c\n", ["/g.ts", [[1, 3]]]],
    "moved": ["diff --git a/o.ts b/m.ts\nsimilarity index 90%\nrename from o.ts\nrename to m.ts\n--- a/o.ts\n+++ b/m.ts\n@@ -7 +7 @@\n-a\n+b\n", ["/o.ts", [[7, 8]]]],
    "only moved": ["diff --git a/p/o.ts b/p/m.ts\nsimilarity index 100%\nrename from p/o.ts\nrename to p/m.ts\n", ["/p/o.ts", []]],
    "added to": ["diff --git a/a.ts b/a.ts\nindex 1..2\n--- a/a.ts\n+++ b/a.ts\n@@ -4,0 +5,2 @@ f() {\n+a\n+b\n@@ -9,2 +12,0 @@\n--- c\n-d\n@@ -20 +21 @@\n-a\n+++ b\n\\ No newline at end of file\n", ["/a.ts", [[4, 5], [9, 10], [20, 21]]]],
    "added on top": ["diff --git a/t.ts b/t.ts\n--- a/t.ts\n+++ b/t.ts\n@@ -0,0 +1 @@\n+a\n", ["/t.ts", [[1, 1]]]],
    "binary": ["diff --git a/b.png b/b.png\nindex 1..2\nBinary files a/b.png and b/b.png differ\n", ["/b.png", []]],
  };
  const list = g.choose("files", [[], ...Object.keys(FILES).map((f) => [f]), ["new", "added to"], ["gone", "new", "moved", "binary"], ["added to", "added on top", "only moved", "gone"]]), r = parseGitDiffToEditedFiles(list.map((f) => FILES[f][0]).join(""));
  const want = list.map((f) => FILES[f][1]).filter((x) => x !== null);
  g.eq("those, in order", JSON.stringify(r.filter((f) => f.editedRanges.length > 0).map((f) => [f.filePath, f.editedRanges])), JSON.stringify(want.filter((w) => w[1].length > 0)));
  g.ensure("and no other file", r.every((f) => want.some((w) => w[0] === f.filePath)));
});
contract("the lines are of what is there, against the commit given", {}, async (g) => {
  const sha = g.choose("sha", ["a".repeat(40), "a b;c"]), cwd = g.choose("cwd", [undefined, "/w/p"]), diff = g.choose("size", ["small", "much"]) === "much" ? "+".repeat(2000000) : "+x \n\n", r = git({ branch: "feature", diff: g.bool("fails") ? null : diff }), out = await g.attemptAsync(() => getGitDiff(sha, ...(cwd === undefined ? [] : [cwd])));
  if (g.bool("fails")) { g.ensure("no diff is made up", !out.ok); return; }
  g.ensure("whole", out.ok && out.value === diff);
  g.ensure("of that commit and of that directory", r.diffs.length === 1 && r.diffs[0].filter((x) => !x.startsWith("-")).join("|") === sha && [...r.cwds][0] === cwd);
  g.ensure("its lines alone", r.diffs[0].some((x) => /^(-U|--unified=)0$/.test(x)));
});
