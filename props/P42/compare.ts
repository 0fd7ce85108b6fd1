import { contract } from "vf";
import { commands } from "child_process";
import { disk } from "fs";
import { generateDebugWorkspace } from "repo:debug-workspace/src/generate-debug-workspace";

const D = "/ws/debug-data/", put = (p, v) => disk.put(D + p, typeof v === "string" ? v : JSON.stringify(v)), text = (p) => disk.text(D + p);
const ctx = (o) => ({ testRunId: undefined, replayDiffs: [], replayIds: [], sessionIds: [], projectId: "p1", orgAndProject: "o/p", commitSha: undefined, baseCommitSha: undefined, testRunStatus: undefined, screenshot: undefined, meticulousSha: undefined, baseMeticulousSha: undefined, executionSha: undefined, ...o });
const DIFF = [{ id: "d1", headReplayId: "h1", baseReplayId: "b1", sessionId: "s1", numScreenshotDiffs: 0 }];
const failed = (stdout) => ({ stdout, stderr: "", error: Object.assign(new Error("exit 1"), { stdout }) });
// what `diff -u` says of two files none of whose lines is in the other
const differ = (o) => { const [a, b] = o.argv.slice(-2), x = disk.text(a), y = disk.text(b), lines = (t, m) => t.split("\n").filter((l) => l !== "").map((l) => m + l).join("\n"); return x === y ? { stdout: "", stderr: "", error: null } : failed("--- " + a + "\n+++ " + b + "\n@@ -1 +1 @@\n" + lines(x, "-") + "\n" + lines(y, "+") + "\n"); };
const make = async (g, context, more = {}) => { g.setGlobal("console", { log() {}, info() {}, warn() {}, error() {}, debug() {} }); disk.put("/templates/CLAUDE.md", "kept"); return g.attemptAsync(() => generateDebugWorkspace({ client: {}, debugContext: context, workspaceDir: "/ws", additionalTemplatesDir: "/templates", writeContextJson: () => {}, ...more })); };
const has = (t, l) => t !== undefined && t.split("\n").includes(l);
contract("what differs is told of the replay debugged, against the other", { bounded: "logs of up to three lines" }, async (g) => {
  const route = g.choose("how they were given", ["a diff", "two replays"]), same = g.bool("same logs"), params = g.choose("parameters", ["same", "in another order", "other"]); commands.answer = (cmd, o) => (o.argv[0] === "diff" ? differ(o) : failed(""));
  const at = (role, id) => "replays/" + (route === "a diff" ? role : "other") + "/" + id + "/"; put(at("head", "h1") + "logs.deterministic.txt", "of head\nof head too\n"); put(at("base", "b1") + "logs.deterministic.txt", same ? "of head\nof head too\n" : "of base\n");
  put(at("head", "h1") + "launchBrowserAndReplayParams.json", '{"a":1,"b":{"c":1,"d":[2,1]}}'); put(at("base", "b1") + "launchBrowserAndReplayParams.json", { same: '{"a":1,"b":{"c":1,"d":[2,1]}}', "in another order": '{"b":{"d":[2,1],"c":1},"a":1}', other: '{"a":1,"b":{"c":1,"d":[1,2]}, "z":9}' }[params]);
  const r = await make(g, ctx({ replayIds: ["h1", "b1"], replayDiffs: route === "a diff" ? DIFF : [] })); g.ensure("it is made", r.ok);
  const log = text("log-diffs/h1-vs-b1.diff"), filtered = text("log-diffs/h1-vs-b1.filtered.diff"), sum = text("log-diffs/h1-vs-b1.summary.txt"), p = text("params-diffs/h1-vs-b1.diff");
  g.ensure("only if they do", (log === undefined) === same && (sum === undefined) === same && (p === undefined) === (params !== "other"));
  if (!same) { for (const t of [log, filtered]) g.ensure("more in head, less in base", has(t, "+of head") && has(t, "+of head too") && has(t, "-of base") && !has(t, "+of base")); g.ensure("and counted so", sum.includes("Total changed lines: 3 (+2 in head, -1 in base)")); }
  if (params === "other") g.ensure("so of the parameters", p.split("\n").some((l) => l.startsWith("-") && l.includes('"z": 9')) && !p.split("\n").some((l) => l.startsWith("+") && l.includes('"z": 9')));
});
contract("differences of noise only are told apart", { bounded: "logs of one line" }, async (g) => {
  const [a, b, noise] = g.choose("lines", [["at https://x1.tunnel-1.aa.io/a", "at https://x2.tunnel-2.bb.io/b", true], ["<script> request 12 was", "<script> request 13 was", true], ["request x12", "request x13", false], ["at X-Amz-Signature=ab1 kept", "at X-Amz-Signature=cd2 kept", true], ["one", "two", false], ["at https://a.lhr.life/a kept", "at https://b.lhr.life/a other", false]]); commands.answer = (cmd, o) => (o.argv[0] === "diff" ? differ(o) : failed(""));
  put("replays/head/h1/logs.deterministic.txt", a + "\n"); put("replays/base/b1/logs.deterministic.txt", b + "\n"); const r = await make(g, ctx({ replayIds: ["h1", "b1"], replayDiffs: DIFF }));
  const raw = text("log-diffs/h1-vs-b1.diff"), filtered = text("log-diffs/h1-vs-b1.filtered.diff"); g.ensure("whole first", r.ok && has(raw, "+" + a) && has(raw, "-" + b)); const changed = (filtered ?? "").split("\n").filter((l) => (l.startsWith("+") && !l.startsWith("+++")) || (l.startsWith("-") && !l.startsWith("---"))); g.ensure("what is not noise is kept", (changed.length === 0) === noise && (noise || changed.length === 2));
});
contract("the assets that differ", { bounded: "two assets" }, async (g) => {
  const names = ["a.js", "sub/b.css"], base = names.map((n) => g.choose("base " + n, [undefined, "x", "yy"])), head = names.map((n) => g.choose("head " + n, [undefined, "x", "yy", "zz"])); commands.answer = () => failed("");
  names.forEach((n, i) => { if (base[i] !== undefined) put("replays/base/b1/snapshotted-assets/" + n, base[i]); if (head[i] !== undefined) put("replays/head/h1/snapshotted-assets/" + n, head[i]); }); put("replays/head/h1/x", "kept");
  const r = await make(g, ctx({ replayIds: ["h1", "b1"], replayDiffs: DIFF }), { skipPrettifySnapshotAssets: true }); g.ensure("it is made", r.ok); const out = text("assets-diffs/h1-vs-b1.txt"), any = names.some((_, i) => base[i] !== head[i]);
  g.ensure("only if any do", (out !== undefined) === any); if (!any) return; const told = (mark, n) => out.split("\n").some((l) => l.startsWith("  " + mark + " " + n + " ("));
  names.forEach((n, i) => g.ensure("each as it is", told("+", n) === (base[i] === undefined && head[i] !== undefined) && told("-", n) === (base[i] !== undefined && head[i] === undefined) && told("~", n) === (base[i] !== undefined && head[i] !== undefined && base[i] !== head[i])));
});
contract("the change of the pull request is from where it left the main branch", { bounded: "two main branches" }, async (g) => {
  const head = g.choose("head", [undefined, "c1"]), base = g.choose("base", [undefined, "c0"]), main = g.choose("origin/main", ["m1", "", "fails"]), master = g.choose("origin/master", ["m2", "fails"]), repo = g.bool("a checkout"), change = g.choose("change", ["+x\n", ""]), asked = [];
  commands.answer = (cmd, o) => { const a = o.argv; if (a[0] !== "git") return failed(""); asked.push([a.slice(1).join(" "), o.cwd]); if (a[1] === "merge-base") { const v = a[2] === "origin/main" ? main : a[2] === "origin/master" ? master : "fails"; return v === "fails" || a[3] !== "c1" ? failed("") : { stdout: v + "\n", stderr: "", error: null }; } return { stdout: a[1] === "diff" ? change : "", stderr: "", error: null }; };
  if (repo) disk.put("/ws/project-repo/x", ""); put("x", ""); const r = await make(g, ctx({ commitSha: head, baseCommitSha: base })); g.ensure("it is made", r.ok);
  const from = base ?? (main === "fails" || main === "" ? (master === "fails" ? undefined : master) : main), has = repo && head !== undefined && from !== undefined, diffs = asked.filter(([a]) => a.startsWith("diff")); g.ensure("of the checkout", asked.every(([, cwd]) => cwd === "/ws/project-repo"));
  g.ensure("from there to the commit", has ? diffs.length === 1 && diffs[0][0] === "diff " + from + "..c1" : diffs.length === 0); g.ensure("kept whole", text("pr-diff.txt") === (has && change !== "" ? change : undefined));
});
