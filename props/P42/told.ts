import { contract } from "vf";
import { commands } from "child_process";
import { disk } from "fs";
import { setMeticulousLocalDataDir } from "repo:common/src/local-data/local-data";
import { generateDebugWorkspace } from "repo:debug-workspace/src/generate-debug-workspace";

const D = "/ws/debug-data/", put = (p, v) => disk.put(D + p, typeof v === "string" ? v : JSON.stringify(v)), text = (p) => disk.text(D + p), json = (p) => JSON.parse(text(p));
const ctx = (o) => ({ testRunId: undefined, replayDiffs: [], replayIds: [], sessionIds: [], projectId: "p1", orgAndProject: "o/p", commitSha: undefined, baseCommitSha: undefined, testRunStatus: undefined, screenshot: undefined, meticulousSha: undefined, baseMeticulousSha: undefined, executionSha: undefined, ...o });
const DIFF = [{ id: "d1", headReplayId: "h1", baseReplayId: "b1", sessionId: "s1", numScreenshotDiffs: 0 }];
const make = async (g, context, more = {}) => { g.setGlobal("console", { log() {}, info() {}, warn() {}, error() {}, debug() {} }); const T = Date; g.setGlobal("Date", class extends T { toISOString() { return "2026-01-01T00:00:00.000Z"; } }); commands.answer = () => ({ stdout: "", stderr: "", error: new Error("exit 1") }); setMeticulousLocalDataDir("/local"); disk.put("/templates/CLAUDE.md", "kept"); return g.attemptAsync(() => generateDebugWorkspace({ client: {}, debugContext: context, workspaceDir: "/ws", additionalTemplatesDir: "/templates", ...more })); };
const ROLES = [["head", "h1"], ["base", "b1"], ["other", "o1"]], shot = (at, eventNumber) => ({ kind: "screenshot", virtualTimeStart: at, virtualTimeEnd: at + 1, data: { identifier: { type: "after-event", eventNumber } } });
contract("every screenshot is told with its replay, time and page", { bounded: "three replays with two screenshots" }, async (g) => {
  const there = ROLES.map(([r]) => g.bool(r + " there")), html = g.bool("page kept"), events = g.choose("events", [[0, 1], [3, 12]]), out = [];
  ROLES.forEach(([role, id], i) => { if (there[i]) { put("replays/" + role + "/" + id + "/timeline.json", [{ kind: "urlChange", virtualTimeStart: 5 }, shot(10 + i, events[0]), { kind: "screenshot", data: {} }, shot(20 + i, events[1])]); if (html) put("replays/" + role + "/" + id + "/screenshots/screenshot-after-event-" + String(events[0]).padStart(5, "0") + ".html", "<p>"); } }); put("x", "");
  const r = await make(g, ctx({ replayIds: ["h1", "b1", "o1"], replayDiffs: DIFF }), { writeContextJson: (...a) => out.push(a) }); g.ensure("it is made", r.ok && out.length === 1); const map = out[0][4];
  g.ensure("no other", Object.keys(map).length === 2 * there.filter((x) => x).length);
  ROLES.forEach(([role, id], i) => [0, 1].forEach((n) => { const name = "screenshot-after-event-" + String(events[n]).padStart(5, "0"), e = map[role + "/" + id + "/" + name + ".png"]; g.ensure("each", (e !== undefined) === there[i]); if (there[i]) g.ensure("as it was", e.replayId === id && e.replayRole === role && e.virtualTimeStart === 10 * (n + 1) + i && e.virtualTimeEnd === 10 * (n + 1) + i + 1 && e.eventNumber === events[n] && e.htmlFilename === (html && n === 0 ? name + ".html" : null)); }));
});
contract("the log around the screenshot debugged, of both", { bounded: "logs of three marked lines among others" }, async (g) => {
  const at = g.choose("at", [10, 25, 40]), far = g.choose("lines between", [1, 35]), both = g.bool("base has it"), lines = (p) => [10, 24, 41].flatMap((t, i) => ["[virtual: " + String(t) + "ms] took Screenshot " + p + String(i), ...Array.from({ length: far }, (_, k) => "[virtual: 25ms] " + p + "line " + String(i) + "-" + String(k))]);
  put("replays/head/h1/timeline.json", [shot(at, 3), shot(99, 4)]); put("replays/head/h1/logs.deterministic.txt", lines("h").join("\n")); put("replays/base/b1/timeline.json", both ? [shot(at, 3)] : []); put("replays/base/b1/logs.deterministic.txt", lines("b").join("\n"));
  const r = await make(g, ctx({ replayIds: ["h1", "b1"], replayDiffs: DIFF, screenshot: "screenshot-after-event-00003.png" }), { writeContextJson: () => {} }), t = text("screenshot-context/h1-vs-b1-screenshot-after-event-00003.txt"); g.ensure("it is made", r.ok && t !== undefined); const i = { 10: 0, 25: 1, 40: 2 }[at];
  const said = t.split("\n"), here = (p) => said.includes(">>> [virtual: " + String([10, 24, 41][i]) + "ms] took Screenshot " + p + String(i)); g.ensure("the line of it", here("h") && here("b") === both && said.filter((l) => l.startsWith(">>> ")).length === (both ? 2 : 1));
  for (const p of both ? ["h", "b"] : ["h"]) { const all = lines(p), n = all.findIndex((l) => l.endsWith("Screenshot " + p + String(i))); all.forEach((l, k) => g.ensure("and thirty around it", k === n || said.includes(l) === (Math.abs(k - n) <= 30))); }
});
contract("what is told of the whole", { bounded: "three replays and two sessions" }, async (g) => {
  const t = g.string("text", ["a", "q\"x"]), stats = g.choose("stats", [undefined, { countByType: { pollyReplay: 2, jsReplay: 3, urlChange: 1 } }, {}, { countByType: {} }]), shots = g.choose("screenshots", [undefined, 0, 2]), repo = g.choose("repo", [undefined, "/repo/x"]), log = g.choose("log", ["", "a\nb\n", "a\nb"]), session = g.bool("session there");
  ROLES.forEach(([role, id]) => put("replays/" + role + "/" + id + "/timeline.json", [{ kind: "a", virtualTimeStart: 5 }, { kind: "b" }, { kind: "a", virtualTimeStart: 3.5 }, { kind: "a", virtualTimeStart: 25.2 }])); if (stats !== undefined) put("replays/head/h1/timeline-stats.json", stats); put("replays/head/h1/logs.concise.txt", log); if (session) put("sessions/s1/data.json", {});
  if (shots !== undefined) { disk.put("/local/replays/h1/screenshots/x.json", ""); for (let i = 0; i < shots; i++) disk.put("/local/replays/h1/screenshots/" + String(i) + ".png", ""); }
  const r = await make(g, ctx({ replayIds: ["o1", "h1", "b1"], sessionIds: ["s1", "s2"], replayDiffs: DIFF, testRunId: t, commitSha: "c1", baseCommitSha: undefined, meticulousSha: "m1-unclean-x", baseMeticulousSha: "m2", testRunStatus: "Failure" }), { projectRepoDir: repo }); g.ensure("it is made", r.ok); const c = json("context.json");
  g.ensure("what is debugged", c.testRunId === t && c.commitSha === "c1" && c.orgProject === "o/p" && c.testRunStatus === "Failure" && c.baseMeticulousSha === "m2" && c.baseMeticulousBuildUnclean === false && JSON.stringify(c.sessions) === '["s1","s2"]' && JSON.stringify(c.replayDiffs) === JSON.stringify(DIFF) && (c.paths.projectRepo !== undefined) === (repo !== undefined));
  g.ensure("which part each plays", JSON.stringify(c.replays) === JSON.stringify({ head: ["h1"], base: ["b1"], other: ["o1"] }));
  const of = (id) => c.replayComparison.find((e) => e.replayId === id), h = of("h1"), counts = stats === undefined ? undefined : stats.countByType ?? {}; g.ensure("every replay", c.replayComparison.length === 3 && ROLES.every(([role, id]) => of(id).role === role && of(id).totalVirtualTimeMs === 22));
  g.ensure("as it ran", h.totalEvents === (counts === undefined ? null : Object.keys(counts).length === 0 ? 0 : 6) && h.totalNetworkRequests === (counts?.pollyReplay ?? null) && h.totalAnimationFrames === (counts?.jsReplay ?? null) && h.screenshotCount === (shots ?? null) && of("b1").totalEvents === null);
  const f = (p) => c.fileMetadata.find((e) => e.path === "debug-data/" + p), l = f("replays/head/h1/logs.concise.txt"); g.ensure("and the files there are", l !== undefined && l.bytes === log.length && c.fileMetadata.every((e) => text(e.path.slice("debug-data/".length)) !== undefined) && (f("sessions/s1/data.json") !== undefined) === session && (f("session-summaries/s1.txt") !== undefined) === session && ROLES.every(([role, id]) => f("replays/" + role + "/" + id + "/timeline.json") !== undefined));
  g.ensure("with their lines", g.isSymbolic() || l.lines === log.split("\n").length - 1);
});
contract("the differences of each diff, in short", { bounded: "two diffs with two screenshots" }, async (g) => {
  const fraction = g.choose("fraction", [0, 0.5, 0.000012, undefined]), n = g.choose("results", [0, 1, 2]), big = { width: 1, height: 2, mismatchPixels: 3, mismatchFraction: fraction, diffFullFile: "f", changedSectionsClassNames: ["c"], rest: "dropped" }, results = [{ identifier: { type: "end-state" }, outcome: "diff", diffToBaseScreenshot: big }, { identifier: { type: "after-event", eventNumber: 1 }, outcome: "no-diff" }].slice(0, n);
  put("diffs/d1.json", { data: { screenshotDiffResults: results } }); put("diffs/d2.json", {}); const r = await make(g, ctx({}), { writeContextJson: () => {} }); g.ensure("it is made", r.ok && text("diffs/d2.summary.json") === undefined && (text("diffs/d1.summary.json") !== undefined) === n > 0);
  if (n === 0) return; const s = json("diffs/d1.summary.json"); g.ensure("each", s.length === n && s.every((e, i) => JSON.stringify(e.identifier) === JSON.stringify(results[i].identifier) && e.outcome === results[i].outcome)); g.ensure("as it is", s[0].mismatchFraction === fraction && s[0].width === 1 && s[0].height === 2 && s[0].mismatchPixels === 3 && s[0].diffFullFile === "f" && (fraction === undefined) === (s[0].mismatchPercent === undefined) && (fraction === undefined || Math.abs(parseFloat(s[0].mismatchPercent) - fraction * 100) < 0.001));
});
