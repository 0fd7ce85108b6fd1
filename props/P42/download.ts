import { contract } from "vf";
import { disk } from "fs";
import { net } from "axios";
import { source } from "stream";
import { zips } from "extract-zip";
import { downloadDebugData } from "repo:debug-workspace/src/download-debug-data";

const D = "/ws/debug-data/", loc = (key, filePath) => ({ signedUrl: "https://s3.test/" + key, filePath });
const quiet = (g) => { g.setGlobal("console", { log() {}, info() {}, warn() {}, error() {}, debug() {} }); g.setGlobal("process", { env: { METICULOUS_DIR: "/m", METICULOUS_IS_CLOUD_REPLAY: "true" }, cwd: () => "/cwd", exit: (c) => { throw { exit: c }; } }); g.setGlobal("setTimeout", (f, ms) => { if (ms < 60000) Promise.resolve().then(f); return 0; }); g.setGlobal("clearTimeout", () => {}); };
// what the service has of each replay: a timeline, logs and a screenshot with what is known of it
const serve = () => {
  net.answer = (r) => { const key = r.url.slice("https://s3.test/".length); return { data: source([{ length: 2, text: "Z:" }, { length: key.length, text: key }], "ends"), headers: {} }; };
  zips.entries = (p) => { const key = disk.text(p); if (key === undefined || !key.startsWith("Z:zip-")) return []; const [name, r] = key.slice(6).split("@"); return name === "logs" ? [{ name: "logs.ndjson", text: JSON.stringify({ type: "log", message: "of " + r, source: "application" }) }] : [{ name: name === "m1" ? "s1.metadata.json" : name + ".json", text: "of " + r }]; };
};
const offered = (r) => ({ timeline: loc("zip-timeline@" + r, "t"), logs: loc("zip-logs@" + r, "l"), playbackData: loc("zip-playback@" + r, "p"), screenshots: { s1: { image: loc("png@" + r, "screenshots/s1.png"), metadata: loc("zip-m1@" + r, "screenshots/s1.meta") } }, diffs: {}, snapshottedAssets: loc("zip-sa@" + r, "sa.zip") });
const client = (no) => { const asked = []; return { asked, get: async (url, o) => { const u = url.startsWith("/") ? url.slice(1) : url; asked.push(u); await undefined; const s = no(u); if (s !== undefined) throw Object.assign(new Error("status " + String(s)), { isFetchError: true, response: { status: s, data: {} } }); const r = u.split("/")[1];
  return { data: u.endsWith("/download-urls") ? offered(r) : u.startsWith("replays/") ? { id: r, version: "v3" } : u.endsWith("/pr-diff") || u.endsWith("/pr-description") ? { content: "the " + u } : { is: u } }; } }; };
const DIFFS = [{ id: "d1", headReplayId: "r1", baseReplayId: "r2", sessionId: "s1", numScreenshotDiffs: 0 }, { id: "d2", headReplayId: "r4", baseReplayId: "r1", sessionId: "s1", numScreenshotDiffs: 0 }];
const context = (o) => ({ testRunId: undefined, replayDiffs: [], replayIds: [], sessionIds: [], ...o });
contract("each replay is where its part in the diff says", { bounded: "up to four replays with one file of each listed kind" }, async (g) => {
  quiet(g); serve(); const diffs = g.choose("diffs", [[], ["d1"], ["d1", "d2"]]), replayDiffs = DIFFS.filter((d) => diffs.includes(d.id)), replayIds = g.choose("replays", [["r1"], ["r1", "r2"], ["r2", "r1", "r3", "r4"]]), c = client(() => undefined);
  const r = await g.attemptAsync(() => downloadDebugData({ client: c as any, debugContext: context({ replayDiffs, replayIds }) as any, workspaceDir: "/ws", maxConcurrentDownloads: g.choose("at once", [1, 2, undefined]) })); g.ensure("it succeeds", r.ok);
  for (const id of ["r1", "r2", "r3", "r4"]) { const role = replayDiffs.some((d) => d.headReplayId === id) ? "head" : replayDiffs.some((d) => d.baseReplayId === id) ? "base" : "other";
    for (const x of ["head", "base", "other"]) g.ensure("there, whole, and only there", replayIds.includes(id) && x === role ? disk.text(D + "replays/" + x + "/" + id + "/timeline.json") === "of " + id && disk.text(D + "replays/" + x + "/" + id + "/screenshots/s1.metadata.json") === "of " + id && disk.text(D + "replays/" + x + "/" + id + "/logs.concise.txt").includes("of " + id) : ![...disk.files.keys()].some((p) => p.startsWith(D + "replays/" + x + "/" + id + "/"))); }
  for (const d of DIFFS) g.ensure("and each diff", disk.text(D + "diffs/" + d.id + ".json") === (diffs.includes(d.id) ? JSON.stringify({ is: "replay-diffs/" + d.id }, null, 2) : undefined));
  g.ensure("no image and no note of the local store", [...disk.files.keys()].every((p) => !p.startsWith(D) || (!p.endsWith(".png") && !p.endsWith("previously-downloaded.txt"))));
});
contract("sessions, the run and its pull request", { bounded: "two sessions" }, async (g) => {
  quiet(g); serve(); const sessionIds = g.choose("sessions", [[], ["s1"], ["s1", "s2"]]), run = g.bool("run"), bad = g.choose("not answered", ["none", "pr-diff", "pr-description"]), status = g.choose("status", [404, 500]), more = [], c = client((u) => (u.endsWith("/" + bad) ? status : undefined));
  const r = await g.attemptAsync(() => downloadDebugData({ client: c as any, debugContext: context({ sessionIds, testRunId: run ? "t1" : undefined }) as any, workspaceDir: "/ws", additionalDownloads: async (_c, dir) => { more.push(dir); } })); g.ensure("it succeeds", r.ok && more.length === 1 && more[0] + "/" === D);
  for (const s of ["s1", "s2"]) { const t = disk.text(D + "sessions/" + s + "/data.json"); g.ensure("each session", sessionIds.includes(s) ? JSON.parse(t).is === "sessions/" + s + "/data" : t === undefined); }
  g.ensure("the run", run ? JSON.parse(disk.text(D + "test-run/t1.json")).is === "test-runs/t1" : !c.asked.some((u) => u.startsWith("test-runs")));
  for (const f of ["pr-diff", "pr-description"]) g.ensure("what is known of the pull request", disk.text(D + f + ".txt") === (run && bad !== f ? "the test-runs/t1/" + f : undefined));
});
contract("what cannot be had is an error", { bounded: "one replay and session of a diff" }, async (g) => {
  quiet(g); serve(); const bad = g.choose("bad", ["replays/r1", "replays/r1/download-urls", "sessions/s1/data", "replay-diffs/d1", "test-runs/t1", "more"]), c = client((u) => (u === bad ? 500 : undefined));
  const r = await g.attemptAsync(() => downloadDebugData({ client: c as any, debugContext: context({ replayIds: ["r1"], sessionIds: ["s1"], replayDiffs: [DIFFS[0]], testRunId: "t1" }) as any, workspaceDir: "/ws", additionalDownloads: async () => { await undefined; if (bad === "more") throw new Error("more"); } })); g.ensure("it is", !r.ok);
});
