import { contract } from "vf";
import { disk } from "fs";
import { writeStructuredSessionData, writeManifest } from "repo:downloading-helpers/src/file-downloads/sessions";
import { ensureReplayLogTextFiles } from "repo:downloading-helpers/src/file-downloads/replay-log-text-files";

contract("a session is laid out whole", { bounded: "up to two requests and two connections" }, async (g) => {
  const v = g.string("v"), n = g.choose("requests", [0, 1, 2]), ws = g.choose("connections", [null, 0, 1, 2]), ss = g.bool("session storage"), idb = g.bool("indexed db"), ctx = g.bool("context"), id = g.choose("id", ["s1", "a-b_c"]);
  const entries = [0, 1].slice(0, n).map((i) => ({ order: i * 7, url: v + i })), conns = ws === null ? null : [0, 1].slice(0, ws).map((i) => ({ connectionId: "c" + i, v }));
  const data: any = { summary: { sessionId: id, v }, userEvents: { e: v }, networkRequests: { summary: { count: n }, entries }, storage: { cookies: [v], localStorage: [v, "l"], ...(ss ? { sessionStorage: [v, "s"] } : {}), ...(idb ? { indexedDb: [v, "i"] } : {}) }, urlHistory: [v, "h"], ...(ctx ? { context: { c: v } } : {}), ...(ws === null ? {} : { webSockets: { summary: { w: v }, connections: conns } }) };
  await writeStructuredSessionData({ outputDir: "/o", sessionData: data });
  const D = "/o/sessions/" + (id === "s1" ? "s1" : "a_b_c") + "/", want: any = { "summary.json": data.summary, "user-events.json": data.userEvents, "network-requests/summary.json": data.networkRequests.summary, "storage/cookies.json": data.storage.cookies, "storage/local-storage.json": data.storage.localStorage, "url-history.json": data.urlHistory };
  for (const e of entries) want["network-requests/" + e.order + ".json"] = e;
  if (ss) want["storage/session-storage.json"] = data.storage.sessionStorage; if (idb) want["storage/indexed-db.json"] = data.storage.indexedDb; if (ctx) want["context.json"] = data.context;
  if (ws !== null) { want["websockets/summary.json"] = data.webSockets.summary; for (const c of conns) want["websockets/" + c.connectionId + ".json"] = c; }
  g.ensure("one file for each part", [...disk.files.keys()].sort().join() === Object.keys(want).map((k) => D + k).sort().join());
  for (const k of Object.keys(want)) { const t = disk.text(D + k); g.ensure("each there when it says so", t !== undefined); g.ensure("as it is", JSON.stringify(JSON.parse(t)) === JSON.stringify(want[k])); }
});
contract("the sessions are listed", { bounded: "up to two sessions" }, async (g) => {
  const n = g.choose("sessions", [0, 1, 2]), v = g.string("v"), list: any = [0, 1].slice(0, n).map((i) => ({ sessionId: "s" + i, v }));
  await writeManifest("/o", list); const m = JSON.parse(disk.text("/o/manifest.json"));
  g.ensure("how many", m.sessionCount === n); g.eq("and which", m.sessions, list);
});
const DIR = "/r";
contract("a replay's log is kept readable, and apart what varies", { bounded: "three lines" }, async (g) => {
  const m = g.choose("m", ["hi", "a  \\ \"q\"", ""]), src = g.choose("source", ["application", "framework"]), rep = g.choose("times", [undefined, 0, 3]), kind = g.choose("message", ["plain", "[non-deterministic] x", "Executing event {\"id\": 12}"]), vt = g.choose("time", [0, 25]), real = g.choose("real", [1, 99]), have = g.choose("there", ["none", "one", "both"]);
  const msg = kind === "plain" ? m : kind, lines = [{ type: "virtual-time-change", virtualTime: vt }, { source: src, message: msg, stackTraceId: "t1", realTime: real, ...(rep === undefined ? {} : { repetitionCount: rep }) }, { source: "framework", message: "last", stackTraceId: "t2", realTime: real }];
  disk.put(DIR + "/logs.ndjson", lines.map((l) => JSON.stringify(l)).join("\n") + "\n"); if (have !== "none") disk.put(DIR + "/logs.concise.txt", "old"); if (have === "both") disk.put(DIR + "/logs.deterministic.txt", "old");
  await ensureReplayLogTextFiles(DIR); const c = disk.text(DIR + "/logs.concise.txt"), d = disk.text(DIR + "/logs.deterministic.txt");
  if (have === "both") { g.ensure("left alone when there", c === "old" && d === "old"); return; }
  const x = rep ? " [x3]" : "", app = src === "application";
  g.ensure("everything is in the one", c === "\n[trace-id: t1] [virtual: " + vt + "ms" + (app ? "] [application]" : ", real: " + real + "ms]") + x + " " + msg + "\n[trace-id: t2] [virtual: " + vt + "ms, real: " + real + "ms] last");
  g.ensure("only what does not vary in the other", d === "\n" + (kind.startsWith("[non") ? "" : "[virtual: " + vt + "ms]" + (app ? " [application]" : "") + x + " " + (kind === "plain" ? m : "Executing event {\"id\": \"<non-deterministic>\"}") + "\n") + "[virtual: " + vt + "ms] last");
});
contract("a replay without a log, or with a broken one", { bounded: "the listed logs" }, async (g) => {
  const t = g.choose("log", [null, "{cut"]); if (t !== null) disk.put(DIR + "/logs.ndjson", t);
  await ensureReplayLogTextFiles(DIR);
  g.ensure("fails nothing, and says nothing", disk.text(DIR + "/logs.concise.txt") === undefined && disk.text(DIR + "/logs.deterministic.txt") === undefined);
});
