import { contract } from "vf";
import { disk } from "fs";
import { generateDebugDerivedFiles } from "repo:debug-workspace/src/generate-debug-derived-files";

const D = "/ws/debug-data/", still = (g) => g.setGlobal("console", { log() {}, info() {}, warn() {}, error() {}, debug() {} });
const text = (p) => disk.text(D + p), put = (p, v) => disk.put(D + p, typeof v === "string" ? v : JSON.stringify(v)), under = (p) => [...disk.files.keys()].filter((k) => k.startsWith(D + p));
const URL_OF = "https://a.test/x";
const KINDS = { pollyReplay: { pollyRequest: { request: { method: "GET", url: URL_OF } }, matchedRequest: { response: { status: 200 } }, result: "matched" }, passedThroughNetworkRequest: { request: { method: "GET", url: URL_OF } }, assetLoadNetworkRequest: { request: { method: "GET", url: URL_OF }, response: { statusCode: 200 } }, customResponseOverrideNetworkRequest: { request: { method: "GET", url: URL_OF } }, urlChange: { url: URL_OF }, "a new kind": { url: "unknown" } };
const NETWORK = Object.keys(KINDS).slice(0, 4);
contract("every event has its line, in order, under its number", { bounded: "three events of the listed kinds" }, (g) => {
  still(g); const role = g.choose("role", ["head", "base", "other"]), kinds = [0, 1, 2].map((i) => g.choose("kind " + String(i), Object.keys(KINDS))), bare = g.bool("without data"), given = g.bool("ndjson given"), entries = kinds.map((kind, i) => ({ kind, virtualTimeStart: i * 10, virtualTimeEnd: i === 2 ? 25 : i * 10, ...(bare ? {} : { data: KINDS[kind] }) }));
  put("replays/" + role + "/r1/timeline.json", entries); if (given) put("replays/" + role + "/r1/timeline.ndjson", "as given"); generateDebugDerivedFiles("/ws");
  const ev = text("events-index/" + role + "-r1.txt").split("\n"), net = text("network-log/" + role + "-r1.txt"), lines = kinds.map((k, i) => [k, i]).filter(([k]) => NETWORK.includes(k));
  g.ensure("one each", ev.length === 4 && ev[3] === ""); kinds.forEach((k, i) => g.ensure("under its number and time, and what it is of", ev[i].startsWith("[" + String(i) + "] vt=" + ["0", "10", "20-25"][i] + " kind=" + k) && (bare || k === "a new kind" || ev[i].includes(URL_OF))));
  g.ensure("requests again", lines.length === 0 ? net === undefined : net.split("\n").length === lines.length + 1 && lines.every(([, i], at) => net.split("\n")[at].startsWith("[" + String(i) + "] ") && (bare || net.split("\n")[at].includes(URL_OF))));
  g.ensure("one event a line", given ? text("replays/" + role + "/r1/timeline.ndjson") === "as given" : text("replays/" + role + "/r1/timeline.ndjson") === entries.map((e) => JSON.stringify(e)).join("\n") + "\n");
});
const IDS = [{ type: "end-state" }, { type: "end-state", logicVersion: 2 }, { type: "end-state", variant: "redacted" }, { type: "after-event", eventNumber: 3 }, { type: "after-event", eventNumber: 3, logicVersion: 2 }, { type: "after-event", eventNumber: 3, variant: "redacted" }, { type: "after-event", eventNumber: 4 }, { type: "auxiliary", eventNumber: 3, sequenceNumber: 1, reason: "a/b" }, { type: "auxiliary", eventNumber: 3, sequenceNumber: 2, reason: "c" }];
contract("every screenshot has what was around it, and its own", { bounded: "two of the listed screenshots among other events" }, (g) => {
  still(g); const a = g.choose("first", IDS), b = g.choose("second", IDS), before = g.choose("before", [0, 35]), after = g.choose("after", [0, 12]), other = (n) => ({ kind: "urlChange", virtualTimeStart: n }); g.assume(a !== b);
  const entries = [...Array.from({ length: before }, (_, i) => other(i)), { kind: "screenshot", virtualTimeStart: 100, data: { identifier: a } }, { kind: "screenshot", virtualTimeStart: 200, data: { identifier: b } }, ...Array.from({ length: after }, (_, i) => other(300 + i))];
  put("replays/head/r1/timeline.json", entries); const r = g.attempt(() => generateDebugDerivedFiles("/ws")), files = under("screenshot-timeline-context/").map((p) => disk.text(p)); g.ensure("never an error", r.ok);
  for (const n of [before, before + 1]) { const mine = files.filter((t) => t.split("\n").some((l) => l.startsWith(">>> [" + String(n) + "] "))); g.ensure("one each", mine.length === 1); const nums = mine[0].split("\n").filter((l) => l.startsWith("    [") || l.startsWith(">>> [")).map((l) => Number(l.slice(5, l.indexOf("]")))); const want = entries.map((_, i) => i).filter((i) => i >= n - 30 && i <= n + 10); g.ensure("the thirty before and the ten after", nums.join() === want.join()); }
});
contract("every line of the log, under its number and the time it was at", { bounded: "four lines of the listed kinds" }, (g) => {
  still(g); const kinds = [0, 1, 2, 3].map((i) => g.choose("line " + String(i), ["time", "app", "own", "unreadable"])), raw = kinds.map((k, i) => (k === "time" ? JSON.stringify({ type: "virtual-time-change", virtualTime: (i + 1) * 10 }) : k === "unreadable" ? "{" : JSON.stringify({ type: "log", message: "m" + String(i), ...(k === "app" ? { source: "application" } : {}) })));
  put("replays/base/r1/timeline.json", []); put("replays/base/r1/logs.ndjson", raw.join("\n") + g.choose("end", ["", "\n", "\n\n"])); const r = g.attempt(() => generateDebugDerivedFiles("/ws")); g.ensure("never an error", r.ok);
  let vt = 0; const want = []; kinds.forEach((k, i) => { const at = "[" + String(i) + "] vt=" + String(vt) + " "; if (k === "time") { vt = (i + 1) * 10; want.push([at, String(vt)]); } else if (k !== "unreadable") want.push([at, "m" + String(i)]); });
  const out = text("logs-index/base-r1.txt"), lines = out === undefined ? [] : out.split("\n").slice(0, -1); g.ensure("is there", lines.length === want.length && want.every(([at, what], i) => lines[i].startsWith(at) && lines[i].includes(what)));
  const times = kinds.map((k, i) => [k, (i + 1) * 10]).filter(([k]) => k === "time").map(([, t]) => String(t)), prog = text("vt-progression/base-r1.txt"); g.ensure("and every time it was", times.length === 0 ? prog === undefined : prog === times.join("\n") + "\n");
});
contract("each replay has its own, and one that cannot be read keeps no other from it", { bounded: "three replays" }, (g) => {
  still(g); const bad = g.choose("bad", [-1, 0, 1, 2]), how = g.choose("how", ["{", "{}", "null", undefined]), all = [["head", "r1"], ["base", "r2"], ["other", "r3"]]; all.forEach(([role, id], i) => { const t = i === bad ? how : JSON.stringify([{ kind: "urlChange", data: { url: id } }]); put("replays/" + role + "/" + id + "/x", "kept"); if (t !== undefined) put("replays/" + role + "/" + id + "/timeline.json", t); });
  const r = g.attempt(() => generateDebugDerivedFiles("/ws")); g.ensure("never an error", r.ok); all.forEach(([role, id], i) => g.ensure("each", i === bad ? text("events-index/" + role + "-" + id + ".txt") === undefined : text("events-index/" + role + "-" + id + ".txt").includes("url=" + id)));
});
