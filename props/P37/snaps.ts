import { contract } from "vf";
import { disk } from "fs";
import { net } from "axios";
import { source } from "stream";
import { zips } from "extract-zip";
import { downloadAndAssembleSnapshots } from "repo:custom-checks/src/download-snapshots";
import { getSnapshotsFromTestRun } from "repo:custom-checks/src/get-snapshots-from-test-run";
import { reportCustomCheckResults } from "repo:custom-checks/src/report-custom-check-results";
import { buildClient } from "repo:client/src/client";
import { quiet, world } from "../P35/lib";

// A store of snapshot files by path; each may take longer than others, fail, or hold something else
const store = (g, files, slow) => {
  const s = { during: 0, most: 0, urls: [] }, at = (p) => disk.text(p);
  g.setGlobal("process", { env: {} }); g.setGlobal("setTimeout", (f, ms) => { if (ms < 60000) Promise.resolve().then(f); return 0; });
  net.answer = (r) => { const u = new URL(r.url), f = files.find((x) => "/" + x.key === decodeURIComponent(u.pathname)); s.urls.push(u); if (f === undefined || f.what === "gone") return { error: new Error("gone: " + (f === undefined ? u.pathname : f.key)) }; return { data: source([...Array.from({ length: f.slow ?? 0 }, () => ({ length: 0, text: "" })), { length: 3, text: f.key }], "ends"), headers: {} }; };
  const of = (p) => files.find((x) => x.key === at(p));
  zips.entries = (p) => { const f = of(p); return f.what === "empty" ? [] : f.what === "other" ? [{ name: "readme.txt", text: "[]" }] : [...(f.what === "two" ? [{ name: "a.txt", text: "x" }] : []), { name: f.type + ".json", text: f.what === "object" ? "{}" : f.what === "null" ? "null" : f.what === "not json" ? "<html>" : JSON.stringify(f.entries) }]; };
  zips.end = (p) => (of(p).what === "broken" ? new Error("bad zip") : "ends");
  s.left = () => [...disk.files.keys(), ...disk.dirs].filter((p) => p.startsWith("/tmp/"));
  return s;
};
const entry = (g, name) => ({ stageDuringSession: g.choose("stage " + name, ["initial", "final-é"]), data: g.choose("data " + name, [null, 0, { a: [1, "é"] }]), ...(g.bool("version " + name) ? { versionNumber: 2 } : {}), ...g.choose("description " + name, [{}, { sessionDescription: null }, { sessionDescription: "buys é" }]) });
const expected = (f) => f.entries.map((e) => ({ type: f.type, sessionId: f.sessionId, sessionDescription: e.sessionDescription ?? null, stageDuringSession: e.stageDuringSession, data: e.data, versionNumber: e.versionNumber ?? 0 }));
contract("each snapshot is there once, with its type and session", { bounded: "up to 2 snapshots of a file" }, async (g) => {
  const n = g.choose("snapshots", [0, 1, 2]), es = n === 0 ? [] : [entry(g, "a"), { stageDuringSession: "b", data: "b" }].slice(0, n), w = world(g, () => ({})), f = { type: "network-requests", sessionId: "s1", key: "snaps/s1.json.gz", entries: es, what: g.choose("what", ["", "two"]) }, s = store(g, [f]);
  const r = await downloadAndAssembleSnapshots({ signedBaseUrl: "https://cdn.test/?Policy=p%3D&Signature=s~", files: [f] });
  g.ensure("as it was stored", JSON.stringify(r) === JSON.stringify(expected(f)) && w.log.length === 0);
  g.ensure("asked for under the signed address", s.urls.length === 1 && s.urls[0].origin === "https://cdn.test" && s.urls[0].search === "?Policy=p%3D&Signature=s~" && s.urls[0].pathname === "/snaps/s1.json.gz");
  g.ensure("nothing is left behind", s.left().length === 0);
});
const list = (n, what, bad, p) => Array.from({ length: n }, (_x, i) => ({ type: i % 2 === 0 ? "network-requests" : "a11y", sessionId: "s" + (i % 3), key: p + i + "/é x.json.gz", entries: Array.from({ length: (i + 1) % 3 }, (_y, j) => ({ stageDuringSession: p + i + "." + j, data: i * 10 + j })), what: i === bad ? what : "", slow: 3 * ((n - i) % 7) }));
contract("files of both runs, in order", { bounded: "up to 25 files" }, async (g) => {
  const nb = g.choose("base", [0, 1, 5]), nh = g.choose("head", [0, 1, 25]), base = list(nb, "", -1, "base"), head = list(nh, "", -1, "head"), types = g.choose("types", [[], ["network-requests"], ["a b&c", "a11y"]]), out = (l) => l.map((f) => ({ type: f.type, sessionId: f.sessionId, key: f.key }));
  const w = world(g, (p) => (p === "test-runs/t1/custom-check-snapshots-download-urls" ? { data: { testRunId: "t1", baseTestRunId: "b1", signedBaseUrl: "https://cdn.test/?sig=1", baseSnapshotFiles: out(base), headSnapshotFiles: out(head) } } : { status: 404, data: {} })), seen = []; const was = globalThis.fetch; g.setGlobal("fetch", async (u, i) => { seen.push(new URL(String(u))); return was(u, i); }); const s = store(g, [...base, ...head]);
  const r = await getSnapshotsFromTestRun({ client: buildClient("tok", quiet), testRunId: "t1", snapshotTypes: types });
  g.ensure("all of the base, all of the head", JSON.stringify(r.baseSnapshots) === JSON.stringify(base.flatMap(expected)) && JSON.stringify(r.headSnapshots) === JSON.stringify(head.flatMap(expected)));
  g.ensure("of those runs", r.testRunId === "t1" && r.baseTestRunId === "b1");
  g.ensure("the types asked for", w.log.length === 1 && JSON.stringify(seen[0].searchParams.getAll("snapshotTypes")) === JSON.stringify(types));
  g.ensure("each file once, nothing left behind", s.urls.length === nb + nh && s.left().length === 0);
});
contract("a file that is missing or wrong fails the whole", { bounded: "3 files" }, async (g) => {
  const what = g.choose("what", ["gone", "broken", "empty", "other", "object", "null", "not json"]), bad = g.choose("which", [0, 1, 2]), files = list(3, what, bad, "f"); world(g, () => ({})); const s = store(g, files);
  const r = await g.attemptAsync(() => downloadAndAssembleSnapshots({ signedBaseUrl: "https://cdn.test/?sig=1", files })); for (let i = 0; i < 300; i++) await undefined;
  g.ensure("never a part as if it were all", !r.ok && r.error instanceof Error);
  g.ensure("nothing is left behind", s.left().length === 0 && (await g.turn()) === 0);
});
contract("an empty list asks nothing", {}, async (g) => {
  world(g, () => ({})); const s = store(g, []), r = await downloadAndAssembleSnapshots({ signedBaseUrl: "", files: [] });
  g.ensure("and is empty", r.length === 0 && s.urls.length === 0);
});
contract("results are reported once, as computed", {}, async (g) => {
  const results = g.choose("results", [{ status: "complete", results: [{ name: "é", outcome: "pass" }] }, { status: "execution-error", message: "x" }]), st = g.choose("status", [200, 400, 403, 404, 409]);
  const w = world(g, () => ({ status: st, data: { message: "no" } })), r = await g.attemptAsync(() => reportCustomCheckResults({ client: buildClient("tok", quiet), testRunId: "t1", results }));
  g.ensure("to that run", w.log.length === 1 && w.log[0].path === "test-runs/t1/custom-check-results" && JSON.stringify(w.log[0].body) === JSON.stringify(results) && w.log[0].token === "tok");
  g.ensure("a refusal is an error", r.ok === (st === 200));
});
contract("runs whose snapshots cannot be had are an error", {}, async (g) => {
  const st = g.choose("status", [400, 401, 403, 404]), w = world(g, () => ({ status: st, data: { message: "no base" } })), s = store(g, []), r = await g.attemptAsync(() => getSnapshotsFromTestRun({ client: buildClient("tok", quiet), testRunId: "t1", snapshotTypes: ["x"] }));
  g.ensure("and nothing is downloaded", !r.ok && r.error instanceof Error && s.urls.length === 0 && w.log.length === 1);
});
