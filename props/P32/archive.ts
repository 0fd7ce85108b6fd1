import { contract } from "vf";
import { disk } from "fs";
import { net } from "axios";
import { source } from "stream";
import { zips } from "extract-zip";
import { locks } from "proper-lockfile";
import { getOrFetchReplayArchive } from "repo:downloading-helpers/src/scripts/replays";
import { getOrFetchTestRunData } from "repo:downloading-helpers/src/file-downloads/test-runs";

// Timers: the deadlines (a minute or more) never pass, the others end at once
const quiet = (g) => { g.setGlobal("process", { env: { METICULOUS_DIR: "/m", METICULOUS_IS_CLOUD_REPLAY: "true" }, cwd: () => "/cwd", exit: (c) => { throw { exit: c }; } }); g.setGlobal("setTimeout", (f, ms) => { if (ms < 60000) Promise.resolve().then(f); return 0; }); g.setGlobal("clearTimeout", () => {}); };
const settle = async () => { for (let i = 0; i < 400; i++) await undefined; };
const loc = (key, filePath) => ({ signedUrl: "https://s3.test/" + key, filePath });
// What the service has: each file by its address, and what its archive unpacks to
const serve = (text, bad) => {
  net.answer = (r) => { const key = r.url.slice("https://s3.test/".length); return { data: source([{ length: 2, text: "Z:" }, { length: key.length, text: key + (key.startsWith("zip") ? "" : text) }], "ends"), headers: {} }; };
  disk.fails = (op, p) => op === "write" && bad.on && p === bad.path && disk.text(p) === "Z:";
  zips.entries = (p) => { const key = disk.text(p); return key === undefined || !key.startsWith("Z:zip-") ? [] : [{ name: key.slice(6) + ".out", text: key + text }]; };
};

const DIR = "/m/replays/r1", MARK = DIR + "/previously-downloaded.txt";
const FLAT = ["timeline", "metadata", "playbackData", "rawCoverage", "mappedCoverage", "brandNew"];
const offered = (logs) => ({ ...Object.fromEntries(FLAT.map((k) => [k, loc("zip-" + k, "ignored/" + k)])), nested: { a: { file: loc("x", "y") } },
  screenshots: { s1: { image: loc("png1", "screenshots/s1.png"), metadata: loc("zip-m1", "screenshots/s1.meta") }, s2: { image: loc("png2", "screenshots/s2.png") } },
  diffs: { b1: { s1: { full: loc("df", "diffs/b1/s1.png"), thumbnail: loc("dt", "diffs/b1/s1.t.png") } } },
  snapshottedAssets: loc("zip-sa", "sa.zip"), rawPerScreenshotCssCoverage: loc("zip-css", "css.zip"), rawPerScreenshotJsCoverage: null, mappedPerScreenshotJsCoverage: loc("zip-js", "js.zip"), customCheckSnapshots: { t: { file: loc("cc", "cc") } }, ...(logs ? { appContainerLogs: loc("acl", "app-container-logs.ndjson") } : {}) });
// the files of the replay by the kind they belong to
const FILES = [...FLAT.map((k) => [k, k + ".out"]), ["screenshots", "screenshots/s1.png"], ["screenshots", "screenshots/s2.png"], ["screenshots", "screenshots/m1.out"], ["diffs", "diffs/b1/s1.png"], ["diffs", "diffs/b1/s1.t.png"], ["snapshottedAssets", "snapshotted-assets/sa.out"], ["rawPerScreenshotCssCoverage", "raw-per-screenshot-css-coverage/css.out"], ["mappedPerScreenshotJsCoverage", "mapped-per-screenshot-js-coverage/js.out"], ["appContainerLogs", "app-container-logs.ndjson"]];
const SCOPES = { everything: (_k) => true, "screenshots-only": (k) => k === "screenshots", "timeline-only": (k) => k === "timeline", "post-test-run-processing-files-only": (k) => k === "mappedCoverage" || k === "timeline" || k === "mappedPerScreenshotJsCoverage", "post-process-including-unmapped-ranges": (k) => k === "mappedCoverage" || k === "timeline" || k === "mappedPerScreenshotJsCoverage" || k === "rawCoverage" };
const full = (scope, without) => FILES.filter(([k]) => SCOPES[scope](k) && !without.includes(k)).every(([, f]) => { const t = disk.text(DIR + "/" + f); return t !== undefined && t !== "Z:"; });
const client = (asked, version, none) => ({ get: async (url, o) => { asked.push([url, o]); await undefined; if (url.endsWith("/download-urls")) { if (none) throw Object.assign(new Error("404"), { isFetchError: true, response: { status: 404 } }); return { data: offered(o.params.includeAppContainerLogs === "true") }; } return { data: { id: "r1", version } }; } }) as any;
const get = (g, asked, scope, opts) => g.attemptAsync(() => getOrFetchReplayArchive(client(asked, "v3", false), "r1", scope, false, opts));

contract("a replay's files are those asked for", { bounded: "a replay with one file of each kind" }, async (g) => {
  quiet(g); const scope = g.choose("scope", Object.keys(SCOPES)), without = g.choose("without", [null, [], ["playbackData", "diffs"], ["screenshots", "appContainerLogs", "snapshottedAssets"], ["timeline"]]), text = g.string("text"), asked = [];
  serve(text, { on: false, path: "" });
  const r = await get(g, asked, scope, without === null ? undefined : { excludeFileTypes: new Set(without) }), skip = without ?? [];
  g.ensure("it succeeds, and says where", r.ok && r.value.fileName === DIR);
  for (const [k, f] of FILES) g.ensure("exactly those", (disk.text(DIR + "/" + f) !== undefined) === (SCOPES[scope](k) && !skip.includes(k)));
  g.ensure("as the service has them", full(scope, skip) && [...disk.files].every(([p, f]) => p === MARK || f.text.endsWith(text)));
  g.ensure("no archive stays", [...disk.files.keys()].every((p) => p === MARK || FILES.some(([, f]) => p === DIR + "/" + f)));
  g.ensure("the copy is marked exactly when nothing was left out", disk.text(MARK) === (skip.length === 0 ? scope : undefined));
  const q = asked.find(([u]) => u === "replays/r1/download-urls")[1].params;
  g.ensure("long lists are asked for only if wanted", (q.includeScreenshots !== "false" || !SCOPES[scope]("screenshots")) && (q.includeDiffs !== "false" || !SCOPES[scope]("diffs")) && (q.includeAppContainerLogs === "true") === (SCOPES[scope]("appContainerLogs") && !skip.includes("appContainerLogs")));
  g.ensure("no lock is left", locks.taken.size === 0);
});
contract("a marked copy is read again, and completed when more is asked for", { bounded: "one earlier call" }, async (g) => {
  quiet(g); const before = g.choose("before", Object.keys(SCOPES)), scope = g.choose("scope", Object.keys(SCOPES)), mode = g.choose("with", ["nothing", "excludes", "best effort"]); serve("1", { on: false, path: "" });
  await get(g, [], before, undefined); const n = net.calls.length, asked = []; serve("2", { on: false, path: "" });
  const r = await get(g, asked, scope, mode === "excludes" ? { excludeFileTypes: new Set(["diffs"]) } : mode === "best effort" ? { bestEffortFileTypes: new Set(["snapshottedAssets"]) } : {});
  const has = mode === "nothing" && (before === scope || before === "everything");
  g.ensure("it succeeds", r.ok && r.value.fileName === DIR);
  g.ensure("nothing is asked for or fetched when it is there already", !has || (asked.length === 0 && net.calls.length === n));
  g.ensure("what was asked for is there", full(scope, mode === "excludes" ? ["diffs"] : []));
  const mark = disk.text(MARK); g.ensure("what its mark says is there", mark === undefined || full(mark, []));
  g.ensure("and so is what there was", full(before, []));
  g.ensure("the mark is kept up", mode !== "nothing" || full(scope, []) && (mark === scope || mark === "everything"));
});
contract("a failure leaves no mark that says more than is there", { bounded: "one earlier call, one file that cannot be written" }, async (g) => {
  quiet(g); const before = g.choose("before", [null, "everything", "screenshots-only", "timeline-only"]), scope = g.choose("scope", ["everything", "screenshots-only", "timeline-only"]), mode = g.choose("with", ["nothing", "excludes", "best effort"]), broken = g.choose("broken", ["screenshots/s1.png", "screenshots/s2.png", "diffs/b1/s1.t.png", "timeline", "metadata", "sa.zip", "css.zip", "app-container-logs.ndjson", "screenshots/s1.meta"]), bad = { on: false, path: DIR + "/" + broken };
  serve("1", bad); if (before !== null) await get(g, [], before, undefined); bad.on = true;
  const r = await get(g, [], scope, mode === "excludes" ? { excludeFileTypes: new Set(["metadata"]) } : mode === "best effort" ? { bestEffortFileTypes: new Set(["snapshottedAssets"]) } : {});
  await settle();
  const mark = disk.text(MARK); g.ensure("what the mark says is there", mark === undefined || full(mark, []));
  g.ensure("what was asked for is there, or it fails", !r.ok || full(scope, mode === "excludes" ? ["metadata"] : mode === "best effort" ? ["snapshottedAssets"] : []));
  g.ensure("only what may fail is passed over", mode !== "best effort" || broken !== "sa.zip" || r.ok);
  g.ensure("no lock is left", locks.taken.size === 0);
  bad.on = false; const again = await get(g, [], scope, {});
  g.ensure("and the next call has it all", again.ok && full(scope, []));
});
contract("what the service does not have", { bounded: "the listed answers" }, async (g) => {
  quiet(g); const how = g.choose("how", ["no files", "v1", "v2", "unknown mark"]), asked = []; serve("1", { on: false, path: "" }); if (how === "unknown mark") disk.put(MARK, "some other");
  const r = await g.attemptAsync(() => getOrFetchReplayArchive(client(asked, how.startsWith("v") ? how : "v3", how === "no files"), "r1"));
  g.ensure("fails", !r.ok && (how !== "no files" || r.error.name === "ReplayHasNoArtifactsError"));
  g.ensure("fetches and marks nothing", net.calls.length === 0 && disk.text(MARK) === (how === "unknown mark" ? "some other" : undefined) && locks.taken.size === 0);
});

const RUN = "/m/test-runs/t_1", RMARK = RUN + "/previously-downloaded.txt";
const RSCOPES = { everything: () => true, "app-container-logs": (k) => k === "logs", "coverage-by-replay-pr-only": (k) => k === "coverageByReplayPr", "coverage-only": (k) => k === "coverage" || k === "coverageStats", "coverage-pr-only": (k) => k === "coveragePr" || k === "coverageStatsPr" };
const RKINDS = ["coverage", "coverageStats", "coveragePr", "coverageStatsPr", "coverageByReplayPr", "relevantReplayContexts"];
const rfull = (scope, text) => RKINDS.filter((k) => RSCOPES[scope](k)).every((k) => disk.text(RUN + "/" + k + ".out") === "Z:zip-" + k + text) && (!RSCOPES[scope]("logs") || (disk.text(RUN + "/app-container-logs/pod1.log") === "k1;k2;" && disk.text(RUN + "/app-container-logs/pod2.log") === "k3;"));
const runOf = (asked) => ({ get: async (url, o) => { asked.push(url); await undefined; return { data: { ...Object.fromEntries(RKINDS.map((k) => [k, loc("zip-" + k, k + ".gz")])), gone: null, odd: { a: 1 }, ...(o?.params?.includeAppContainerLogs ? { appContainerLogs: { signedBaseUrl: "https://logs.test/base?sig=1", pods: [{ podName: "pod1", chunkKeys: ["k1", "k2"] }, { podName: "pod2", chunkKeys: ["k3"] }] } } : {}) } }; } }) as any;
const logsFrom = (g, bad) => { const urls = []; g.setGlobal("fetch", async (url) => { urls.push(String(url)); await undefined; const key = new URL(String(url)).pathname.slice(1); if (bad.on && bad.path === key) return { ok: false, status: 403, statusText: "no" }; return { ok: true, arrayBuffer: async () => Buffer.from(key + ";") }; }); return urls; };

contract("a test run's files are those asked for, once", { bounded: "two calls, a run with one file of each kind" }, async (g) => {
  quiet(g); const before = g.choose("before", [null, ...Object.keys(RSCOPES)]), scope = g.choose("scope", Object.keys(RSCOPES)), text = g.string("text"), off = { on: false, path: "" }, asked = [], urls = logsFrom(g, off); serve(text, off);
  if (before !== null) await getOrFetchTestRunData(runOf([]), "t-1", before);
  const n = net.calls.length, m = urls.length, r = await g.attemptAsync(() => getOrFetchTestRunData(runOf(asked), "t-1", scope)), has = before === scope || before === "everything";
  g.ensure("it succeeds, and says where", r.ok && r.value.fileName === RUN && r.value.data !== undefined && asked.every((u) => u === "test-runs/t-1/data"));
  g.ensure("nothing is fetched when it is there already", (net.calls.length === n && urls.length === m) || !has);
  g.ensure("what was asked for is there", rfull(scope, text));
  g.ensure("and so is what there was", before === null || rfull(before, text));
  g.ensure("nothing else is, at first", before !== null || RKINDS.every((k) => (disk.text(RUN + "/" + k + ".out") !== undefined) === RSCOPES[scope](k)) && (urls.length > 0) === RSCOPES[scope]("logs"));
  const mark = disk.text(RMARK); g.ensure("what its mark says is there", mark !== undefined && rfull(mark, text));
  g.ensure("each part of a log by its own address", urls.every((u) => u.startsWith("https://logs.test/k") && u.endsWith("?sig=1")));
  g.ensure("no lock is left", locks.taken.size === 0);
});
contract("a test run that fails to arrive leaves no mark that says more than is there", { bounded: "one earlier call, one file that cannot be had" }, async (g) => {
  quiet(g); const before = g.choose("before", [null, "coverage-only", "app-container-logs"]), scope = g.choose("scope", ["everything", "coverage-only", "app-container-logs"]), broken = g.choose("broken", ["coverage.gz", "coverage.out", "relevantReplayContexts.out", "k1", "k2", "k3"]), bad = { on: false, path: broken.startsWith("k") ? broken : RUN + "/" + broken }; logsFrom(g, bad); serve("", bad);
  disk.fails = (op, p) => op === "write" && bad.on && p === bad.path && (!p.endsWith(".gz") || disk.text(p) === "Z:") && (p.endsWith(".gz") || (disk.files.set(p, { text: "cut", mode: 0 }), true));
  if (before !== null) await getOrFetchTestRunData(runOf([]), "t-1", before); bad.on = true;
  const r = await g.attemptAsync(() => getOrFetchTestRunData(runOf([]), "t-1", scope)); await settle();
  const mark = disk.text(RMARK); g.ensure("what the mark says is there", mark === undefined || rfull(mark, ""));
  g.ensure("what was asked for is there, or it fails", !r.ok || rfull(scope, ""));
  g.ensure("no lock is left", locks.taken.size === 0);
  bad.on = false; const again = await g.attemptAsync(() => getOrFetchTestRunData(runOf([]), "t-1", scope));
  g.ensure("and the next call has it all, once", again.ok && rfull(scope, ""));
});
