import { contract } from "vf";
import { pollWhileBaseNotFound } from "repo:remote-replay-launcher/src/poll-for-base-test-run";
import { runWithUploadedAssetChunks } from "repo:remote-replay-launcher/src/run-with-uploaded-asset-chunks";
import { buildClient } from "repo:client/src/client";
import { world, multipart } from "./lib";

const answer = (g, k) => { const kind = g.choose("answer" + k, ["run", "no base", "neither"]); return { ...(kind === "run" ? { testRun: { id: "t" + k } } : { testRun: null }), ...(kind === "no base" ? { baseNotFound: true } : {}), message: "m" + k, overlaps: [{ path: "o" + k }], overlapsTruncated: k % 2 === 1 }; };
const over = (a) => a.testRun !== null || a.baseNotFound !== true;
contract("the first answer that is a run, or wants no base, is the result", { bounded: "up to 4 questions" }, async (g) => {
  const w = world(g, {}), all = []; let asked = 0, alone = 0; const first = answer(g, 0); all.push(first);
  const r = await pollWhileBaseNotFound({ initialResult: first, retryFn: async () => { await undefined; asked++; const a = asked >= 4 ? { testRun: { id: "t9" }, message: "m9" } : answer(g, asked); all.push(a); return a; }, fallbackFn: async () => { alone++; return { testRun: { id: "alone" } }; } });
  const last = all[all.length - 1];
  g.ensure("asked exactly while there is none", all.slice(0, -1).every((a) => !over(a)) && over(last) && asked === all.length - 1);
  g.ensure("with its run and what it says", (r.testRun ?? null) === last.testRun && r.message === last.message && r.overlaps === last.overlaps && r.overlapsTruncated === last.overlapsTruncated);
  g.ensure("never without a base", alone === 0);
  g.ensure("with a pause before each question", w.waits.length === asked && w.waits.every((m) => m >= 1000));
});
contract("without a base only once the time is up", { bounded: "the listed times" }, async (g) => {
  const w = world(g, {}), extra = g.choose("extra", [undefined, 0, 20000, 60001]), later = g.choose("extra later", ["same", "gone", "more"]), slow = g.choose("slow", [0, 45000]), r2 = g.choose("alone", ["run", "none", "fails"]); let asked = 0, at = 0; const t0 = w.now, why = new Error("no"), log = g.choose("says", [undefined, "custom"]);
  const now = () => (later === "same" || asked < 3 ? extra : later === "gone" ? undefined : 100000);
  const r = await g.attemptAsync(() => pollWhileBaseNotFound({ initialResult: { baseNotFound: true, ...(extra === undefined ? {} : { extraBasePollTimeoutMs: extra }) }, retryFn: async () => { asked++; w.now += slow; return { testRun: null, baseNotFound: true, message: "waiting", extraBasePollTimeoutMs: now() }; }, fallbackFn: async () => { at = w.now; if (r2 === "fails") throw why; return r2 === "none" ? { testRun: null, baseNotFound: true, message: "failed" } : { testRun: { id: "alone" }, message: "without", overlaps: [], overlapsTruncated: true }; }, ...(log === undefined ? {} : { fallbackLogMessage: log }) })), most = 300000 + (now() ?? 0);
  g.ensure("five minutes, and what the service adds", at - t0 >= most && at - t0 <= most + slow + 20000);
  g.ensure("it is the result", r2 === "fails" ? !r.ok && r.error === why : r.ok && (r.value.testRun?.id ?? null) === (r2 === "run" ? "alone" : null) && r.value.message === (r2 === "run" ? "without" : "failed") && (r.value.baseNotFound === true) === (r2 === "none"));
});
contract("a question that fails ends the wait", { bounded: "up to 3 questions" }, async (g) => {
  world(g, {}); const at = g.choose("at", [1, 2, 3]), why = new Error("no"); let n = 0, alone = 0;
  const r = await g.attemptAsync(() => pollWhileBaseNotFound({ initialResult: { baseNotFound: true }, retryFn: async () => { if (++n === at) throw why; return { baseNotFound: true }; }, fallbackFn: async () => { alone++; return {}; } }));
  g.ensure("with its failure", !r.ok && r.error === why && n === at && alone === 0);
});
const CREATE = "project-deployments/create-run-with-uploaded-asset-chunks", RUN = "project-deployments/trigger-run-with-uploaded-asset-chunks", quiet = { warn() {}, info() {}, debug() {}, error() {} };
contract("a run of stored chunks is started once it is set up", { bounded: "the listed settings" }, async (g) => {
  const found = g.choose("base", ["at once", "later", "never"]), lookup = g.bool("lookup"), overlaps = g.choose("overlaps", [undefined, [], [{ path: "/a" }]]), w = world(g, { ...multipart, [CREATE]: () => ({ data: { sourceDeploymentId: "d1", overlaps: [{ path: "/early" }] } }), [RUN]: (b, k) => ((found === "at once" || (found === "later" && k >= 2) || !b.mustHaveBase) ? { data: { testRun: { id: "t" + (b.mustHaveBase ? "" : "-alone") }, ...(overlaps === undefined ? {} : { overlaps, overlapsTruncated: true }) } } : { data: { baseNotFound: true } }) });
  const manifest = [{ name: "a", versionId: "1" }, lookup ? { name: "b", versionLookup: "latest-in-history" } : { name: "b", versionId: "2" }], diff = g.bool("diff"), base = g.bool("base sha"), filter = g.bool("filter"), project = g.bool("project");
  const r = await runWithUploadedAssetChunks({ client: buildClient("tok", quiet), commitSha: "c1", waitForBase: true, rewrites: [{ source: "/x", destination: "/y" }], assetReferencesManifest: manifest, ...(diff ? { gitDiffOutput: "the diff" } : {}), ...(base ? { baseSha: "b1" } : {}), ...(filter ? { sessionFilter: { f: 1 } } : {}), ...(project ? { projectId: "p1" } : {}) });
  const made = w.posts(CREATE), runs = w.posts(RUN), put = w.puts(), alone = found === "never" && !lookup;
  g.ensure("set up once, first of all, with all its chunks", made.length === 1 && w.log[0] === made[0] && JSON.stringify(made[0].body.assetReferencesManifest) === JSON.stringify(manifest) && made[0].body.commitSha === "c1" && made[0].body.createDeployment === true && JSON.stringify(made[0].body.rewrites) === '[{"source":"/x","destination":"/y"}]');
  g.ensure("the changes are there before it starts", put.length === (diff ? 1 : 0) && (!diff || (put[0].put === "https://s3.test/diff-of-d1" && put[0].text === "the diff" && w.log.indexOf(put[0]) < w.log.indexOf(runs[0]))));
  g.ensure("each start says the same", runs.every((e, i) => e.body.sourceDeploymentId === "d1" && e.body.commitSha === "c1" && e.body.baseSha === (base ? "b1" : undefined) && e.body.hasGitDiff === (diff ? true : undefined) && JSON.stringify(e.body.sessionFilter) === (filter ? '{"f":1}' : undefined) && e.body.mustHaveBase === !(alone && i === runs.length - 1)));
  g.ensure("in the project given", w.log.every((e) => e.put !== undefined || e.query.projectId === (project ? "p1" : undefined)));
  g.ensure("chunks to be looked up never run without a base", !lookup || runs.every((e) => e.body.mustHaveBase));
  g.ensure("the run is the result", (r.testRun === null ? undefined : r.testRun.id) === (found === "never" ? (lookup ? undefined : "t-alone") : "t"));
  g.ensure("a missing base is explained", (found === "never" && lookup) === (r.message !== undefined && r.message.includes("base")));
  g.ensure("overlaps are those of the run", JSON.stringify(r.overlaps) === (overlaps !== undefined && overlaps.length > 0 && r.testRun !== null ? '[{"path":"/a"}]' : undefined) && (r.overlapsTruncated === true) === (r.overlaps !== undefined));
});
contract("a rehearsal starts nothing", {}, async (g) => {
  const asked = g.choose("why", ["asked", "not made"]), overlaps = g.choose("overlaps", [undefined, [], [{ path: "/a" }]]), cut = g.bool("truncated"), w = world(g, { [CREATE]: () => ({ data: { ...(asked === "asked" ? { sourceDeploymentId: "d1" } : {}), ...(overlaps === undefined ? {} : { overlaps }), ...(cut ? { overlapsTruncated: true } : {}) } }) });
  const r = await runWithUploadedAssetChunks({ client: buildClient("tok", quiet), commitSha: "c1", waitForBase: g.bool("wait"), rewrites: [], assetReferencesManifest: [], gitDiffOutput: "d", ...(asked === "asked" ? { createDeployment: false } : {}) });
  g.ensure("one question, whether it would make one", w.log.length === 1 && w.log[0].path === CREATE && w.log[0].body.createDeployment === (asked !== "asked"));
  g.ensure("overlaps are told", r.testRun === null && JSON.stringify(r.overlaps) === (overlaps !== undefined && overlaps.length > 0 ? '[{"path":"/a"}]' : undefined) && (r.overlapsTruncated === true) === (r.overlaps !== undefined && cut));
});
