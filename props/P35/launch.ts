import { contract } from "vf";
import { disk } from "fs";
import { daemon } from "dockerode";
import { triggerTestRun } from "repo:remote-replay-launcher/src/trigger-test-run";
import { generateSessions } from "repo:remote-replay-launcher/src/generate-sessions";
import { world } from "./lib";

const DIFF = "agent/upload-build/git-diff", RUN = "agent/trigger-test-run", LAUNCH = "agentic-session-generation/launch";
contract("a run is triggered for what was named, with its changes", { unroll: 100 }, async (g) => {
  const by = g.choose("by", ["deployment", "commit"]), diff = g.choose("diff", [undefined, "", "diff --git é"]), ids = g.choose("sessions", [undefined, [], ["s1", "s2"]]), most = g.choose("limit", [undefined, null, 60]), project = g.choose("project", [undefined, "org/p"]), base = g.string("base", ["b1"]);
  const w = world(g, (p) => (p === DIFF ? { data: { uploadUrl: "https://s3.test/diff", deploymentId: "d-of-diff" } } : { data: { testRun: { id: "t1", url: "https://app/t1" }, commitSha: "c9" } }));
  const r = await triggerTestRun({ apiToken: "tok", ...(by === "deployment" ? { deploymentId: "d1" } : { commitSha: "c1" }), baseSha: base, ...(diff === undefined ? {} : { gitDiffOutput: diff }), ...(ids === undefined ? {} : { sessionIds: ids }), ...(most === undefined ? {} : { maxDurationSeconds: most }), ...(project === undefined ? {} : { project }) });
  const has = diff !== undefined && diff !== "", run = w.asked(RUN), up = w.asked(DIFF), put = w.puts(), e = run[0];
  g.ensure("once, last, with the token and in the project", run.length === 1 && w.log[w.log.length - 1] === e && w.log.every((x) => x.put !== undefined || (x.token === "tok" && x.query.project === project && x.body.project === undefined)));
  g.ensure("for one deployment or commit: that of the changes", has ? e.body.deploymentId === "d-of-diff" && e.body.commitSha === undefined : by === "deployment" ? e.body.deploymentId === "d1" && e.body.commitSha === undefined : e.body.deploymentId === undefined && e.body.commitSha === "c1");
  g.ensure("the changes are stored before", !has ? up.length === 0 && put.length === 0 : up.length === 1 && up[0].body.baseSha === base && up[0].body.size === 13 && (by === "deployment" ? up[0].body.deploymentId === "d1" && up[0].body.commitSha === undefined : up[0].body.commitSha === "c1" && up[0].body.deploymentId === undefined) && put.length === 1 && put[0].put === "https://s3.test/diff" && put[0].text === diff);
  g.ensure("with the sessions and limit given", e.body.baseSha === base && JSON.stringify(e.body.sessionIds) === JSON.stringify(ids) && e.body.maxDurationSeconds === most);
  g.ensure("the run is the result", r.testRun.id === "t1" && r.headCommitSha === "c9");
});
contract("a run that cannot be triggered is an error", { unroll: 100 }, async (g) => {
  const what = g.choose("what", ["both", "neither", "address", "store", "trigger", "no run", "null run"]), w = world(g, (p) => (p === DIFF ? (what === "address" ? { status: 422, data: {} } : { data: { uploadUrl: "https://s3.test/diff", deploymentId: "d2" } }) : what === "trigger" ? { status: 422, data: { message: "base not found" } } : { data: what === "no run" ? {} : { testRun: null } })); w.refuse = () => (what === "store" ? { status: 403, body: [] } : undefined);
  const r = await g.attemptAsync(() => triggerTestRun({ apiToken: "tok", ...(what === "neither" ? {} : { deploymentId: "d1" }), ...(what === "both" ? { commitSha: "c1" } : {}), baseSha: "b1", gitDiffOutput: "d" }));
  g.ensure("and nothing is triggered before all is there", !r.ok && w.asked(RUN).length === (what === "trigger" || what === "no run" || what === "null run" ? 1 : 0) && (w.log.length === 0) === (what === "both" || what === "neither"));
});
const auth = { data: { uploadId: "u9", imageReference: "reg.test:5000/p/app:u9", registryUrl: "reg.test:5000", robotAccountName: "robot", robotAccountSecret: "pw" } };
const api = (what) => (p, e) => (p === LAUNCH ? (what === "launch" ? { status: 400, data: {} } : { data: { workflowRunId: "wf", message: "on its way" } }) : p === "agent/upload-build/asset" ? (what === "register" ? { status: 400, data: {} } : {}) : p.includes("instructions") ? { data: { uploadUrl: "https://s3.test/instructions", instructionsId: "i1" } } : p.endsWith("request-multipart-asset-upload") ? { data: { uploadId: "u1", awsUploadId: "aws1", uploadPartUrls: [], uploadChunkSize: 500 } } : p.endsWith("request-upload-part") ? { data: { uploadPartUrl: "https://s3.test/part" + e.body.partNumber } } : auth);
const begin = (g, what) => { const w = world(g, api(what)); w.refuse = (url) => (what === "store" && !url.includes("instructions") ? { status: 403, body: [] } : what === "instructions" && url.includes("instructions") ? { status: 403, body: [] } : undefined); daemon.images.push("app:1"); disk.put("/dist/index.html", "<html>"); disk.put("/i.md", "log in as é"); disk.put("/blank.md", " \n\t"); return w; };
contract("sessions are generated for exactly one app, once it is there", { bounded: "the listed settings" }, async (g) => {
  const what = g.choose("app", ["image", "directory", "upload"]), text = g.choose("instructions", [undefined, "/i.md", "/blank.md"]), project = g.bool("project"), w = begin(g, "");
  const more = what === "image" ? g.choose("more", [{}, { enableLocalMocks: true, containerPort: 8080, containerEnv: [{ name: "A", value: "b" }], containerHealthCheckEndpoint: "/ok" }]) : g.choose("with", [{}, { backend: { url: "https://api.test" }, trustedOrigins: ["https://x.test"], appPort: 0 }, { trustedOrigins: [], appPort: 9000 }]);
  const r = await generateSessions({ apiToken: "tok", commitSha: "c1", ...(what === "image" ? { localImageTag: "app:1" } : what === "directory" ? { assetsDirectory: "/dist" } : { assetsUploadId: "u7" }), ...(text === undefined ? {} : { instructionsFile: text }), ...(project ? { projectId: "p1" } : {}), ...more });
  const l = w.asked(LAUNCH), e = l[0], put = w.puts(), id = what === "image" ? "u9" : what === "directory" ? "u1" : "u7", made = w.asked("agent/upload-build/asset"), pushes = daemon.log.filter((x) => x[0] === "push"), told = put.filter((x) => x.put.includes("instructions"));
  g.ensure("once, last", l.length === 1 && w.log[w.log.length - 1] === e && e.body.commitSha === "c1" && e.query.projectId === (project ? "p1" : undefined));
  g.ensure("for that app, as it was set up", JSON.stringify(e.body.appTarget) === JSON.stringify(what === "image" ? { type: "container", uploadId: id, ...more } : { type: "assets", assetsUploadId: id, ...(more.backend ? { backend: more.backend } : {}), ...(more.trustedOrigins && more.trustedOrigins.length > 0 ? { trustedOrigins: more.trustedOrigins } : {}), ...(more.appPort !== undefined ? { appPort: more.appPort } : {}) }));
  g.ensure("its bytes are stored and registered before", what === "directory" ? put.length - told.length === 1 && made.length === 1 && made[0].body.uploadId === "u1" && made[0].body.commitSha === "c1" && JSON.stringify(made[0].body.multipartUploadInfo.eTags) === '["tag:https://s3.test/part1"]' && made[0].query.project === (project ? "p1" : undefined) && w.log.indexOf(made[0]) > w.log.findIndex((x) => x.put === "https://s3.test/part1") : made.length === 0 && put.length === told.length);
  g.ensure("an image is pushed, as the service said", what === "image" ? JSON.stringify(pushes) === JSON.stringify([["push", auth.data.imageReference, { username: "robot", password: "pw", serveraddress: "reg.test:5000" }]]) && daemon.log[daemon.log.length - 1][0] === "pushed" : daemon.log.length === 0);
  g.ensure("instructions are stored before, if there are any", text === "/i.md" ? told.length === 1 && told[0].text === "log in as é" && e.body.instructionsId === "i1" : told.length === 0 && e.body.instructionsId === undefined);
  g.ensure("what was launched is the result", r.uploadId === id && r.workflowRunId === "wf" && r.message === "on its way");
});
contract("sessions that cannot be generated are an error, and nothing is launched", { bounded: "the listed failures" }, async (g) => {
  const what = g.choose("what", ["none", "two", "image and backend", "image and origins", "image and port", "no image", "push", "store", "register", "no file", "instructions", "launch"]), w = begin(g, what); if (what === "push") daemon.push = () => ({ output: [{ error: "denied" }] });
  const image = ["image and backend", "image and origins", "image and port", "no image", "push"].includes(what);
  const r = await g.attemptAsync(() => generateSessions({ apiToken: "tok", commitSha: "c1", ...(image ? { localImageTag: what === "no image" ? "gone:1" : "app:1" } : what === "none" ? {} : { assetsDirectory: "/dist" }), ...(what === "two" ? { assetsUploadId: "u7" } : {}), ...(what === "image and backend" ? { backend: { url: "x" } } : what === "image and origins" ? { trustedOrigins: ["https://x"] } : what === "image and port" ? { appPort: 0 } : {}), ...(what === "no file" ? { instructionsFile: "/gone.md" } : what === "instructions" ? { instructionsFile: "/i.md" } : {}) }));
  g.ensure("it is passed on", !r.ok && w.asked(LAUNCH).length === (what === "launch" ? 1 : 0));
  g.ensure("a mistake is found before anything is done", !["none", "two", "image and backend", "image and origins", "image and port"].includes(what) || (w.log.length === 0 && daemon.log.length === 0));
});
