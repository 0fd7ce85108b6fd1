import { contract } from "vf";
import { disk } from "fs";
import { uploadAssets, uploadAssetsFromZip, uploadAssetsFromTarStream, uploadAgenticInstructionsToS3 } from "repo:remote-replay-launcher/src/asset-upload-utils";
import { uploadBuild } from "repo:remote-replay-launcher/src/upload-build";
import { buildClient } from "repo:client/src/client";
import { world, multipart, tarOf } from "./lib";

const DONE = "project-deployments/complete-asset-upload-and-maybe-trigger-run", AGAIN = "project-deployments/trigger-run";
const files = () => { disk.put("/app/index.html", "<html>"); disk.put("/app/a.js", "code"); disk.put("/z/app.zip", "zipped bytes"); };
const text = (w) => w.puts().filter((p) => p.put.includes("/part") || p.put.endsWith("/zip")).map((p) => p.text).join("");
const start = (g, from, o) => (from === "folder" ? uploadAssets({ ...o, appDirectory: "/app", warnIfNoIndexHtml: g.bool("warn") }) : from === "zip" ? uploadAssetsFromZip({ ...o, zipPath: "/z/app.zip", deleteAfterUpload: true }) : uploadAssetsFromTarStream({ ...o, tarStream: tarOf("whole tar") }));
const whole = (w, from) => (from === "zip" ? text(w) === "zipped bytes" : from === "tar" ? text(w) === "whole tar$" : text(w).includes("[File ./index.html]<html>") && text(w).includes("[File ./a.js]code") && text(w).endsWith("$"));

contract("the service is told of assets once they are all there", { bounded: "the listed files" }, async (g) => {
  files(); const from = g.choose("from", ["folder", "zip", "tar"]), w = world(g, { ...multipart, [DONE]: () => ({ data: { testRun: { id: "t1" }, ...(g.bool("says") ? { message: "hello" } : {}) } }) });
  const o = { apiToken: "tok", commitSha: g.choose("commit", ["c1", "c2"]), ...(g.bool("base") ? { baseSha: "b1" } : {}), ...(g.bool("diff") ? { gitDiffOutput: "diff --git" } : {}), ...(g.bool("wait") ? { waitForBase: true } : {}), ...(g.bool("rewrites") ? { rewrites: [{ source: "/a", destination: "/b" }] } : {}), ...(g.choose("create", [true, false]) ? {} : { createDeployment: false }), ...(g.bool("project") ? { projectId: "p1" } : {}) };
  const r = await start(g, from, o), done = w.log[w.log.length - 1], diff = w.puts().filter((p) => p.put.includes("/diff"));
  g.ensure("last of all, and once", done.path === DONE && w.posts(DONE).length === 1 && w.posts(AGAIN).length === 0);
  g.ensure("after every byte", whole(w, from));
  g.ensure("with each part's tag", from === "zip" ? done.body.multipartUploadInfo === undefined : JSON.stringify(done.body.multipartUploadInfo) === JSON.stringify({ awsUploadId: "aws1", eTags: w.puts().filter((p) => p.put.includes("/part")).map((_p, i) => "tag:https://s3.test/part" + (i + 1)) }));
  g.ensure("for the upload and commit they are of", done.body.uploadId === "u1" && done.body.commitSha === o.commitSha && done.body.baseSha === o.baseSha && done.body.archiveType === (from === "zip" ? "zip" : "tar.d"));
  g.ensure("with the settings given", done.body.mustHaveBase === (o.waitForBase === true) && done.body.createDeployment === (o.createDeployment !== false) && JSON.stringify(done.body.rewrites) === JSON.stringify(o.rewrites ?? []));
  g.ensure("the changes go with them, if any", (done.body.hasGitDiff === true) === (o.gitDiffOutput !== undefined) && diff.length === (o.gitDiffOutput === undefined ? 0 : 1) && diff.every((d) => d.put === "https://s3.test/diff-of-u1" && d.text === "diff --git"));
  g.ensure("in the project given, with the token given", w.log.every((e) => e.put !== undefined || (e.token === "tok" && e.query.projectId === o.projectId)));
  g.ensure("and its answer is the result", r.uploadId === "u1" && r.testRun.id === "t1" && r.archiveType === done.body.archiveType && r.message === (g.bool("says") ? "hello" : undefined));
  g.ensure("a zip is removed if asked for", disk.text("/z/app.zip") === (from === "zip" ? undefined : "zipped bytes"));
});
contract("assets that cannot be stored are not announced", { bounded: "the listed failures" }, async (g) => {
  files(); const from = g.choose("from", ["folder", "zip", "tar"]), what = g.choose("what", ["part", "diff", "address", "files"]), w = world(g, { ...multipart, ...(what === "address" ? { "project-deployments/request-multipart-asset-upload": () => ({ status: 403 }), "project-deployments/request-asset-upload": () => ({ status: 403 }) } : {}), [DONE]: () => ({ data: {} }) });
  w.refuse = (url) => ((what === "part" && !url.includes("diff")) || (what === "diff" && url.includes("diff")) ? { status: 403, body: ["denied"] } : undefined);
  if (what === "files") { if (from === "tar") g.assume(false); disk.fails = (op, p) => op === "open" && (p === "/app/a.js" || p === "/z/app.zip"); }
  const r = await g.attemptAsync(() => start(g, from, { apiToken: "t", commitSha: "c", gitDiffOutput: "diff" }));
  g.ensure("the failure is passed on", !r.ok && (what === "files" ? r.error.code === "EIO" : what === "address" ? r.error.response.status === 403 : r.error.statusCode === 403));
  g.ensure("nothing is announced", w.posts(DONE).length === 0 && w.posts(AGAIN).length === 0);
  g.ensure("a zip is removed if asked for", disk.text("/z/app.zip") === (from === "zip" ? undefined : "zipped bytes"));
});
contract("a completion that a gateway gave up on is asked for again", { bounded: "up to 16 answers" }, async (g) => {
  files(); const from = g.choose("from", ["zip", "tar"]), status = g.choose("status", [502, 503, 504, 500, 429, 404]), fails = g.choose("times", [0, 1, 4, 8, 11, 12]), w = world(g, { ...multipart, [DONE]: (_b, k) => (k < fails ? { status } : { data: { testRun: { id: "t1" } } }) });
  const r = await g.attemptAsync(() => start(g, from, { apiToken: "t", commitSha: "c", ...(g.bool("more") ? { baseSha: "b", projectId: "p" } : {}) })), most = status === 404 ? 1 : status === 500 || status === 429 ? 4 : 12, all = w.posts(DONE);
  g.ensure("as long as that may help", r.ok === fails < most && all.length === Math.min(fails + 1, most));
  g.ensure("the same each time", all.every((e) => JSON.stringify(e.body) === JSON.stringify(all[0].body) && e.query.projectId === all[0].query.projectId));
  g.ensure("the answer or the failure is the result", r.ok ? r.value.testRun.id === "t1" : r.error.response.status === status);
  g.ensure("the bytes are sent once", w.puts().length === (from === "zip" ? 1 : w.posts("project-deployments/request-upload-part").length));
});
contract("a run that needs its base waits for it, then goes without", { bounded: "base found after the listed number of questions, or never" }, async (g) => {
  files(); const from = g.choose("from", ["zip", "tar"]), found = g.choose("found at", [0, 1, 3, 999]), refused = g.choose("a question fails", [false, true]), w = world(g, { ...multipart, [DONE]: () => (found === 0 ? { data: { testRun: { id: "t0" } } } : { data: { baseNotFound: true } }), [AGAIN]: (b, k) => (b.mustHaveBase ? (refused && k === 1 ? { status: 400 } : k + 1 >= found ? { data: { testRun: { id: "t" + (k + 1) }, message: "found" } } : { data: { baseNotFound: true } }) : { data: { testRun: { id: "alone" }, message: "without" } }) });
  const t0 = w.now, r = await g.attemptAsync(() => start(g, from, { apiToken: "t", commitSha: "c", baseSha: "b", gitDiffOutput: "d", waitForBase: true, projectId: "p" })), again = w.posts(AGAIN), full = w.posts(DONE)[0].body, fails = refused && found > 1;
  g.ensure("what is asked again is the same", again.every((e, i) => JSON.stringify({ ...e.body, mustHaveBase: 0 }) === JSON.stringify({ ...full, mustHaveBase: 0 }) && e.query.projectId === "p" && e.body.mustHaveBase === !(found === 999 && !fails && i === again.length - 1)));
  g.ensure("the run is the one found, or the one without a base", fails ? !r.ok && r.error.response.status === 400 : r.ok && r.value.testRun.id === (found === 999 ? "alone" : "t" + found) && r.value.message === (found === 999 ? "without" : found === 0 ? undefined : "found"));
  g.ensure("it waits five minutes for it, not much longer", found !== 999 || fails || (w.now - t0 >= 300000 && w.now - t0 <= 330000 && again.length >= 10));
  g.ensure("and does not ask without pause", w.waits.length >= again.length - 1 && w.waits.every((m) => m >= 1000));
});
contract("a build is registered once all of it is there", { bounded: "the listed files" }, async (g) => {
  files(); const from = g.choose("from", ["folder", "zip"]), fails = g.choose("fails", ["no", "part", "register"]), R = "agent/upload-build/asset", w = world(g, { ...multipart, [R]: () => (fails === "register" ? { status: 400 } : { data: { deploymentId: "d1" } }) }); w.refuse = () => (fails === "part" ? { status: 403 } : undefined);
  const rewrites = g.choose("rewrites", [undefined, [{ source: "/a", destination: "/b" }]]), project = g.choose("project", [undefined, "p1"]);
  const r = await g.attemptAsync(() => uploadBuild({ apiToken: "tok", commitSha: "c1", ...(from === "folder" ? { appDirectory: "/app" } : { appZip: "/z/app.zip" }), ...(rewrites === undefined ? {} : { rewrites }), ...(project === undefined ? {} : { projectId: project }) })), last = w.log[w.log.length - 1];
  g.ensure("its deployment is the result", r.ok === (fails === "no") && (!r.ok || r.value.deploymentId === "d1"));
  g.ensure("it is registered once, last of all", w.posts(R).length === (fails === "part" ? 0 : 1) && (fails === "part" || (last.path === R && whole(w, from))));
  g.ensure("as what it is", fails === "part" || (last.body.uploadId === "u1" && last.body.commitSha === "c1" && last.body.archiveType === (from === "zip" ? "zip" : "tar.d") && JSON.stringify(last.body.rewrites) === JSON.stringify(rewrites ?? []) && last.query.project === project && (from === "zip") === (last.body.multipartUploadInfo === undefined)));
  g.ensure("with each part's tag", fails === "part" || from === "zip" || (last.body.multipartUploadInfo.awsUploadId === "aws1" && last.body.multipartUploadInfo.eTags.every((t, i) => t === "tag:https://s3.test/part" + (i + 1)) && last.body.multipartUploadInfo.eTags.length === w.puts().length));
  g.ensure("no run is started", w.posts(DONE).length === 0 && w.posts(AGAIN).length === 0);
  g.ensure("nothing of the user's is removed", disk.text("/z/app.zip") === "zipped bytes" && disk.text("/app/a.js") === "code");
});
contract("a build is either assets or a container", {}, async (g) => {
  files(); const w = world(g, {}), dir = g.choose("dir", [undefined, "", "/app"]), zip = g.choose("zip", [undefined, "/z/app.zip"]), tag = g.choose("image", [undefined, "", "img"]); g.assume((tag === "img") === (dir === "/app" || zip !== undefined));
  const r = await g.attemptAsync(() => uploadBuild({ apiToken: "t", commitSha: "c", appDirectory: dir, appZip: zip, localImageTag: tag }));
  g.ensure("else nothing is done", !r.ok && w.log.length === 0);
});
contract("a directory that is not there is not uploaded", {}, async (g) => {
  files(); const w = world(g, {}), build = g.bool("build"), r = await g.attemptAsync(() => (build ? uploadBuild({ apiToken: "t", commitSha: "c", appDirectory: "/gone" }) : uploadAssets({ apiToken: "t", commitSha: "c", appDirectory: "/gone" })));
  g.ensure("it says so and asks for nothing", !r.ok && r.error.message.includes("/gone") && w.log.length === 0);
});
contract("instructions arrive whole", {}, async (g) => {
  const t = g.choose("text", ["# do this", "", "\u00e9\u00e8"]), project = g.choose("project", [undefined, "p1"]), fails = g.bool("fails"), w = world(g, { "agentic-session-generation/request-instructions-upload": () => ({ data: { uploadUrl: "https://s3.test/ins", instructionsId: "i1" } }) }); w.refuse = () => (fails ? { status: 403 } : undefined);
  const r = await g.attemptAsync(() => uploadAgenticInstructionsToS3({ client: buildClient("tok", { warn() {}, info() {}, debug() {} }), instructions: t, ...(project === undefined ? {} : { projectId: project }) }));
  g.ensure("and are named", r.ok === !fails && (fails || r.value === "i1"));
  g.ensure("as they are", fails || (w.puts().length === 1 && w.puts()[0].text === t && w.puts()[0].put === "https://s3.test/ins"));
});
