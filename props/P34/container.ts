import { contract } from "vf";
import { disk } from "fs";
import { daemon } from "dockerode";
import { uploadContainer, pushContainerImage } from "repo:remote-replay-launcher/src/upload-container";
import { uploadBuild } from "repo:remote-replay-launcher/src/upload-build";
import { world, multipart, tarOf } from "./lib";

const AUTH = "registry/auth", DONE = "project-deployments/complete-container-upload", ASSETS = "project-deployments/complete-asset-upload-and-maybe-trigger-run", REF = "reg.test/team/app:up1";
const DIGEST = { aux: { Digest: "sha256:" + "b".repeat(64) } }, LINE = { status: "up1: digest: sha256:" + "c".repeat(64) + " size: 1" };
const auth = (ref) => (_b) => ({ data: { uploadId: "u9", imageReference: ref, registryUrl: "https://reg.test", robotAccountName: "robot", robotAccountSecret: "pw" } });
const run = (id) => ({ data: { testRun: { id, project: { name: "a b", organization: { name: "o/p" } } } } });
const api = (o) => ({ ...multipart, [ASSETS]: () => ({ data: {} }), ...o });

contract("an image is pushed under the name it was given", { bounded: "the listed names" }, async (g) => {
  const ref = g.choose("name", [REF, "localhost:5000/team/app:up1", "10.0.0.1:8080/app:v1.2", "reg.test/app", "localhost:5000/app"]), w = world(g, { [g.choose("x", [AUTH])]: auth(ref) }), project = g.choose("project", [undefined, "p1"]); daemon.images = ["img:1"];
  const r = await pushContainerImage({ apiToken: "tok", localImageTag: "img:1", ...(project === undefined ? {} : { projectId: project }) }), tag = daemon.log.find((e) => e[0] === "tag"), push = daemon.log.filter((e) => e[0] === "push"), colon = ref.lastIndexOf(":") > ref.lastIndexOf("/");
  g.ensure("tagged so", tag[1] === "img:1" && tag[2] + ":" + tag[3] === (colon ? ref : ref + ":latest"));
  g.ensure("pushed once, with the account given", push.length === 1 && push[0][1] === ref && push[0][2].username === "robot" && push[0][2].password === "pw" && push[0][2].serveraddress === "https://reg.test");
  g.ensure("and named so", r.uploadId === "u9" && r.imageReference === ref);
  g.ensure("in the project given", w.log.every((e) => e.token === "tok" && e.query.projectId === project));
});
contract("a push counts once the registry has confirmed it", { bounded: "up to 4 pushes" }, async (g) => {
  world(g, { [AUTH]: auth(REF) }); daemon.images = ["img"]; const KINDS = ["digest", "line", "none", "error", "detail", "breaks", "refused", "no stream"], how = [0, 1, 2].map((k) => g.choose("push" + k, k === 0 ? KINDS : ["digest", "none", "breaks", "refused"]));
  daemon.push = (n) => { const h = how[n] ?? "digest"; return h === "refused" ? { error: new Error("denied") } : h === "no stream" ? { none: true } : { output: [{ status: "Pushing", id: "l1" }, ...(h === "digest" ? [DIGEST, { status: "done" }] : h === "line" ? [LINE] : h === "error" ? [{ error: "E-short" }, DIGEST] : h === "detail" ? [{ errorDetail: { message: "E-long" }, error: "x" }, DIGEST] : [])], ...(h === "breaks" ? { breaks: new Error("reset") } : {}) }; };
  const r = await g.attemptAsync(() => pushContainerImage({ apiToken: "t", localImageTag: "img" })), good = (h) => h === "digest" || h === "line", final = (h) => good(h) || h === "refused" || h === "no stream"; let at = how.findIndex(final); if (at < 0) at = 2;
  g.ensure("tried again while it did not complete, at most twice", daemon.pushes === at + 1);
  g.ensure("it succeeds exactly then", r.ok === good(how[at]));
  g.ensure("the failure says why", r.ok || (how[at] === "refused" ? r.error.message.includes("denied") : how[at] === "breaks" ? r.error.message.includes("reset") : true));
});
contract("a push that fails at any point is no push", { bounded: "up to 8 events" }, async (g) => {
  world(g, { [AUTH]: auth(REF) }); daemon.images = ["img"]; const n = g.choose("events", [1, 3, 8]), at = g.choose("fails at", [-1, 0, 1, 2, 3, 5, 7]), digest = g.choose("digest at", [0, 1, 4, 7]), how = g.choose("how", ["error", "detail"]); g.assume(at < n && digest < n && digest !== at);
  const output = []; for (let i = 0; i < n; i++) output.push(i === at ? (how === "error" ? { error: "E" } : { errorDetail: { message: "E" } }) : i === digest ? DIGEST : { status: "Pushing", id: "l" + i, progressDetail: {} });
  daemon.push = () => ({ output });
  const r = await g.attemptAsync(() => pushContainerImage({ apiToken: "t", localImageTag: "img" }));
  g.ensure("it succeeds exactly when nothing failed", r.ok === (at < 0));
  g.ensure("and the failure is told", r.ok || r.error.message.includes("E"));
});
contract("an image is registered once it is pushed, with its changes and assets", { bounded: "the listed settings" }, async (g) => {
  const found = g.choose("base", ["at once", "later", "never"]), wait = g.bool("wait"), w = world(g, api({ [AUTH]: auth(REF), [DONE]: (b, k) => (found === "at once" || (found === "later" && k >= 2) || (found === "never" && k > 0 && !b.mustHaveBase) ? run(b.mustHaveBase ? "t" : "t-alone") : { data: { baseNotFound: true } }) }));
  daemon.images = ["img"]; disk.put("/app/index.html", "x"); disk.put("/z/a.zip", "zz"); daemon.archive = () => tarOf("tar of image");
  const diff = g.bool("diff"), from = g.choose("assets", ["none", "folder", "zip", "image"]), more = g.bool("more"), assets = from === "none" ? undefined : { ...(from === "folder" ? { folder: "/app" } : from === "zip" ? { zip: "/z/a.zip" } : { pathInImage: "/srv/dist/" }), regex: "^/a" };
  const r = await uploadContainer({ apiToken: "tok", localImageTag: "img", commitSha: "c1", waitForBase: wait, ...(diff ? { gitDiffOutput: "the diff" } : {}), ...(assets === undefined ? {} : { companionAssets: assets }), ...(more ? { baseSha: "b1", containerPort: 8080, containerEnv: [{ name: "A", value: "1" }], containerHealthCheckEndpoint: "/ok", projectId: "p1" } : {}) });
  const all = w.posts(DONE), puts = w.puts(), extra = w.posts(ASSETS), first = w.log.indexOf(all[0]), alone = wait && found === "never";
  g.ensure("the same each time", all.every((e, i) => e.body.uploadId === "u9" && e.body.commitSha === "c1" && e.body.baseSha === (more ? "b1" : undefined) && (e.body.hasGitDiff === true) === diff && e.body.containerPort === (more ? 8080 : undefined) && JSON.stringify(e.body.containerEnv) === (more ? '[{"name":"A","value":"1"}]' : undefined) && e.body.containerHealthCheckEndpoint === (more ? "/ok" : undefined) && e.body.mustHaveBase === (wait && !(alone && i === all.length - 1))));
  g.ensure("after the push and all that goes with it", daemon.log.some((e) => e[0] === "pushed" && e[1] === REF) && w.log.every((e, i) => e.put === undefined || i < first) && (extra.length === 0 || w.log.indexOf(extra[0]) < first));
  g.ensure("the changes are there", puts.filter((p) => p.put === "https://s3.test/diff-of-u9" && p.text === "the diff").length === (diff ? 1 : 0));
  g.ensure("the assets are there, and named", from === "none" ? all.every((e) => e.body.companionAssetsInfo === undefined) && extra.length === 0 : extra.length === 1 && extra[0].body.createDeployment === false && extra[0].body.mustHaveBase === false && extra[0].body.commitSha === "c1" && all.every((e) => JSON.stringify(e.body.companionAssetsInfo) === JSON.stringify({ deploymentUploadId: "u1", regex: "^/a", archiveType: from === "zip" ? "zip" : "tar.d" })));
  g.ensure("assets of an image are those beneath the path", from !== "image" || (daemon.log.some((e) => e[0] === "archive" && e[1] === "/srv/dist/.") && puts.filter((p) => p.put.includes("/part")).map((p) => p.text).join("") === "tar of image$" && daemon.removed === 1));
  g.ensure("asked once unless a base is wanted", wait || all.length === 1);
  g.ensure("the run is the result", r.uploadId === "u9" && (r.testRun?.id ?? null) === (found === "at once" || (wait && found === "later") ? (wait ? "t" : "t-alone") : alone ? "t-alone" : null));
  g.ensure("in the project given", w.log.every((e) => e.put !== undefined || e.query.projectId === (more ? "p1" : undefined)));
  g.ensure("nothing of the user's is removed", disk.text("/z/a.zip") === "zz" && disk.text("/app/index.html") === "x");
});
contract("an image that is not pushed is not registered", { bounded: "the listed failures" }, async (g) => {
  const what = g.choose("what", ["no docker", "no image", "no account", "tag", "push", "diff", "assets", "no path"]), build = g.bool("build"), w = world(g, api({ [AUTH]: what === "no account" ? () => ({ status: 403 }) : auth(REF), [DONE]: () => run("t"), "agent/upload-build/container": () => ({ data: { deploymentId: "d" } }) })); g.assume(!build || ["no docker", "no image", "no account", "tag", "push"].includes(what));
  daemon.images = what === "no image" ? [] : ["img"]; daemon.pings = what !== "no docker"; daemon.tags = what !== "tag"; if (what === "push") daemon.push = () => ({ output: [{ error: "denied" }] }); w.refuse = (url) => ((what === "diff" && url.includes("diff")) || (what === "assets" && url.includes("part")) ? { status: 403 } : undefined); daemon.archive = () => (what === "no path" ? new Error("no such path") : tarOf("t")); daemon.stuck = g.bool("stuck");
  const r = await g.attemptAsync(() => (build ? uploadBuild({ apiToken: "t", commitSha: "c", localImageTag: "img" }) : uploadContainer({ apiToken: "t", localImageTag: "img", commitSha: "c", gitDiffOutput: "d", companionAssets: { pathInImage: "/dist", regex: "x" } })));
  g.ensure("the failure is passed on", !r.ok && (what === "no image" ? r.error.message.includes("img") : what === "no account" ? r.error.response.status === 403 : what === "diff" || what === "assets" ? r.error.statusCode === 403 : true));
  g.ensure("nothing is registered", w.posts(DONE).length === 0 && w.posts("agent/upload-build/container").length === 0);
  await g.turn();
  g.ensure("no container is left", daemon.removed === daemon.containers);
});
contract("a container build is registered with its settings", {}, async (g) => {
  const port = g.choose("port", [undefined, 0, 8080]), env = g.choose("env", [undefined, [], [{ name: "A", value: "" }]]), health = g.choose("health", [undefined, "/ok"]), project = g.choose("project", [undefined, "p1"]), w = world(g, api({ [AUTH]: auth(REF), "agent/upload-build/container": () => ({ data: { deploymentId: "d7" } }) })); daemon.images = ["img"];
  const r = await uploadBuild({ apiToken: "tok", commitSha: "c1", localImageTag: "img", containerPort: port, containerEnv: env, containerHealthCheckEndpoint: health, projectId: project }), all = w.posts("agent/upload-build/container"), b = all[0].body;
  g.ensure("once, last, after the push", all.length === 1 && w.log[w.log.length - 1] === all[0] && daemon.log.some((e) => e[0] === "pushed"));
  g.ensure("with them", b.uploadId === "u9" && b.commitSha === "c1" && b.containerPort === port && JSON.stringify(b.containerEnv) === JSON.stringify(env) && b.containerHealthCheckEndpoint === health && all[0].query.project === project && w.log[0].query.projectId === project);
  g.ensure("its deployment is the result", r.deploymentId === "d7" && w.posts(DONE).length === 0);
});
