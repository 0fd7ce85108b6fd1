import { contract } from "vf";
import { disk } from "fs";
import { uploadAssetChunk, writeCompressedTar } from "repo:remote-replay-launcher/src/upload-asset-chunk";
import { world } from "./lib";

const ASK = "project-deployments/request-asset-chunk-upload", DONE = "project-deployments/complete-asset-chunk-upload";
const files = (g) => { disk.put("/c/a.js", g.choose("text", ["code", ""])); disk.put("/c/sub/b.css", "style"); disk.put("/other", "no"); };
const left = () => [...disk.files.keys(), ...disk.dirs].filter((p) => p.startsWith("/tmp/"));
const put = (w, end) => w.puts().filter((p) => p.put.endsWith(end));
const size = (h) => Number(h[Object.keys(h).find((k) => k.toLowerCase() === "content-length")]);

contract("a chunk is announced once it and its index are stored", { bounded: "the listed files" }, async (g) => {
  files(g); const before = g.choose("before", [null, "deleted", "failed_uploading", "pending_upload", "uploaded"]), there = g.bool("already there"), prefix = g.choose("prefix", [undefined, "app"]), commit = g.choose("commit", [undefined, "c1"]), force = g.bool("force"), project = g.choose("project", [undefined, "p1"]);
  const w = world(g, { [ASK]: () => ({ data: there ? { alreadyUploaded: true } : { alreadyUploaded: false, tarballUploadUrl: "https://s3.test/tar", filesIndexUploadUrl: "https://s3.test/index", previousStatus: before } }), [DONE]: () => ({ data: { message: "ok" } }) });
  await uploadAssetChunk({ apiToken: "tok", chunkName: "n", chunkVersionId: "v", chunkAssetsDirectory: "/c", ...(prefix === undefined ? {} : { chunkAssetsDirectoryPrefix: prefix }), ...(commit === undefined ? {} : { commitSha: commit }), ...(force ? { force: true } : {}), ...(project === undefined ? {} : { projectId: project }) });
  const ask = w.posts(ASK), done = w.posts(DONE), tar = put(w, "/tar"), index = put(w, "/index"), at = prefix === undefined ? "." : prefix + "/.";
  g.ensure("asked for as what it is", ask.length === 1 && ask[0].body.chunkName === "n" && ask[0].body.chunkVersionId === "v" && ask[0].body.commitSha === commit && (ask[0].body.force === true) === force);
  g.ensure("in the project given, with the token given", w.log.every((e) => e.put !== undefined || (e.token === "tok" && e.query.projectId === project)));
  g.ensure("one that is there is not sent again", !there || w.log.length === 1);
  g.ensure("else it is sent whole", there || (tar.length === 1 && ["[File " + at + "/a.js]" + disk.text("/c/a.js"), "[File " + at + "/sub/b.css]style"].every((x) => tar[0].text.includes(x)) && tar[0].text.endsWith("$") && !tar[0].text.includes("other")));
  g.ensure("as large as announced", there || (ask[0].body.tarballSize === tar[0].text.length && size(tar[0].headers) === tar[0].text.length));
  g.ensure("its index names its files", there || (index.length === 1 && JSON.stringify(JSON.parse(index[0].text).sort()) === JSON.stringify([at + "/a.js", at + "/sub/b.css"]) && size(index[0].headers) === index[0].text.length));
  g.ensure("it is announced after both", there || (done.length === 1 && w.log[w.log.length - 1] === done[0] && done[0].body.chunkName === "n" && done[0].body.chunkVersionId === "v" && done[0].body.commitSha === commit));
  g.ensure("nothing stays behind", left().length === 0 && disk.text("/c/a.js") !== undefined);
});
contract("a chunk that is not stored is not announced", { bounded: "the listed failures" }, async (g) => {
  files(g); const what = g.choose("what", ["unreadable", "disk full", "disk full at the end", "refused", "tar", "index", "announcing"]); let n = 0;
  const w = world(g, { [ASK]: () => (what === "refused" ? { status: 403 } : { data: { alreadyUploaded: false, tarballUploadUrl: "https://s3.test/tar", filesIndexUploadUrl: "https://s3.test/index", previousStatus: null } }), [DONE]: () => (what === "announcing" ? { status: 400 } : { data: {} }) });
  w.refuse = (url) => ((what === "tar" && url.endsWith("/tar")) || (what === "index" && url.endsWith("/index")) ? { status: 403, body: ["denied"] } : undefined);
  disk.fails = (op, p) => (what === "unreadable" && op === "open" && p === "/c/sub/b.css") || (op === "write" && p.startsWith("/tmp/") && ((what === "disk full" && ++n > 1) || (what === "disk full at the end" && (disk.text(p) ?? "").includes("[Directory ./sub]"))));
  const r = await g.attemptAsync(() => uploadAssetChunk({ apiToken: "tok", chunkName: "n", chunkVersionId: "v", chunkAssetsDirectory: "/c" }));
  g.ensure("the failure is passed on", !r.ok && (what === "refused" ? r.error.response.status === 403 : what === "announcing" ? r.error.response.status === 400 : what === "tar" || what === "index" ? r.error.statusCode === 403 : r.error.code === "EIO"));
  g.ensure("it is not announced", w.posts(DONE).length === (what === "announcing" ? 1 : 0));
  g.ensure("what could not be written whole is not sent", !what.startsWith("disk") && what !== "unreadable" || w.log.length === 0);
  g.ensure("nothing stays behind", left().length === 0);
});
contract("what passes is waited out for both", { bounded: "up to 3 failures each" }, async (g) => {
  files(g); const a = g.choose("tar fails", [0, 1, 3]), b = g.choose("index fails", [0, 1, 3]), n = { tar: 0, index: 0 }, w = world(g, { [ASK]: () => ({ data: { alreadyUploaded: false, tarballUploadUrl: "https://s3.test/tar", filesIndexUploadUrl: "https://s3.test/index", previousStatus: null } }) });
  w.refuse = (url) => { const k = url.endsWith("/tar") ? "tar" : "index"; return n[k]++ < (k === "tar" ? a : b) ? { status: 503 } : undefined; };
  await uploadAssetChunk({ apiToken: "tok", chunkName: "n", chunkVersionId: "v", chunkAssetsDirectory: "/c" });
  g.ensure("each stored once, whole", put(w, "/tar").length === 1 && put(w, "/index").length === 1 && put(w, "/tar")[0].text.endsWith("$"));
  g.ensure("then announced", w.log[w.log.length - 1].path === DONE && w.posts(DONE).length === 1);
});
contract("only a directory is a chunk", {}, async (g) => {
  files(g); const w = world(g, {}), at = g.choose("at", ["/gone", "/c/a.js"]), r = await g.attemptAsync(() => uploadAssetChunk({ apiToken: "t", chunkName: "n", chunkVersionId: "v", chunkAssetsDirectory: at }));
  g.ensure("else it says so and asks for nothing", !r.ok && r.error.message.includes(at) && w.log.length === 0 && left().length === 0);
});
contract("an archive is written whole or fails", { bounded: "the listed files and failures" }, async (g) => {
  files(g); const fails = g.choose("write fails at", [-1, 0, 1, 2, 3, 4, 5]), slow = g.choose("slow", [false, true]); let k = 0;
  disk.waits = (op) => (slow && op === "write" ? (async () => { for (let i = 0; i < 40; i++) await undefined; })() : undefined); disk.fails = (op, p) => op === "write" && p === "/out.tar.d" && k++ === fails;
  const r = await g.attemptAsync(() => writeCompressedTar({ cwd: "/c", destination: "/out.tar.d" })), t = disk.text("/out.tar.d");
  g.ensure("it succeeds exactly when all of it was written", r.ok === (fails < 0 || fails >= k));
  g.ensure("then it is all there", !r.ok || (t.includes("[File ./a.js]") && t.includes("[File ./sub/b.css]style") && t.endsWith("$")));
  g.ensure("the failure is passed on", r.ok || r.error.code === "EIO");
  g.ensure("its files are named", !r.ok || r.value.filePaths.length === 2);
});
