import { contract } from "vf";
import { disk } from "fs";
import { web } from "http";
import { uploadAssetBytesFromTarStream, uploadAssetBytesFromDirectory } from "repo:remote-replay-launcher/src/asset-upload-utils";

const timers = (g) => g.setGlobal("setTimeout", (f, _ms) => { Promise.resolve().then(f); return 0; });
// A tar, as pieces one after the other: it ends, or fails with an error, once the pieces are through
const tar = (pieces, end, pause = () => undefined) => {
  const on = {}; let begun = false;
  const s = { on(k, f) { (on[k] ?? (on[k] = [])).push(f); if (!begun && k === "data") { begun = true; run(); } return s; }, once: (k, f) => s.on(k, f), destroy() { return s; }, pause() { return s; }, resume() { return s; } };
  const say = (k, a) => { for (const f of on[k] ?? []) f(a); };
  const run = async () => { await undefined; for (const p of pieces) { say("data", Buffer.from(p)); await pause(); } if (end === undefined) say("end"); else say("error", end); };
  return s;
};
// The service: how large a part is, which addresses it gives at once, and what it is asked for
const service = (size, given) => { const s = { asked: [], url: (n) => "https://s3.test/part" + n, client: undefined, refuses: (_b) => undefined };
  s.client = { post: async (path, body, config) => { await undefined; s.asked.push({ path, body, config });
    if (path === "project-deployments/request-multipart-asset-upload") return { data: { uploadId: "u1", awsUploadId: "aws1", uploadPartUrls: [1, 2, 3, 4, 5, 6, 7, 8].slice(0, given).map(s.url), uploadChunkSize: size } };
    const no = s.refuses(body); if (no !== undefined) throw no;
    return { data: { uploadPartUrl: s.url(body.partNumber) + "?asked" } }; } };
  return s; };
const number = (url) => Number(url.slice("https://s3.test/part".length).split("?")[0]);
const LETTERS = "abcdefghijklmnopqrstuvwxyz";
const byNumber = () => [...web.calls].sort((a, b) => number(a.url) - number(b.url));

contract("the parts make up the whole, in order", { bounded: "up to 4 pieces of the listed lengths" }, async (g) => {
  g.setGlobal("process", { env: {} }); timers(g);
  const size = g.choose("part size", [1, 3, 5]), given = g.choose("addresses given", [0, 1, 2, 8]), n = g.choose("pieces", [0, 1, 2, 3, 4]), project = g.choose("project", [undefined, "p1"]); let at = 0;
  const pieces = []; for (let i = 0; i < n; i++) { const l = i < 2 ? g.choose("length" + i, [0, 1, 4, 7]) : i; pieces.push(LETTERS.slice(at, at + l)); at += l; }
  const s = service(size, given), slow = g.choose("slow", ["none", "first", "all"]);
  web.answer = async (c) => { const k = number(c.url); if (slow === "all" || (slow === "first" && k === 1)) for (let i = 0; i < 30; i++) await undefined; return { status: 200, headers: { etag: "e" + k } }; };
  const r = await uploadAssetBytesFromTarStream({ client: s.client, tarStream: tar(pieces, undefined), ...(project === undefined ? {} : { projectId: project }) }), calls = byNumber();
  const part = s.asked.filter((a) => a.path === "project-deployments/request-upload-part"), first = s.asked[0];
  g.ensure("asked for as what it is", first.path === "project-deployments/request-multipart-asset-upload" && first.body.archiveType === "tar.d" && s.asked.every((a) => a.config?.params?.projectId === project));
  g.ensure("numbered from one, without gaps", calls.every((c, i) => number(c.url) === i + 1) && calls.length > 0);
  g.ensure("together the whole stream, in order", calls.map((c) => c.text()).join("") === pieces.join("") + "$");
  g.ensure("each but the last as large as asked for", calls.slice(0, -1).every((c) => c.text().length === size));
  g.ensure("each at its own address", calls.every((c) => c.method === "PUT" && (c.url === s.url(number(c.url)) || part.some((a) => a.body.partNumber === number(c.url)))));
  g.ensure("an address is asked for with the part's size", part.every((a) => a.body.size === calls[a.body.partNumber - 1].text().length && a.body.uploadId === "u1" && a.body.awsUploadId === "aws1" && a.body.archiveType === "tar.d"));
  g.ensure("only full parts go to the addresses given", calls.every((c) => c.url.endsWith("?asked") || (number(c.url) <= given && c.text().length === size)));
  g.ensure("no more than four at a time", web.most <= 4);
  g.ensure("the result names the upload and the parts' tags in order", r.uploadId === "u1" && r.multipartUploadInfo.awsUploadId === "aws1" && JSON.stringify(r.multipartUploadInfo.eTags) === JSON.stringify(calls.map((_c, i) => "e" + (i + 1))));
});
contract("many parts, finished in any order", { bounded: "8 parts, the listed orders" }, async (g) => {
  g.setGlobal("process", { env: {} }); timers(g);
  const order = g.choose("order", [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 3, 1]]), given = g.choose("addresses given", [0, 3, 8]), s = service(2, given), waiting = [];
  web.answer = async (c) => { const k = number(c.url); await new Promise((ok) => { waiting.push(ok); }); return { status: 200, headers: { etag: "e" + k } }; };
  let v; uploadAssetBytesFromTarStream({ client: s.client, tarStream: tar(["abcd", "efgh", "ijkl", "mn", "o"], undefined) }).then((x) => { v = x; });
  for (let i = 0; i < 12; i++) { await g.turn(); const w = waiting.splice(0); g.ensure("four at a time", w.length <= 4 && (i > 0 || w.length === 4)); g.ensure("no result before its time", v === undefined || w.length === 0); for (const k of order) if (k < w.length) w[k](); }
  const calls = byNumber();
  g.ensure("the parts' tags, in order", JSON.stringify(v.multipartUploadInfo.eTags) === JSON.stringify(calls.map((_c, i) => "e" + (i + 1))));
  g.ensure("together the whole stream", calls.map((c) => c.text()).join("") === "abcdefghijklmno$" && calls.every((c, i) => number(c.url) === i + 1));
});
contract("an upload that loses a part fails, and nothing else does", { bounded: "the listed failures" }, async (g) => {
  g.setGlobal("process", { env: {} }); timers(g);
  const bad = g.choose("part", [1, 2, 3]), how = g.choose("how", ["refused", "unreachable", "no address", "stream"]), more = g.choose("turns before the end", [0, 1]), s = service(2, how === "no address" ? 0 : 8), lost = new Error("broken");
  s.refuses = (b) => (how === "no address" && b.partNumber === bad ? lost : undefined);
  web.answer = (c) => (how === "refused" && number(c.url) === bad ? { status: 403, body: ["denied"] } : how === "unreachable" && number(c.url) === bad ? { error: lost } : { status: 200, headers: { etag: "e" } });
  let go = () => undefined, held = false;
  const stream = tar(["abcd", "efgh", "ij"], how === "stream" ? lost : undefined, () => (more === 0 ? undefined : new Promise((ok) => { go = () => ok(undefined); held = true; })));
  let over = false; const r = g.attemptAsync(() => uploadAssetBytesFromTarStream({ client: s.client, tarStream: stream })); r.then(() => { over = true; });
  let unheard = 0;
  for (let i = 0; i < 6; i++) { unheard += await g.turn(); go(); }
  g.ensure("it comes to an end", over); const v = await r;
  g.ensure("it fails as the part did", !v.ok && (how === "refused" ? v.error.statusCode === 403 && v.error.responseBody === "denied" : v.error === lost));
  g.ensure("no failure goes unheard", unheard + (await g.turn()) === 0);
});
contract("a directory is sent as a tar of what is in it", { bounded: "the listed files" }, async (g) => {
  g.setGlobal("process", { env: {} }); timers(g); const t = g.choose("text", ["hello", ""]), size = g.choose("part size", [4, 1000]), bad = g.choose("unreadable", [false, true]), s = service(size, 1);
  disk.put("/app/index.html", t); disk.put("/app/js/a.js", "code"); disk.put("/app/.well-known/x", "y"); disk.put("/elsewhere", "no");
  disk.fails = (op, p) => bad && op === "open" && p === "/app/js/a.js"; web.answer = (c) => ({ status: 200, headers: { etag: "e" + number(c.url) } });
  const r = await g.attemptAsync(() => uploadAssetBytesFromDirectory({ client: s.client, folderPath: "/app" })), whole = byNumber().map((c) => c.text()).join("");
  g.ensure("fails exactly when a file cannot be read", r.ok === !bad);
  g.ensure("every file, with its text", !r.ok || ["[File ./index.html]" + t, "[File ./js/a.js]code", "[File ./.well-known/x]y"].every((x) => whole.includes(x)));
  g.ensure("and no other", !whole.includes("elsewhere"));
});
contract("a link is sent as what it leads to", { bounded: "one link" }, async (g) => {
  g.setGlobal("process", { env: {} }); timers(g); const s = service(1000, 1);
  disk.put("/shared/lib.js", "lib"); disk.put("/app/a.js", "x"); disk.link("/app/l.js", "/shared/lib.js"); web.answer = () => ({ status: 200, headers: { etag: "e" } });
  await uploadAssetBytesFromDirectory({ client: s.client, folderPath: "/app" });
  g.ensure("its text is there", byNumber().map((c) => c.text()).join("").includes("[File ./l.js]lib"));
});
contract("whatever is sent, and however large a part is", { bounded: "up to 3 pieces" }, async (g) => {
  g.setGlobal("process", { env: {} }); timers(g);
  const size = g.int("part size", 1, 100000000), n = g.choose("pieces", [1, 2, 3]), pieces = [0, 1, 2].slice(0, n).map((i) => g.string("piece" + i, ["abc", "abcdefgh", ""])), s = service(size, 8);
  for (const p of pieces) g.assume(/^[\x00-\x7f]*$/.test(p));
  web.answer = (c) => ({ status: 200, headers: { etag: "e" + number(c.url) } });
  const r = await uploadAssetBytesFromTarStream({ client: s.client, tarStream: tar(pieces, undefined) }), calls = byNumber();
  g.ensure("together the whole stream, in order", calls.map((c) => c.text()).join("") === pieces.join("") + "$");
  g.ensure("each but the last as large as asked for", calls.slice(0, -1).every((c) => c.text().length === size));
  g.ensure("a tag for each", r.multipartUploadInfo.eTags.length === calls.length);
});
contract("more parts than nine keep their order", { bounded: "up to 25 parts" }, async (g) => {
  g.setGlobal("process", { env: {} }); timers(g);
  const given = g.choose("addresses given", [0, 8]), long = g.choose("length", [9, 10, 11, 24]), slow = g.choose("slow", [0, 2, 10]), s = service(1, given), text = LETTERS.slice(0, long);
  web.answer = async (c) => { const k = number(c.url); if (k === slow) for (let i = 0; i < 60; i++) await undefined; return { status: 200, headers: { etag: "e" + k } }; };
  const r = await uploadAssetBytesFromTarStream({ client: s.client, tarStream: tar(text.split(""), undefined) }), calls = byNumber();
  g.ensure("the parts' tags, in order", r.multipartUploadInfo.eTags.join(" ") === calls.map((_c, i) => "e" + (i + 1)).join(" ") && calls.length >= long);
  g.ensure("together the whole stream", calls.map((c) => c.text()).join("") === text + "$");
});
