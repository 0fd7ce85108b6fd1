import { contract } from "vf";
import { disk } from "fs";
import { web } from "http";
import { uploadBufferToSignedUrl } from "repo:remote-replay-launcher/src/asset-upload-utils";
import { putFileToSignedUrl } from "repo:client/src/utils/put-file-to-signed-url";

const timers = (g) => { const waits = []; g.setGlobal("setTimeout", (f, ms) => { waits.push(ms); Promise.resolve().then(f); return 0; }); return waits; };
const quiet = (g) => g.setGlobal("process", { env: {} });
const length = (h) => h[Object.keys(h).find((k) => k.toLowerCase() === "content-length")];
const kind = (h) => h[Object.keys(h).find((k) => k.toLowerCase() === "content-type")];
const PLACES = ["https://s3.test/up?sig=a%20b&x=1", "http://localhost:9000/up?sig=1"];

contract("a buffer arrives whole at its address", {}, async (g) => {
  quiet(g); timers(g); const url = g.choose("url", PLACES), text = g.string("text", ["", "abc"]), type = g.choose("type", [undefined, "text/plain"]), tag = g.choose("tag", [undefined, '"e1"', ""]), pieces = g.choose("answer", [[], ["<ok/>"], ["a", "b"]]);
  web.answer = () => ({ status: 200, headers: tag === undefined ? {} : { etag: tag }, body: pieces });
  const b = Buffer.from(text), r = await (type === undefined && g.bool("no options") ? uploadBufferToSignedUrl(url, b) : uploadBufferToSignedUrl(url, b, type === undefined ? {} : { contentType: type })), c = web.calls[0];
  g.ensure("one PUT to it", web.calls.length === 1 && c.method === "PUT" && c.url === url);
  g.ensure("encrypted exactly if the address says so", c.secure === url.startsWith("https:"));
  g.ensure("the whole of it", c.text() === text);
  g.ensure("its length is told", Number(length(c.headers)) === b.length);
  g.ensure("its kind is told when there is one", kind(c.headers) === type);
  g.ensure("the result is the tag of the answer", r === (tag ?? ""));
  g.ensure("through the proxy in force", c.agent !== undefined);
});
const statuses = (g, k) => g.int("status" + k, 100, 599);
contract("an upload succeeds exactly when the store answers 200", {}, async (g) => {
  quiet(g); const waits = timers(g), file = g.bool("file"), status = statuses(g, 0), text = g.string("answer", ["<Error/>"]);
  disk.put("/d/f", "some text");
  web.answer = () => ({ status, body: ["a", text] });
  const r = await g.attemptAsync(() => (file ? putFileToSignedUrl({ filePath: "/d/f", signedUrl: PLACES[0], size: 9, contentType: "application/zip" }) : uploadBufferToSignedUrl(PLACES[0], Buffer.from("x"))));
  const transient = [429, 500, 502, 503, 504].includes(status);
  g.ensure("exactly then", r.ok === (status === 200));
  g.ensure("a failure carries status and answer", r.ok || (r.error.statusCode === status && r.error.responseBody === "a" + text));
  g.ensure("a buffer is sent again exactly if that may help", web.calls.length === (!file && transient ? 5 : 1));
  g.ensure("whole each time", web.calls.every((c) => c.text() === (file ? "some text" : "x")));
});
contract("a buffer's upload goes on after what passes", { bounded: "up to 5 attempts" }, async (g) => {
  quiet(g); timers(g); const text = g.string("text", ["abc"]), HOWS = ["ok", "busy", "reset", "breaks", "refused", "unknown"], how = [0, 1, 2, 3, 4].map((k) => (k === 0 ? g.choose("first", HOWS) : k < 3 ? g.choose("then" + k, HOWS) : "busy")); let n = 0;
  const lost = (code) => Object.assign(new Error("no"), { code });
  web.answer = () => { const h = how[n++]; return h === "ok" ? { status: 200, headers: { etag: "e" + n } } : h === "busy" ? { status: 503 } : h === "reset" ? { error: lost("ECONNRESET") } : h === "refused" ? { error: lost("ECONNREFUSED") } : h === "unknown" ? { status: 403 } : { status: 200, headers: { etag: "e" }, body: ["half"], end: "breaks" }; };
  let done = false; const r = g.attemptAsync(() => uploadBufferToSignedUrl(PLACES[0], Buffer.from(text))); r.then(() => { done = true; });
  await g.turn();
  g.ensure("it comes to an end", done);
  const last = how.findIndex((h) => h === "ok" || h === "refused" || h === "unknown"), at = last < 0 ? 4 : last, v = await r;
  g.ensure("as many attempts as that takes", web.calls.length === at + 1);
  g.ensure("succeeds exactly when an attempt was answered", v.ok === (how[at] === "ok"));
  g.ensure("with its tag", !v.ok || v.value === "e" + (at + 1));
  g.ensure("or fails as the last one did", v.ok || (how[at] === "refused" ? v.error.code === "ECONNREFUSED" : v.error.statusCode === (how[at] === "unknown" ? 403 : 503)));
  g.ensure("the whole of it each time", web.calls.every((c) => c.text() === text && c.method === "PUT" && c.url === PLACES[0]));
});
contract("a file arrives whole at its address", {}, async (g) => {
  quiet(g); const url = g.choose("url", PLACES), text = g.string("text", ["", "hello"]), type = g.string("type", ["application/zip"]), size = g.int("size", 0, 1000000);
  disk.put("/d/f.zip", text); web.answer = () => ({ status: 200 });
  await putFileToSignedUrl({ filePath: "/d/f.zip", signedUrl: url, size, contentType: type });
  const c = web.calls[0];
  g.ensure("one PUT to it", web.calls.length === 1 && c.method === "PUT" && c.url === url && c.secure === url.startsWith("https:"));
  g.ensure("the whole of it", c.text() === text);
  g.ensure("its length and kind are told", Number(length(c.headers)) === size && kind(c.headers) === type);
  g.ensure("through the proxy in force", c.agent !== undefined);
});
contract("a file's upload that cannot go on fails", { bounded: "the listed failures" }, async (g) => {
  quiet(g); const how = g.choose("how", ["no file", "unreadable", "reset", "breaks", "breaks at once"]), lost = Object.assign(new Error("no"), { code: "ECONNRESET" });
  if (how !== "no file") disk.put("/d/f", "text"); disk.fails = (op) => how === "unreadable" && op === "read";
  web.answer = () => (how === "reset" ? { error: lost } : { status: 200, body: how === "breaks" ? ["a"] : [], end: how === "breaks" || how === "breaks at once" ? "breaks" : "ends" });
  let done = false; const r = g.attemptAsync(() => putFileToSignedUrl({ filePath: "/d/f", signedUrl: PLACES[0], size: 4, contentType: "x" })); r.then(() => { done = true; });
  const bad = await g.turn();
  g.ensure("it comes to an end", done); const v = await r;
  g.ensure("with an error", !v.ok);
  g.ensure("of its own kind", v.error.code === (how === "no file" ? "ENOENT" : how === "unreadable" ? "EIO" : "ECONNRESET"));
  g.ensure("and none that nobody hears", bad === 0);
  g.ensure("nothing was taken for the whole file", how !== "no file" && how !== "unreadable" || web.calls.length === 0);
});
