import { contract } from "vf";
import { disk } from "fs";
import { net } from "axios";
import { bars } from "cli-progress";
import { source } from "stream";
import { downloadFile } from "repo:downloading-helpers/src/file-downloads/download-file";

const AT = "/d/file.bin", URL0 = "https://s3.test/file?sig=1";
// Timers: those of a minute or more are the deadlines, which pass only when the contract says so; the others end at once
const clock = (g) => { const c = { waits: [], deadlines: new Map(), n: 0, pass() { for (const [k, t] of [...c.deadlines]) { c.deadlines.delete(k); t.f(); } } };
  g.setGlobal("setTimeout", (f, ms) => { const k = ++c.n; if (ms >= 60000) c.deadlines.set(k, { f, ms }); else { c.waits.push(ms); Promise.resolve().then(f); } return k; }); g.setGlobal("clearTimeout", (k) => { c.deadlines.delete(k); });
  return c; };
const piece = (text, n) => ({ length: n, text });
const stalls = (c) => { Promise.resolve().then(async () => { for (let i = 0; i < 20; i++) await undefined; c.pass(); }); };
const world = (g, o) => { disk.put("/d/other", "kept"); g.setGlobal("process", { env: g.bool("worker") ? { METICULOUS_IS_CLOUD_REPLAY: "true" } : {} }); const length = g.choose("length", [undefined, "0", "7", "20000"]); return length === undefined ? {} : { "content-length": length }; };

contract("a file arrives whole", { bounded: "up to 3 pieces" }, async (g) => {
  const c = clock(g), headers = world(g, {}), n = g.choose("pieces", [0, 1, 2, 3]), texts = [0, 1, 2].slice(0, n).map((i) => g.string("p" + i)), old = g.bool("there before");
  if (old) disk.put(AT, "old");
  net.answer = () => ({ data: source(texts.map((t, i) => piece(t, 3000 + i)), "ends"), headers });
  await downloadFile(URL0, AT);
  g.ensure("as it was sent", disk.text(AT) === texts.join(""));
  g.ensure("in one request for it", net.calls.length === 1 && net.calls[0].method === "GET" && net.calls[0].url === URL0 && net.calls[0].responseType === "stream");
  g.ensure("that has a deadline", net.calls[0].timeout > 0);
  g.ensure("no deadline is left behind", c.deadlines.size === 0 && bars.running === 0);
});
contract("a failing download leaves nothing and is tried again", { bounded: "up to 4 attempts" }, async (g) => {
  const c = clock(g), headers = world(g, {}), max = g.choose("retries", [0, 1, 2, 3]), fails = g.choose("failures", [0, 1, 2, 3, 4]), how = g.choose("how", ["stalls", "write", "breaks"]), delay = g.int("delay", 0, 5000), text = g.string("text"), total = g.choose("deadline", [60000, 70000]);
  let n = 0; const at = [];
  net.answer = () => { const k = n++; at.push(disk.text(AT)); const bad = k < fails; if (bad && how !== "write") stalls(c); return { data: source([piece("part ", 5), piece(text, 3)], bad ? (how === "stalls" ? "stalls" : how === "breaks" ? new Error("reset") : "ends") : "ends"), headers }; };
  disk.fails = (op, p) => op === "write" && p === AT && how === "write" && n <= fails && disk.text(AT) === "part ";
  const r = await g.attemptAsync(() => downloadFile(URL0, AT, { maxDownloadContentRetries: max, downloadContentRetryDelay: delay, downloadCompleteTimeoutInMs: total, firstDataTimeoutInMs: 70001 }));
  g.ensure("it succeeds exactly when an attempt does", r.ok === fails <= max);
  g.ensure("as often as allowed", n === Math.min(fails, max) + 1);
  g.ensure("each attempt starts from nothing", at.every((t) => t === undefined));
  g.ensure("whole, or not there at all", disk.text(AT) === (fails <= max ? "part " + text : undefined));
  g.ensure("after the delay asked for", c.waits.length === n - 1 && c.waits.every((w) => w === delay));
  g.ensure("the failure is the last one", r.ok || (how === "write" ? r.error.code === "EIO" : r.error.message.includes(String(total))));
  g.ensure("each request within the given time", net.calls.every((q) => q.timeout === 70001 && q.url === URL0));
  g.ensure("no deadline is left behind", c.deadlines.size === 0 && bars.running === 0);
  g.ensure("nothing else is touched", disk.text("/d/other") === "kept");
});
contract("an address that cannot be reached", { bounded: "the listed failures" }, async (g) => {
  const c = clock(g); world(g, {}); disk.put(AT, "old"); const err = new Error("refused"), again = g.bool("transient"), works = g.choose("works at", [0, 1, 3, 4, 9]); let n = 0;
  net.answer = () => (n++ < works ? { error: err, again } : { data: source([piece("x", 1)], "ends"), headers: {} });
  const r = await g.attemptAsync(() => downloadFile(URL0, AT));
  const ok = works === 0 || (again && works <= 3);
  g.ensure("asked again three times if that may help", n === (works === 0 ? 1 : again ? Math.min(works, 3) + 1 : 1));
  g.ensure("the failure is passed on", r.ok === ok && (ok || r.error === err));
  g.ensure("nothing is written for it", disk.text(AT) === (ok ? "x" : "old"));
  g.ensure("no deadline is left behind", c.deadlines.size === 0);
});
