import { contract } from "vf";
import { disk } from "fs";
import { net } from "axios";
import { source } from "stream";
import { zips } from "extract-zip";
import { downloadAndExtractFile } from "repo:downloading-helpers/src/file-downloads/download-file";

const ZIP = "/d/tmp.zip", OUT = "/d/out";
const clock = (g) => { const c = { deadlines: new Map(), n: 0, pass() { for (const [k, t] of [...c.deadlines]) { c.deadlines.delete(k); t.f(); } } };
  g.setGlobal("setTimeout", (f, ms) => { const k = ++c.n; if (ms >= 60000) c.deadlines.set(k, { f, ms }); else Promise.resolve().then(f); return k; }); g.setGlobal("clearTimeout", (k) => { c.deadlines.delete(k); });
  return c; };

contract("an archive is unpacked and goes", { bounded: "up to 3 files in the archive" }, async (g) => {
  const c = clock(g), names = ["a.json", "sub/b.json", "c"].slice(0, g.choose("files", [0, 1, 2, 3])), text = g.string("text"), how = g.choose("how", ["ends", "fails", "stalls"]), err = new Error("bad zip"), limit = g.choose("limit", [undefined, 61000]);
  disk.put(OUT + "/kept", "kept"); g.setGlobal("process", { env: {} });
  net.answer = () => ({ data: source([{ length: 3, text: "zip" }], "ends"), headers: {} });
  let whole = null; zips.entries = (p) => { whole = p === ZIP && disk.text(ZIP) === "zip"; return names.map((name) => ({ name, text: name + text })); };
  zips.end = () => { if (how === "stalls") Promise.resolve().then(async () => { for (let i = 0; i < 5; i++) await undefined; c.pass(); }); return how === "fails" ? err : how; };
  const r = await g.attemptAsync(() => (limit === undefined ? downloadAndExtractFile("https://s3.test/z", ZIP, OUT) : downloadAndExtractFile("https://s3.test/z", ZIP, OUT, limit)));
  g.ensure("only once it is there", whole === true);
  g.ensure("the archive is gone in any case", disk.text(ZIP) === undefined);
  g.ensure("it succeeds exactly when it was unpacked", r.ok === (how === "ends"));
  g.ensure("what was unpacked is said", !r.ok || (r.value.join() === names.join() && names.every((n) => disk.text(OUT + "/" + n) === n + text)));
  g.ensure("why it failed is said", r.ok || (how === "fails" ? r.error === err : r.error.message.includes(String(limit ?? 300000))));
  g.ensure("no deadline is left behind", c.deadlines.size === 0);
  g.ensure("the rest of the directory is kept", disk.text(OUT + "/kept") === "kept");
});
contract("an archive that did not arrive is not unpacked", {}, async (g) => {
  const c = clock(g), err = new Error("refused"); net.answer = () => ({ error: err }); let asked = false; zips.entries = () => { asked = true; return []; };
  const r = await g.attemptAsync(() => downloadAndExtractFile("https://s3.test/z", ZIP, OUT));
  g.ensure("so", !r.ok && r.error === err && !asked && c.deadlines.size === 0);
});
