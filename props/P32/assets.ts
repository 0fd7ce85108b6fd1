import { contract } from "vf";
import { disk } from "fs";
import { net } from "axios";
import { source } from "stream";
import { locks } from "proper-lockfile";
import { fetchAsset, checkIfAssetsOutdated } from "repo:downloading-helpers/src/scripts/replay-assets";

const BASES = { standard: undefined, other: "https://snippets.example.test/x/", local: "http://localhost:8080/" };
const world = (g, base, env) => { g.setGlobal("process", { env: { METICULOUS_DIR: "/m", METICULOUS_IS_CLOUD_REPLAY: "true", ...(BASES[base] === undefined ? {} : { METICULOUS_SNIPPETS_BASE_URL: BASES[base] }), ...env }, cwd: () => "/cwd" }); g.setGlobal("setTimeout", (f, ms) => { if (ms < 60000) Promise.resolve().then(f); return 0; }); g.setGlobal("clearTimeout", () => {}); };
// A service with one version of each file: its tag and its text
const serve = (s) => { net.answer = (r) => { if (s.down) return { error: s.down }; if (r.method === "HEAD") return { data: "", headers: s.tag === null ? {} : { etag: s.tag } }; return { data: source([{ length: 2, text: "V:" }, { length: 2, text: s.text + r.url.slice(r.url.lastIndexOf("/")) }], "ends"), headers: {} }; }; };
const gets = () => net.calls.filter((c) => c.method === "GET").map((c) => c.url);

contract("an asset is fetched once and again when it changes", { bounded: "three calls" }, async (g) => {
  const base = g.choose("base", ["standard", "other"]), name = g.choose("name", ["replay/v3/bundle.js", "replay/data.bin"]), t1 = g.choose("first tag", [null, "e1"]), t2 = g.choose("second tag", [null, "e1", "e2"]), what = g.choose("meanwhile", ["nothing", "file is gone", "list is gone", "list is cut"]), a = g.string("a"), b = g.string("b");
  world(g, base, {}); const s: any = { tag: t1, text: a }; serve(s);
  const p = await fetchAsset(name), n = gets().length, file = name.slice(name.lastIndexOf("/"));
  g.ensure("fetched", n === 1 && disk.text(p) === "V:" + a + file);
  g.ensure("from the right place", gets()[0].startsWith(BASES[base] ?? "https://snippet.meticulous.ai/") && gets()[0].endsWith(name) && p.startsWith("/m/assets/"));
  g.ensure("named so that it can be loaded", p.endsWith(name.endsWith(".js") ? "/bundle.cjs" : "/data.bin"));
  const list = [...disk.files.keys()].find((k) => k.endsWith("/assets.json"));
  if (what === "file is gone") disk.files.delete(p); if (what === "list is gone") disk.files.delete(list); if (what === "list is cut") disk.put(list, "{\"assets\":[{");
  s.tag = t2; s.text = t1 !== null && t1 === t2 ? a : b; const q = await fetchAsset(name), same = t1 !== null && t1 === t2 && what === "nothing";
  g.ensure("fetched again exactly when it may have changed", (gets().length === 2) === !same && gets().length <= 2);
  g.ensure("what is there is what the service has", q === p && disk.text(p) === "V:" + s.text + file);
  await fetchAsset(name);
  g.ensure("and then no more", gets().length === (same ? 1 : 2) + (t2 === null ? 1 : 0));
  g.ensure("no lock is left", locks.taken.size === 0);
});
contract("an asset that cannot be fetched", { bounded: "one earlier call" }, async (g) => {
  const had = g.bool("there before"), how = g.choose("how", ["no service", "breaks", "list cannot be written"]), a = g.string("a"); world(g, "standard", {}); const s: any = { tag: "e1", text: a }; serve(s);
  if (had) await fetchAsset("x/y.js"); const AT = "/m/assets/y.cjs"; s.tag = "e2"; s.text = "new"; const err = new Error("offline");
  if (how === "no service") s.down = err; disk.fails = (op, p) => op === "write" && ((how === "breaks" && p === AT && disk.text(AT) === "V:") || (how === "list cannot be written" && p.endsWith("assets.json")));
  const r = await g.attemptAsync(() => fetchAsset("x/y.js"));
  g.ensure("fails", !r.ok && (how !== "no service" || r.error === err));
  g.ensure("no lock is left", locks.taken.size === 0);
  g.ensure("nothing half-written is there", disk.text(AT) === undefined || disk.text(AT) === "V:" + a + "/y.js" || disk.text(AT) === "V:new/y.js");
  s.down = undefined; disk.fails = () => false; const again = await fetchAsset("x/y.js");
  g.ensure("the next call has it", disk.text(again) === "V:new/y.js");
});
contract("assets that are fetched at once do not lose each other", { bounded: "three assets" }, async (g) => {
  world(g, "standard", {}); const s: any = { tag: "e1", text: "t" }; serve(s);
  await Promise.all([fetchAsset("a.js"), fetchAsset("b.js"), fetchAsset("c.js")]);
  const n = gets().length; await fetchAsset("a.js"); await fetchAsset("b.js"); await fetchAsset("c.js");
  g.ensure("each once", n === 3 && gets().length === 3 && locks.taken.size === 0);
});
contract("an asset is outdated unless what is there has the latest tag", { bounded: "two assets" }, async (g) => {
  const t1 = g.choose("first tag", [null, "e1"]), t2 = g.choose("second tag", [null, "e1", "e2"]), gone = g.bool("file is gone"); world(g, g.choose("base", ["standard", "other"]), {}); const s: any = { tag: t1, text: "t" }; serve(s);
  const p = await fetchAsset("d/a.js"); s.tag = t2; if (gone) disk.files.delete(p);
  const r = await checkIfAssetsOutdated(["d/a.js", "d/never.js"]);
  g.ensure("so", r["d/a.js"] === (t1 === null || t1 !== t2 || gone) && r["d/never.js"] === true && Object.keys(r).length === 2);
  g.ensure("nothing is fetched", gets().length === 1 && locks.taken.size === 0);
});
contract("an asset that comes with the machine is taken from there", { bounded: "the listed settings" }, async (g) => {
  const base = g.choose("base", ["standard", "other"]), there = g.bool("there"); world(g, base, { METICULOUS_PRELOADED_SNIPPETS_DIR: "/pre" }); disk.put(there ? "/pre/a.cjs" : "/pre/b.cjs", "p"); serve({ tag: "e", text: "t" });
  const p = await fetchAsset("d/a.js"), own = base === "standard" && there;
  g.ensure("unless another service is set", (p === "/pre/a.cjs") === own && (net.calls.length === 0) === own && disk.text(p) === (own ? "p" : "V:t/a.js"));
});
contract("assets of different services are kept apart", { bounded: "the listed services" }, async (g) => {
  const first = g.choose("first", ["standard", "other", "local"]), second = g.choose("second", ["standard", "other", "local"]); world(g, first, { CI: "true" }); serve({ tag: "e", text: "one" });
  const p = await fetchAsset("d/a.js"); world(g, second, { CI: "true" }); serve({ tag: "e", text: "two" }); const q = await fetchAsset("d/a.js");
  g.ensure("so", (p === q) === (first === second) && disk.text(q) === (first === second ? "V:one/a.js" : "V:two/a.js") && disk.text(p) === "V:one/a.js");
});
