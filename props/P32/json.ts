import { contract } from "vf";
import { disk } from "fs";
import { locks } from "proper-lockfile";
import { getOrDownloadJsonFile, waitToAcquireLockOnFile, waitToAcquireLockOnDirectory } from "repo:downloading-helpers/src/file-downloads/local-data.utils";
import { getOrFetchRecordedSession, getOrFetchRecordedSessionData } from "repo:downloading-helpers/src/file-downloads/sessions";
import { getOrFetchReplay } from "repo:downloading-helpers/src/scripts/replays";

const AT = "/m/s/x.json";
const quiet = (g) => { g.setGlobal("process", { env: { METICULOUS_DIR: "/m" }, cwd: () => "/cwd", exit: (c) => { throw { exit: c }; } }); g.setGlobal("setTimeout", (f) => { Promise.resolve().then(f); return 0; }); g.setGlobal("clearTimeout", () => {}); };
const read = (downloadJson) => getOrDownloadJsonFile({ filePath: AT, dataDescription: "thing", downloadJson });
const later = (n, v) => (async () => { for (let i = 0; i < n; i++) await undefined; return v; })();

contract("a local copy is fetched once and then read", { bounded: "two calls" }, async (g) => {
  quiet(g); const v = g.string("v"), k = g.int("k", 0, 99), data = { id: v, k, deep: { list: [v, null, true] } }, had = g.choose("there", ["nothing", "the copy", "part of it", "no text", "null", "no JSON"]); let n = 0;
  const whole = JSON.stringify({ id: "known", k: 7 }, null, 2); if (had !== "nothing") disk.put(AT, { "the copy": whole, "part of it": whole.slice(0, g.choose("cut", [1, 5, 14, whole.length - 1])), "no text": "", null: "null", "no JSON": "<html>" }[had]);
  const r = await read(async () => { n += 1; await later(3, 0); return data; });
  if (had === "the copy") { g.ensure("not fetched", n === 0); g.ensure("read as it was written", r.id === "known" && r.k === 7); return; }
  g.ensure("fetched once", n === 1);
  g.eq("what was fetched is returned", r, data);
  const again = await read(async () => { n += 1; return data; });
  g.ensure("then it is there", n === 1); g.eq("as it was fetched", again, data);
  g.ensure("no lock is left", locks.taken.size === 0);
});
contract("what cannot be fetched is not stored", { bounded: "the listed failures" }, async (g) => {
  quiet(g); const how = g.choose("how", ["nothing", "fails", "no disk"]), err = new Error("offline"), part = g.bool("part is there"); if (part) disk.put(AT, "{\"id\":");
  disk.fails = (op, p) => how === "no disk" && op === "write" && p === AT; let n = 0;
  const r = await g.attemptAsync(() => read(async () => { n += 1; await later(3, 0); if (how === "fails") throw err; return how === "nothing" ? null : { id: "x" }; }));
  g.ensure("the outcome is passed on", how === "nothing" ? r.ok && r.value === null : !r.ok && (how === "fails" ? r.error === err : r.error.code === "EIO"));
  g.ensure("nothing is stored", disk.text(AT) === (part ? "{\"id\":" : undefined));
  g.ensure("no lock is left", locks.taken.size === 0);
  disk.fails = () => false; const again = await read(async () => ({ id: "y" }));
  g.ensure("so it is asked for again", n === 1 && again.id === "y");
});
contract("several that want the same copy at once", { bounded: "three calls" }, async (g) => {
  quiet(g); const v = g.string("v"), first = g.choose("the first", ["works", "fails"]); let n = 0, active = 0, most = 0;
  const fetch1 = async () => { const k = n++; active += 1; most = Math.max(most, active); await later(12, 0); active -= 1; if (k === 0 && first === "fails") throw new Error("offline"); return { id: v, k }; };
  const rs = await Promise.all([0, 1, 2].map(() => g.attemptAsync(() => read(fetch1))));
  g.ensure("never two at once", most === 1);
  g.ensure("fetched once, unless that fails", n === (first === "works" ? 1 : 2));
  const good = rs.filter((r) => r.ok);
  g.ensure("all others get the same", good.length === (first === "works" ? 3 : 2) && good.every((r) => r.value.id === v && r.value.k === n - 1));
  g.ensure("no lock is left", locks.taken.size === 0);
});
contract("a lock is held by one at a time", { bounded: "three holders" }, async (g) => {
  quiet(g); const dir = g.bool("directory"); disk.put("/m/d/f", ""); let active = 0, most = 0, n = 0; const names = g.choose("names", ["same", "different"]);
  await Promise.all([0, 1, 2].map(async (i) => { const p = dir ? "/m/d" : "/m/d/file" + (names === "same" ? "" : i); const release = await (dir ? waitToAcquireLockOnDirectory(p) : waitToAcquireLockOnFile(p)); active += 1; most = Math.max(most, active); await later(15, 0); n += 1; active -= 1; await release(); }));
  g.ensure("all get it", n === 3);
  g.ensure("one after the other", (most === 1) === (dir || names === "same"));
  g.ensure("no lock is left", locks.taken.size === 0 && disk.text("/m/d/f") === "");
});
contract("a session or replay is fetched by its id and kept", { bounded: "the listed ids" }, async (g) => {
  quiet(g); const kind = g.choose("kind", ["session", "session data", "replay"]), id = g.choose("id", ["abc123", "0Aj-k_2", "x"]), other = id + "2", v = g.string("v"), urls = [], gone = g.bool("gone");
  const client: any = { get: async (url) => { urls.push(url); await later(2, 0); if (gone) throw Object.assign(new Error("404"), { isFetchError: true, response: { status: 404 } }); return { data: { url, v } }; } };
  const get = (i) => (kind === "session" ? getOrFetchRecordedSession(client, i) : kind === "session data" ? getOrFetchRecordedSessionData(client, i) : getOrFetchReplay(client, i));
  const r = await g.attemptAsync(() => get(id));
  if (gone) { g.ensure("a missing one ends the command", !r.ok && disk.text(AT) === undefined && [...disk.files.keys()].every((p) => !p.endsWith(".json"))); return; }
  const at = kind === "session" ? "sessions/" + id : kind === "session data" ? "sessions/" + id + "/data" : "replays/" + id;
  g.ensure("asked for by its id", r.ok && urls.join() === at);
  g.ensure("kept under the local data directory", r.value.fileName.startsWith("/m/")); g.eq("as it was answered", JSON.parse(disk.text(r.value.fileName)), { url: at, v });
  const is = (d, url) => d.url === url && d.v === v; g.ensure("and returned", kind === "replay" || is(r.value.data, at));
  const again = await get(id); g.ensure("asked for once", urls.length === 1 && again.fileName === r.value.fileName && (kind === "replay" || is((again as any).data, at)));
  const o = await get(other), both = await getOrFetchRecordedSessionData(client, id + "3"), one = await getOrFetchRecordedSession(client, id + "3");
  g.ensure("apart from every other", o.fileName !== r.value.fileName && urls.length === 4 && both.fileName !== one.fileName && is(both.data, "sessions/" + id + "3/data") && is(one.data, "sessions/" + id + "3"));
});
