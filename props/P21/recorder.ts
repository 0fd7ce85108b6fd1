import { contract } from "vf";
import { MeticulousRecorderSession, S3StorageBackend } from "repo:backend-recorder-sidecar-worker/src/index";
import { splitToFitValueLimit } from "repo:backend-recorder-sidecar-worker/src/recorder-session-object";
import { quiet } from "../P14/lib";

// durable storage that is gone from operation number `crashAt` on: nothing after it has an effect
// (and, with `broken`, the one operation of that name fails)
const durable = (g, init, crashAt, broken = "") => {
  const map = new Map(init), log = []; let ops = 0, alarm = null;
  const op = (name) => { ops++; if (ops > crashAt) throw new Error("crash"); if (name === broken) throw new Error("broken"); log.push(name); };
  return {
    map, log, alarmAt: () => alarm, setAlarmTo: (v) => { alarm = v; }, crashed: () => ops > crashAt, op,
    get: async (k) => { op("get"); return map.get(k); },
    put: async (k, v) => { op("put"); if (typeof k === "string") map.set(k, v); else for (const n of Object.keys(k)) map.set(n, k[n]); },
    delete: async (ks) => { op("delete"); for (const k of typeof ks === "string" ? [ks] : ks) map.delete(k); return true; },
    list: async (o) => { op("list"); const out = new Map(); for (const k of [...map.keys()].sort()) if (k.startsWith(o.prefix) && (o.limit === undefined || out.size < o.limit)) out.set(k, map.get(k)); return out; },
    getAlarm: async () => { op("getAlarm"); return alarm; },
    setAlarm: async (t) => { op("setAlarm"); alarm = t; },
  };
};
const event = (n) => ({ kind: "kv", requestId: "r", traceId: "t", serverSpanId: "s", bindingName: "KV", operation: "get", key: n, startTimeMs: 1, endTimeMs: 2 });
const ENV = { METICULOUS_RECORDING_TOKEN: "token" };
const uploads = (how, st) => { const got = []; let n = 0; S3StorageBackend.prototype.write = async (key, data) => { st.op("upload"); n++; if (how === "fails") throw new Error("S3"); if (Array.isArray(data.spans)) for (const s of data.spans) got.push(s.attributes["meticulous.workerd.kv.key"]); }; return { got, count: () => n }; };
const post = (events) => new Request("https://session.invalid/events", { method: "POST", body: JSON.stringify(events) });
const held = (st) => [...st.map.keys()].filter((k) => k.startsWith("batch:")).sort().flatMap((k) => st.map.get(k).map((e) => e.key));
const RUN = { sessionId: "BE_x", startTime: "2026-01-01T00:00:00.000Z", startedAtMs: 0, chunkIndex: 3, metadataUploaded: true, consecutiveFailures: 0, abandoned: false };
const pad = (n) => "batch:" + String(n).padStart(12, "0");

contract("an accepted report is durable, after the earlier ones, with an alarm set", {}, async (g) => {
  quiet(g);
  const seq = g.choose("seq", [undefined, 0, 9, 99]), armed = g.bool("armed"), crashAt = g.choose("crash", [0, 1, 2, 3, 4, 99]), before = seq === undefined || seq === 0 ? [] : [[pad(seq - 1), [event("earlier")]]];
  const st = durable(g, [...(seq === undefined ? [] : [["seq", seq]]), ...before], crashAt); if (armed) st.setAlarmTo(5);
  const o = new MeticulousRecorderSession({ storage: st }, ENV), old = before.length > 0 ? ["earlier"] : [];
  const r = await o.fetch(post([event("k1"), event("k2")]));
  g.ensure("204 or 500", r.status === 204 || r.status === 500);
  if (r.status === 204) g.eq("durable, after the earlier ones", held(st), [...old, "k1", "k2"]);
  else g.eq("nothing is stored", held(st), old);
  g.ensure("never stored without an alarm", held(st).length === old.length || st.alarmAt() !== null);
  g.ensure("an earlier alarm is kept", !armed || st.alarmAt() === 5);
  g.ensure("a crash is reported", !st.crashed() || r.status === 500);
});
contract("a report is not accepted when one operation fails", {}, async (g) => {
  quiet(g); g.setGlobal("Date", class extends Date { static now() { return 1000; } });
  const broken = g.choose("broken", ["", "get", "put", "getAlarm", "setAlarm"]), st = durable(g, [], 99, broken), o = new MeticulousRecorderSession({ storage: st }, ENV);
  const r = await o.fetch(post([event("k1")])), s = await o.fetch(post([event("k2")]));
  g.ensure("500 exactly then", (r.status === 500) === (broken !== "") && (r.status === 500 || r.status === 204) && s.status === r.status);
  g.eq("stored in the order of the reports, or not at all", held(st), broken === "" ? ["k1", "k2"] : []);
  g.ensure("with an alarm, due within a minute", broken !== "" || (st.alarmAt() >= 0 && st.alarmAt() <= 61000));
});
contract("a report takes the next keys", {}, async (g) => {
  quiet(g);
  const seq = g.int("seq", 0, 999999999990), puts = [], o = new MeticulousRecorderSession({ storage: { get: async () => seq, getAlarm: async () => 1, setAlarm: async () => {}, put: async (e, v) => { puts.push(typeof e === "string" ? { [e]: v } : e); } } }, ENV);
  const r = await o.fetch(post([event("a"), event("b")]));
  g.ensure("stored in one step", r.status === 204 && puts.length === 1);
  const keys = Object.keys(puts[0]);
  g.ensure("two keys", keys.length === 2 && puts[0]["seq"] === seq + 1);
  g.ensure("the next key", keys.includes(pad(seq)) && puts[0][pad(seq)].length === 2);
});
contract("what is no list of events stores nothing", {}, async (g) => {
  quiet(g);
  const st = durable(g, [], 99), o = new MeticulousRecorderSession({ storage: st }, ENV);
  const body = g.choose("body", [null, true, 1, "text", {}, [], { length: 1 }]);
  const r = await o.fetch(post(body));
  g.ensure("204", r.status === 204);
  g.ensure("nothing", st.map.size === 0 && st.alarmAt() === null);
});
contract("a flush uploads every pending event, in order, before it drops it", { bounded: "3 batches of 2 events" }, async (g) => {
  quiet(g);
  const n = g.choose("batches", [0, 1, 2, 3]), how = g.choose("storage", ["works", "fails"]), crashAt = g.choose("crash", [0, 1, 2, 3, 4, 5, 6, 7, 99]);
  const init = [["session", { ...RUN, metadataUploaded: g.bool("metadata") }]], all = [];
  for (let i = 0; i < n; i++) { init.push([pad(i + 7), [event("a" + i), event("b" + i)]]); all.push("a" + i, "b" + i); }
  const st = durable(g, init, crashAt), up = uploads(how, st), o = new MeticulousRecorderSession({ storage: st }, ENV);
  g.setGlobal("Date", class extends Date { static now() { return 1000; } });
  const byAlarm = g.bool("by alarm"), r: any = await g.attemptAsync(() => (byAlarm ? o.alarm() : o.fetch(new Request("https://session.invalid/flush", { method: "POST" }))));
  const done = up.got.length > 0;
  g.ensure("uploaded in order, once", !done || up.got.join() === all.join());
  const lost = all.filter((k) => !up.got.includes(k) && !held(st).includes(k));
  g.ensure("none is dropped before it was uploaded or its upload failed", lost.length === 0 || how === "fails");
  g.ensure("a crash is not a success", r.ok === !st.crashed());
  if (r.ok) { g.ensure("a flush is answered 204", byAlarm || r.value.status === 204); g.ensure("nothing is left", held(st).length === 0); g.ensure("all uploaded", how === "fails" || up.got.length === all.length); g.ensure("nothing is uploaded for nothing", n > 0 || up.count() === 0); }
  if (held(st).length < all.length && how === "works") g.ensure("its place is kept first", st.map.get("session").chunkIndex === 4);
});
contract("a flush whose state cannot be stored drops nothing", {}, async (g) => {
  quiet(g);
  const broken = g.choose("broken", ["", "list", "get", "put", "delete"]), st = durable(g, [["session", RUN], [pad(1), [event("a")]]], 999, broken), up = uploads("works", st), o = new MeticulousRecorderSession({ storage: st }, ENV);
  g.setGlobal("Date", class extends Date { static now() { return 1000; } });
  const r = await g.attemptAsync(() => o.alarm());
  g.ensure("fails exactly then", r.ok === (broken === ""));
  g.eq("kept unless all went well", held(st), broken === "" ? [] : ["a"]);
});
contract("the first flush starts a session of its own", {}, async (g) => {
  quiet(g);
  const st = durable(g, [[pad(1), [event("a")]]], 999), up = uploads("works", st), o = new MeticulousRecorderSession({ storage: st }, ENV), now = g.int("now", 1000, 4000000000000);
  g.setGlobal("Date", class extends Date { static now() { return now; } });
  await o.alarm();
  const s = st.map.get("session");
  g.eq("uploaded", up.got, ["a"]);
  g.ensure("its state is kept", s.chunkIndex === 1 && s.metadataUploaded === true && s.startedAtMs === now && s.abandoned === false);
  g.ensure("its name is its own", /[0-9a-f]{16}$/.test(s.sessionId));
});
contract("an abandoned session holds no events for ever", { bounded: "66 batches", unroll: 100 }, async (g) => {
  quiet(g);
  const init = [["session", { ...RUN, consecutiveFailures: g.choose("failures", [0, 1, 2]) }]]; for (let i = 0; i < 66; i++) init.push([pad(i), i === 0 || i >= 64 ? [event("e" + i)] : []]);
  const st = durable(g, init, 999), up = uploads("fails", st), o = new MeticulousRecorderSession({ storage: st }, ENV);
  g.setGlobal("Date", class extends Date { static now() { return 1000; } });
  await g.attemptAsync(() => o.alarm());
  const failures = init[0][1].consecutiveFailures;
  g.ensure("dropped once abandoned, the rest kept before", held(st).length === (failures === 2 ? 0 : 2));
  g.ensure("marked", st.map.get("session").abandoned === (failures === 2));
});
contract("events that arrive during an upload are kept and flushed later", { bounded: "1 batch" }, async (g) => {
  quiet(g);
  const st = durable(g, [["session", RUN], [pad(1), [event("a")]]], 999), o = new MeticulousRecorderSession({ storage: st }, ENV), got = []; let late = null;
  g.setGlobal("Date", class extends Date { static now() { return 1000; } });
  st.map.set("seq", 2);
  S3StorageBackend.prototype.write = async (key, data) => { if (late === null) late = o.fetch(post([event("late")])); await late; if (Array.isArray(data.spans)) for (const s of data.spans) got.push(s.attributes["meticulous.workerd.kv.key"]); };
  await o.alarm();
  g.eq("kept", held(st), ["late"]);
  g.ensure("an alarm is set", st.alarmAt() !== null);
  await o.alarm();
  g.eq("each uploaded once", got, ["a", "late"]);
});
contract("a capped flush takes the oldest and goes on at once", { bounded: "65 batches", unroll: 100 }, async (g) => {
  quiet(g);
  const init = [["session", RUN]]; for (let i = 0; i < 65; i++) init.push([pad(i), i === 0 || i >= 63 ? [event("e" + i)] : []]);
  const st = durable(g, init, 999), up = uploads("works", st), o = new MeticulousRecorderSession({ storage: st }, ENV);
  g.setGlobal("Date", class extends Date { static now() { return 1000; } });
  await o.alarm();
  g.ensure("64 uploaded", up.got.join() === "e0,e63");
  g.eq("the rest is kept", held(st), ["e64"]);
  g.ensure("at once", st.alarmAt() === 1000);
});
contract("splitting a report keeps every event and its order", { bounded: "3 events" }, (g) => {
  const n = g.choose("n", [0, 1, 2, 3]), events = [];
  for (let i = 0; i < n; i++) events.push({ b: "x".repeat(g.choose("size" + i, [0, 500000, 524276, 524278, 2000000])), i });
  const groups = splitToFitValueLimit(events);
  g.eq("every event, in order", groups.flat().map((e) => e.i), events.map((e) => e.i));
  g.ensure("no empty group", groups.every((x) => x.length > 0));
  g.ensure("each fits, or holds one event", groups.every((x) => x.length === 1 || x.map((e) => JSON.stringify(e).length).reduce((a, b) => a + b, 0) <= 1048576));
});
