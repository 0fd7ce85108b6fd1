import { contract } from "vf";
import { flushChunk, newSessionState } from "repo:backend-recorder-sidecar-worker/src/session-store";
import { quiet } from "../P14/lib";

const DAY = 86400000;
const event = (n) => ({ kind: "kv", requestId: "r" + n, traceId: "t", serverSpanId: "s", bindingName: "KV", operation: "get", key: "k" + n, startTimeMs: 1, endTimeMs: 2 });
const LATER = { kind: "from a newer shim", requestId: "r" };
// a storage that records what is written; each write succeeds or fails
const storage = (g, outcomes) => { const writes = []; let n = 0; return { writes, write: async (key, body) => { const ok = outcomes === undefined ? true : outcomes[n]; n++; writes.push({ key, body, ok }); await Promise.resolve(); await Promise.resolve(); writes[writes.length - 1].done = true; if (!ok) throw new Error("storage"); } }; };
const config = (g) => { const token = g.string("token", ["", "abc", "0123456789abcdef"]); return { recordingToken: token, meticulousProjectName: g.string("project", ["p"]), recorderVersion: "v", prefix: (id) => (token === "" ? id : token.slice(0, 12) + "/" + id) }; };
const state = (g, over = {}) => ({ sessionId: g.string("sessionId", ["BE_2026-01-01T00:00:00.000Z_ab"]), startTime: "2026-01-01T00:00:00.000Z", startedAtMs: g.int("startedAt", 0, DAY), chunkIndex: g.int("chunkIndex", 0, 40), metadataUploaded: g.bool("metadata"), consecutiveFailures: g.int("failures", 0, 2), abandoned: false, ...over });
const now = (g) => g.int("now", 0, 2 * DAY);
const FULL = (s, t) => s.chunkIndex >= 30 || t - s.startedAtMs >= 600000;

contract("nothing to record writes nothing", {}, async (g) => {
  quiet(g);
  const s = state(g, { abandoned: g.bool("abandoned") }), st = storage(g);
  const r = await flushChunk([], s, st, config(g), now(g), "rnd");
  g.ensure("no write", st.writes.length === 0);
  g.ensure("the same state", r.state === s && r.rolledOver === false);
});
contract("an abandoned session is left alone for five minutes", {}, async (g) => {
  quiet(g);
  const at = g.opt("abandonedAt", () => g.int("at", 0, DAY)), t = now(g), s = state(g, { abandoned: true, ...(at === undefined ? {} : { abandonedAtMs: at }) }), st = storage(g), c = config(g);
  const r = await flushChunk([event(1)], s, st, c, t, "rnd");
  if (at !== undefined && t - at < 300000) { g.ensure("no write", st.writes.length === 0); g.ensure("the same state", r.state === s && r.rolledOver === false); }
  else { g.ensure("a new session", r.rolledOver === true && r.state.sessionId === newSessionState(t, "rnd").sessionId && r.state.abandoned === false); g.ensure("two writes", st.writes.length === 2); }
});
contract("a new session starts at zero", {}, (g) => {
  const t = now(g), rnd = g.string("rnd", ["0a"]), s = newSessionState(t, rnd);
  g.ensure("its id", s.sessionId === "BE_" + new Date(t).toISOString() + "_" + rnd && s.startTime === new Date(t).toISOString() && s.startedAtMs === t);
  g.ensure("counters", s.chunkIndex === 0 && s.metadataUploaded === false && s.consecutiveFailures === 0 && s.abandoned === false);
});
contract("a chunk is written under the next number of a session that is not full", {}, async (g) => {
  quiet(g);
  const s = state(g), t = now(g), st = storage(g), c = config(g);
  const r = await flushChunk([event(1), event(2)], s, st, c, t, "rnd"), rolled = FULL(s, t), cur = rolled ? newSessionState(t, "rnd") : s;
  g.ensure("a full session is left", r.rolledOver === rolled && r.state.sessionId === cur.sessionId && r.state.startedAtMs === cur.startedAtMs);
  g.ensure("the chunk number", r.state.chunkIndex === cur.chunkIndex + 1 && r.state.chunkIndex <= 30);
  const last = st.writes[st.writes.length - 1];
  g.ensure("the chunk", last.key === c.prefix(cur.sessionId) + "/" + String(cur.chunkIndex + 1) && last.body.backendRecorderToken === c.recordingToken);
  g.ensure("every event, in order", last.body.spans.length === 2 && last.body.spans[0].attributes["meticulous.workerd.kv.key"] === "k1" && last.body.spans[1].attributes["meticulous.workerd.kv.key"] === "k2");
  g.ensure("metadata once and first", st.writes.length === (cur.metadataUploaded ? 1 : 2) && r.state.metadataUploaded === true && (cur.metadataUploaded || st.writes[0].key === c.prefix(cur.sessionId) + "/metadata.json"));
  if (!cur.metadataUploaded) { const m = st.writes[0].body; g.ensure("the metadata says whose session it is", m.projectID === c.recordingToken && m.source === "backend-recorder" && m.meticulousProjectName === c.meticulousProjectName && m.recorderVersion === "v" && m.config.sessionId === cur.sessionId && m.config.startTime === cur.startTime && m.config.maxChunks === 30 && m.config.maxSessionTimeMs === 600000 && m.runtime.platform === "workerd"); }
  g.ensure("no failures left", r.state.consecutiveFailures === 0 && r.state.abandoned === false);
});
contract("without its metadata no chunk is written", {}, async (g) => {
  quiet(g);
  const marker = g.bool("marker ok"), s = state(g, { metadataUploaded: false }), t = now(g), st = storage(g, [false, marker]), c = config(g);
  const r = await flushChunk([event(1)], s, st, c, t, "rnd"), cur = FULL(s, t) ? newSessionState(t, "rnd") : s;
  g.ensure("only the metadata and the marker", st.writes.length === 2 && st.writes[0].key === c.prefix(cur.sessionId) + "/metadata.json" && st.writes[1].key === c.prefix(cur.sessionId) + "/abandoned.json");
  g.ensure("the marker says why", st.writes[1].body.abandoned === true && typeof st.writes[1].body.reason === "string" && st.writes[1].body.reason.length > 0 && st.writes[1].done === true && r.rolledOver === (cur !== s));
  g.ensure("abandoned", r.state.abandoned === true && r.state.abandonedAtMs === t && r.state.chunkIndex === cur.chunkIndex && r.state.sessionId === cur.sessionId);
});
contract("a failed chunk keeps its number, the third in a row abandons the session", {}, async (g) => {
  quiet(g);
  const marker = g.bool("marker ok"), s = state(g, { metadataUploaded: true }), t = now(g), c = config(g);
  g.assume(!FULL(s, t));
  const st = storage(g, [false, marker]), r = await flushChunk([event(1)], s, st, c, t, "rnd");
  g.ensure("the same number next time", r.state.chunkIndex === s.chunkIndex && r.state.sessionId === s.sessionId);
  g.ensure("not another session, and the marker is complete", r.rolledOver === false && st.writes.every((w) => w.done));
  g.ensure("counted", r.state.consecutiveFailures === s.consecutiveFailures + 1);
  g.ensure("abandoned at the third", r.state.abandoned === (s.consecutiveFailures === 2) && st.writes.length === (s.consecutiveFailures === 2 ? 2 : 1));
  if (s.consecutiveFailures === 2) g.ensure("marked", st.writes[1].key === c.prefix(s.sessionId) + "/abandoned.json" && st.writes[1].body.abandoned === true && r.state.abandonedAtMs === t);
});
contract("a new session whose first chunk fails is kept, with its metadata", {}, async (g) => {
  quiet(g);
  const s = state(g), t = now(g), c = config(g), abandonedBefore = g.bool("was abandoned");
  g.assume(abandonedBefore || FULL(s, t));
  const st = storage(g, [true, false]), r = await flushChunk([event(1)], abandonedBefore ? { ...s, abandoned: true } : s, st, c, t, "rnd"), fresh = newSessionState(t, "rnd");
  g.ensure("the new session", r.rolledOver === true && r.state.sessionId === fresh.sessionId && r.state.startedAtMs === t && r.state.startTime === fresh.startTime);
  g.ensure("no chunk yet, one failure, its metadata is there", r.state.chunkIndex === 0 && r.state.consecutiveFailures === 1 && r.state.metadataUploaded === true && r.state.abandoned === false);
  g.ensure("the two writes", st.writes.length === 2 && st.writes[0].key === c.prefix(fresh.sessionId) + "/metadata.json" && st.writes[1].key === c.prefix(fresh.sessionId) + "/1");
});
contract("events that become no span are skipped", {}, async (g) => {
  quiet(g);
  const s = state(g), t = now(g), st = storage(g), c = config(g), first = g.bool("a known event too");
  g.assume(!FULL(s, t));
  const r = await flushChunk(first ? [LATER, event(1)] : [LATER], s, st, c, t, "rnd");
  if (first) g.ensure("only the known event", st.writes[st.writes.length - 1].body.spans.length === 1);
  else g.ensure("nothing is written", st.writes.length === 0 && r.state.chunkIndex === s.chunkIndex);
});
contract("the state that was passed in is not changed", {}, async (g) => {
  quiet(g);
  const s = state(g), copy = { ...s }, t = now(g);
  await flushChunk([event(1)], s, storage(g, [g.bool("ok1"), g.bool("ok2"), true]), config(g), t, "rnd");
  g.eq("the state", s, copy);
});
contract("a chunk holds every event, in order", {}, async (g) => {
  quiet(g);
  const events = g.array("events", (e) => ({ ...event(1), key: e.string("key") })), st = storage(g), c = config(g), s = state(g, { metadataUploaded: true });
  g.assume(events.length > 0);
  await flushChunk(events, s, st, c, s.startedAtMs, "rnd");
  const last = st.writes[st.writes.length - 1];
  g.eq("every event, in order", last.body.spans.map((x) => x.attributes["meticulous.workerd.kv.key"]), events.map((e) => e.key));
});
