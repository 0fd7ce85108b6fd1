import { contract } from "vf";
import { createReplayTaggedConsoleMethod, installReplayLogTagging } from "repo:backend-recorder-workerd/src/replay-log-tagging";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";

const tag = (id) => "[meticulous-replay-id:" + id + "] ", ctx = (mode, replayId) => ({ mode, replayId, requestId: "q", frontendSessionId: "s", sidecarUrl: "http://localhost:9", clockAnchorMs: undefined, waitUntil: () => undefined });
const error = (stack) => { const e = new Error("m"); e.stack = stack; return e; };
const OBJECT = { a: "x\ny" }, TEXTS = ["", "a", "user=%s", "a\nb", "a\n\nb", "\na", "a\n"], VALUES = [...TEXTS, OBJECT, 5, undefined, null, "error", "no stack"];
const args = (g) => { const n = g.choose("arguments", [0, 1, 2]); return [0, 1].slice(0, n).map((i) => g.choose("argument " + String(i), VALUES)).map((v) => (v === "error" ? error("Error: m\n    at f\n    at g") : v === "no stack" ? error(undefined) : v)); };
const textOf = (v) => (typeof v === "string" ? v : v instanceof Error ? v.stack ?? v.message : undefined);
contract("every line of a replay's log is told from those of others, and nothing of it is lost", { bounded: "up to two arguments" }, (g) => {
  const id = g.choose("replay", ["r1", "a-b"]), given = args(g), got = []; const log = createReplayTaggedConsoleMethod((...a) => { got.push(a); }), r = g.attempt(() => requestCaptureContext.run(ctx("replay", id), () => log(...given)));
  g.ensure("once", r.ok && got.length === 1); const text = given.length > 0 && textOf(given[0]) !== undefined, out = got[0], rest = text ? out : out.slice(1);
  g.ensure("the first line", typeof out[0] === "string" && out[0].startsWith(tag(id)) && (text || out[0] === tag(id))); g.ensure("all there was", rest.length === given.length);
  given.forEach((v, i) => { const t = textOf(v), o = rest[i]; if (t === undefined) { g.ensure("as it was", o === v); return; } const bare = i === 0 && o.startsWith(tag(id)) ? o.slice(tag(id).length) : o; g.ensure("each line after", bare.split("\n").every((l, k) => k === 0 || l === "" || l.startsWith(tag(id)))); g.ensure("and nothing else", bare.split("\n").map((l, k) => (k > 0 && l.startsWith(tag(id)) ? l.slice(tag(id).length) : l)).join("\n") === t); });
});
contract("what is not of a replay is logged as it is", { bounded: "up to two arguments" }, (g) => {
  const given = args(g), got = [], log = createReplayTaggedConsoleMethod((...a) => { got.push(a); }), recording = g.bool("recording"); const r = g.attempt(() => (recording ? requestCaptureContext.run(ctx("record", "r1"), () => log(...given)) : log(...given))); g.ensure("as it was", r.ok && got.length === 1 && got[0].length === given.length && given.every((v, i) => got[0][i] === v));
});
contract("any text is kept", {}, (g) => {
  const id = g.string("replay", ["r1"]), t = g.string("text", ["hello", ""]), got = []; g.assume(!t.includes("\n")); const log = createReplayTaggedConsoleMethod((...a) => { got.push(a); }); requestCaptureContext.run(ctx("replay", id), () => log(t, OBJECT)); g.ensure("behind the mark", got.length === 1 && got[0].length === 2 && got[0][0] === tag(id) + t && got[0][1] === OBJECT);
});
contract("a value that cannot be read is still logged", {}, (g) => {
  const bad = new Error("m"); Object.defineProperty(bad, "stack", { get() { throw new Error("no"); } }); const got = [], log = createReplayTaggedConsoleMethod((...a) => { got.push(a); }), r = g.attempt(() => requestCaptureContext.run(ctx("replay", "r1"), () => log("x", bad))); g.ensure("as it was", r.ok && got.length === 1 && got[0].length === 2 && got[0][0] === "x" && got[0][1] === bad);
});
contract("replays at the same time keep their own", {}, async (g) => {
  const got = [], log = createReplayTaggedConsoleMethod((t) => { got.push(t); }), steps = [g.bool("first waits"), g.bool("second waits")]; const one = (id, waits) => requestCaptureContext.run(ctx("replay", id), async () => { log(id + " a"); if (waits) await undefined; await undefined; log(id + " b"); });
  await Promise.all([one("r1", steps[0]), one("r2", steps[1])]); log("none"); g.ensure("each", got.length === 5 && got.every((t) => t === "none" || ["r1", "r2"].some((id) => t === tag(id) + id + " a" || t === tag(id) + id + " b")) && got[4] === "none");
});
contract("every way to log is marked, once", {}, (g) => {
  const NAMES = ["debug", "error", "info", "log", "trace", "warn"], got = [], c = {}, times = g.choose("times", [1, 2]), fixed = g.choose("not writable", [undefined, ...NAMES]), holder = {}; for (const n of NAMES) { const f = (...a) => { got.push([n, a]); }; if (n === fixed) Object.defineProperty(c, n, { get: () => f, set() { throw new TypeError("fixed"); } }); else c[n] = f; }
  const r = g.attempt(() => { for (let i = 0; i < times; i++) installReplayLogTagging(c, holder); }); g.ensure("never an error", r.ok); requestCaptureContext.run(ctx("replay", "r1"), () => { for (const n of NAMES) c[n]("x"); });
  g.ensure("each by its own", got.length === 6 && NAMES.every((n, i) => got[i][0] === n && got[i][1].length === 1 && got[i][1][0] === (n === fixed ? "x" : tag("r1") + "x")));
});
