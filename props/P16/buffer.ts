import { contract } from "vf";
import { CaptureBuffer } from "repo:backend-recorder-workerd/src/capture-buffer";
import { quiet } from "../P14/lib";

// a sidecar that records what it is posted, and may answer late, reject or fail
const sidecar = (g, hows = ["ok", "late", "500", "refused", "throws"]) => {
  const got = [], how = g.choose("sidecar", hows);
  let busy = 0, overlaps = 0;
  const answer = async (init) => {
    busy++; if (busy > 1) overlaps++;
    for (const e of JSON.parse(init.body).events) got.push(e.n);
    if (how === "late") await new Promise((r) => setTimeout(r, 50));
    busy--;
    if (how === "refused") throw new Error("refused");
    return new Response(null, { status: how === "500" ? 500 : 204 });
  };
  g.setGlobal("fetch", (url, init) => { if (how === "throws") { for (const e of JSON.parse(init.body).events) got.push(e.n); throw new Error("x"); } return answer(init); });
  return { got, overlaps: () => overlaps };
};
const event = (g, n) => {
  const big = g.choose("size" + n, [0, 1]);
  return { kind: "outbound", n, requestBody: { body: big === 1 ? "x".repeat(2097152) : "small", truncated: false } };
};
const open = (g) => { quiet(g); const waits = [], s = sidecar(g); return { s, waits, buffer: new CaptureBuffer({ kind: "url", url: "http://sidecar" }, (p) => { waits.push(p); }) }; };
const settled = async (waits) => { for (let i = 0; i < waits.length; i++) await waits[i]; };
contract("every event added before the end is posted once, in order", { bounded: "3 events" }, async (g) => {
  const { s, waits, buffer } = open(g), n = g.choose("events", [0, 1, 2, 3]);
  for (let i = 0; i < n; i++) buffer.add(event(g, i));
  const r = await g.attemptAsync(() => buffer.close());
  await settled(waits);
  g.ensure("closing never fails", r.ok);
  g.eq("posted", s.got, [0, 1, 2].slice(0, n));
  g.ensure("one post at a time", s.overlaps() === 0);
});
contract("events of work still running when the response is ready are waited for", { bounded: "2 tracked tasks" }, async (g) => {
  const { s, waits, buffer } = open(g);
  buffer.add(event(g, 0));
  const delays = [g.choose("delay1", [0, 5, 5000]), g.choose("delay2", [0, 5, 5000])], bad = g.bool("one fails");
  for (let i = 0; i < 2; i++) buffer.track(async () => { if (delays[i] > 0) await new Promise((r) => setTimeout(r, delays[i])); if (bad && i === 0) throw new Error("capture"); buffer.add({ kind: "outbound", n: i + 1 }); }, "k", "m");
  const r = await g.attemptAsync(() => buffer.close());
  await settled(waits);
  const order = bad ? [2] : delays[0] <= delays[1] ? [1, 2] : [2, 1];
  g.ensure("closing never fails", r.ok);
  g.eq("posted once each", s.got, [0, ...order]);
});
contract("work started by tracked work is waited for too", { bounded: "3 rounds" }, async (g) => {
  const { s, waits, buffer } = open(g), depth = g.choose("depth", [1, 2, 3]);
  const spawn = (d) => buffer.track(async () => { await new Promise((r) => setTimeout(r, 10)); buffer.add({ kind: "outbound", n: d }); if (d < depth) spawn(d + 1); }, "k", "m");
  spawn(1);
  await buffer.close();
  await settled(waits);
  g.eq("posted", s.got, [1, 2, 3].slice(0, depth));
});
contract("an event after the end is posted on its own and kept alive", {}, async (g) => {
  const { s, waits, buffer } = open(g);
  await buffer.close();
  buffer.add({ kind: "outbound", n: 1 });
  buffer.track(async () => { buffer.add({ kind: "outbound", n: 2 }); }, "k", "m");
  g.ensure("handed to waitUntil", waits.length >= 2);
  await settled(waits);
  g.eq("posted", s.got, [1, 2]);
});
contract("an event added while the last batch is being posted is posted too", {}, async (g) => {
  quiet(g);
  const got = [], waits = [], when = g.choose("when", ["at the post", "while it waits", "after it"]);
  let first = true;
  g.setGlobal("fetch", async (url, init) => {
    for (const e of JSON.parse(init.body).events) got.push(e.n);
    if (!first) return new Response(null, { status: 204 });
    first = false;
    if (when === "at the post") buffer.add({ kind: "outbound", n: 2 });
    await new Promise((r) => setTimeout(r, 10));
    if (when === "while it waits") buffer.add({ kind: "outbound", n: 2 });
    return new Response(null, { status: g.bool("accepted") ? 204 : g.int("answer", 400, 599) });
  });
  const buffer = new CaptureBuffer({ kind: "url", url: "http://sidecar" }, (p) => { waits.push(p); });
  buffer.add({ kind: "outbound", n: 1 });
  await buffer.close();
  if (when === "after it") buffer.add({ kind: "outbound", n: 2 });
  await settled(waits);
  g.eq("posted once each", got, [1, 2]);
});
// the induction step for any history: whatever is buffered stays buffered in order or is posted in order
const bodies = (g) => { const posts = []; g.setGlobal("fetch", (url, init) => { posts.push(JSON.parse(init.body).events); return Promise.resolve(new Response(null, { status: 204 })); }); return posts; };
const anyBuffer = (g, waits) => {
  const b = new CaptureBuffer({ kind: "url", url: "http://sidecar" }, (p) => { waits.push(p); });
  if (!Array.isArray(b["events"]) || typeof b["bufferedChars"] !== "number") return { b: undefined, events: [] }; // another representation: the histories above decide
  const events = g.array("buffered", (e) => ({ kind: e.string("kind"), n: e.int("n") }));
  b["events"] = [...events]; b["bufferedChars"] = g.int("chars", 0);
  return { b, events };
};
contract("adding keeps everything buffered so far, in order", {}, async (g) => {
  quiet(g);
  const waits = [], posts = bodies(g), { b, events } = anyBuffer(g, waits), e = { kind: g.string("kind"), n: g.int("n") };
  if (b === undefined) return;
  b.add(e);
  await settled(waits);
  const all = [...events, e];
  if (posts.length === 0) g.eq("still buffered", b["events"], all);
  else { g.ensure("one post", posts.length === 1); g.eq("posted", posts[0], all); g.ensure("nothing left", b["events"].length === 0 && b["bufferedChars"] === 0); }
});
contract("closing posts everything still buffered", {}, async (g) => {
  quiet(g);
  const waits = [], posts = bodies(g), { b, events } = anyBuffer(g, waits);
  if (b === undefined) return;
  await b.close();
  if (events.length === 0) g.ensure("nothing to post", posts.length === 0);
  else { g.ensure("one post", posts.length === 1); g.eq("posted", posts[0], events); }
  g.ensure("nothing left", b["events"].length === 0);
});
