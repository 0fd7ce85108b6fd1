import { contract } from "vf";
import { runWithMeticulous } from "repo:backend-recorder-workerd/src/with-meticulous";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";

const AT = "http://localhost:9", HEADERS = (s) => ({ "x-meticulous-backend-replay-sidecar-url": AT, "x-meticulous-session-id": s, "x-meticulous-replay-id": "p1" });
const FIRST = ["found", "not found", "404", "500", "refused", "throws", "not json"], SETTLED = ["found", "not found", "404"];
const world = (g, says) => {
  g.setGlobal("console", { warn() {}, log() {}, info() {}, error() {}, debug() {}, trace() {} }); const asked = [];
  g.setGlobal("fetch", (...a) => { const url = String(a[0]); if (!url.startsWith(AT + "/v1/replay/session?")) return Promise.resolve(new Response("x")); asked.push(url.slice(url.indexOf("=") + 1)); const how = says[Math.min(asked.length, says.length) - 1]; if (how === "throws") throw new Error("no"); if (how === "refused") return Promise.reject(new Error("refused")); return Promise.resolve(how === "404" || how === "500" ? new Response("no", { status: Number(how) }) : new Response(how === "not json" ? "<" : how === "found" ? '{"found":true,"clockAnchorMs":5}' : '{"found":false}')); });
  const ask = async (s) => { let seen, runs = 0; const r = await g.attemptAsync(() => runWithMeticulous({ request: new Request("https://app/x", { headers: HEADERS(s) }), env: {}, ctx: { waitUntil: () => undefined }, invokeHandler: async () => { runs++; seen = requestCaptureContext.getStore(); return new Response("page"); } }, undefined)); g.ensure("the page is served", r.ok && runs === 1); return seen !== undefined && seen.mode === "replay" && seen.frontendSessionId === s && seen.clockAnchorMs === 5; };
  return { asked, ask };
};
contract("an answer that did not come is asked for again, one that did is not", {}, async (g) => {
  const how = g.choose("first", FIRST), w = world(g, [how, "found"]), s = g.string("session", ["s1"]); g.assume(s !== "" && /^[a-z0-9]*$/.test(s)); const one = await w.ask(s), two = await w.ask(s);
  g.ensure("replayed if the sidecar had it", one === (how === "found")); g.ensure("and from when it did", two === (how === "found" || !SETTLED.includes(how))); g.ensure("not asked again once settled", w.asked.length === (SETTLED.includes(how) ? 1 : 2));
});
contract("each session is asked for itself, and once by requests at the same time", {}, async (g) => {
  const w = world(g, ["found"]), other = g.bool("another session"), all = await Promise.all([w.ask("s1"), w.ask(other ? "s2" : "s1"), w.ask("s1")]); g.ensure("all are replayed", all.every((x) => x)); g.ensure("asked of each", w.asked.length === (other ? 2 : 1) && w.asked.includes("s1") && w.asked.includes("s2") === other);
});
