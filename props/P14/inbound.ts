import { contract } from "vf";
import { runWithMeticulous } from "repo:backend-recorder-workerd/src/with-meticulous";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";
import { decoder, quiet } from "./lib";

// the platform fetch, seen only by the shim
const sidecar = (g) => {
  const posts = [], how = g.choose("sidecar", ["accepts", "rejects", "unreachable", "throws"]);
  g.setGlobal("fetch", (url, init) => { if (how === "throws") throw new Error("no fetch"); posts.push({ url, body: JSON.parse(init.body) }); return how === "unreachable" ? Promise.reject(new Error("refused")) : Promise.resolve(new Response(null, { status: how === "accepts" ? 204 : 500 })); });
  return posts;
};
const executionContext = (g) => { const waits = [], bad = g.bool("waitUntil fails"); return { waits, bad, waitUntil: (p) => { if (bad) throw new Error("waitUntil"); waits.push(p); } }; };
const setup = (g) => { quiet(g); if (g.isSymbolic()) decoder(g); };

contract("without a sidecar the handler runs once, untouched", {}, async (g) => {
  setup(g);
  const fetchBefore = () => Promise.reject(new Error("no")); g.setGlobal("fetch", fetchBefore);
  const ctx = executionContext(g), res = { status: 200 }, failure = Object.create(null), thrown = g.choose("how", ["", "throws", "rejects"]);
  const env = g.choose("env", [undefined, null, {}, { METICULOUS_SIDECAR_URL: "" }, { METICULOUS_SIDECAR: 1 }]), req = new Request("https://app/x");
  let calls = 0, store = "unset";
  const out = await g.attemptAsync(() => runWithMeticulous({ request: req, env, ctx, invokeHandler: () => { calls++; store = requestCaptureContext.getStore(); if (thrown === "throws") throw failure; return thrown === "rejects" ? Promise.reject(failure) : res; } }, undefined));
  g.ensure("once", calls === 1 && store === undefined);
  if (thrown === "") g.ensure("same response", out.ok && out.value === res); else g.ensure("same error", !out.ok && out.error === failure);
  g.ensure("nothing else", ctx.waits.length === 0 && fetch === fetchBefore);
});
const rule = async (g, hows, failures, dests, sids, mints, statuses) => {
  setup(g);
  const posts = sidecar(g), ctx = executionContext(g), how = g.choose("how", hows), failure = g.choose("failure", failures);
  const dest = dests === "any" ? g.string("dest", ["document", "empty", "iframe"]) : g.choose("dest", dests), sid = g.choose("session", sids), mint = g.choose("mint", mints);
  g.assume(/^[a-z-]+$/.test(dest));
  const req = new Request("https://app/x", { headers: { "sec-fetch-dest": dest, ...(sid !== "" ? { "x-meticulous-session-id": sid } : {}) } });
  const status = statuses === "any" ? g.int("status", 200, 599) : g.choose("status", statuses); g.assume(status !== 204 && status !== 205 && status !== 304);
  const res = new Response("hello", { status, headers: { "content-type": "text/html", "set-cookie": "a=b" } });
  let calls = 0, seen;
  const out = await g.attemptAsync(() => runWithMeticulous({ request: req, env: { METICULOUS_SIDECAR_URL: "http://sidecar/" }, ctx, invokeHandler: () => { calls++; seen = requestCaptureContext.getStore(); if (how === "throws") throw failure; return how === "rejects" ? Promise.reject(failure) : how === "returns" ? res : Promise.resolve(res); } }, { mintProvisionalSessionIds: mint }));
  g.ensure("once", calls === 1);
  const bad = how === "throws" || how === "rejects";
  if (bad) g.ensure("same error", !out.ok && out.error === failure);
  else {
    g.ensure("same response", out.ok && out.value === res && res.status === status && res.bodyUsed === false);
    g.ensure("its headers are kept", res.headers.get("content-type") === "text/html" && res.headers.get("set-cookie") === "a=b");
    const minted = sid === "" && dest === "document" && mint;
    g.ensure("a session id is published only when minted", (res.headers.get("server-timing") !== null) === minted);
  }
  await Promise.all(ctx.waits);
  const reachable = posts.length > 0;
  if (reachable) {
    g.ensure("one post with one inbound event", posts.length === 1 && posts[0].url === "http://sidecar/v1/events" && posts[0].body.events.length === 1);
    const e = posts[0].body.events[0];
    g.ensure("the inbound event", e.kind === "inbound" && e.url === "https://app/x" && e.method === "GET" && (bad ? typeof e.error === "string" && e.statusCode === undefined : e.statusCode === status && e.error === undefined));
    g.ensure("the same session", e.frontendSessionId === seen.frontendSessionId && e.requestId === seen.requestId);
  }
};
contract("a failing handler fails with the same error, whatever the sidecar does", {}, async (g) => {
  await rule(g, ["throws", "rejects"], [new Error("app"), "text", undefined, Object.create(null)], ["document"], ["s1"], [true], [200]);
});
contract("a response passes through, whatever the sidecar does", {}, async (g) => {
  await rule(g, ["returns", "resolves"], [null], ["document"], [""], [true], "any");
});
contract("a response passes through for every kind of request", {}, async (g) => {
  await rule(g, ["resolves"], [null], "any", ["", "s1"], [true, false], "any");
});
