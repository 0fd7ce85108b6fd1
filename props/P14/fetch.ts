import { contract } from "vf";
import { installFetchPatch } from "repo:backend-recorder-workerd/src/fetch-patch";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";
import { anyAddress, anyMethod, decoder, quiet, withRedaction } from "./lib";

contract("fetch is passed on once with the same request and the same outcome", {}, async (g) => {
  quiet(g); if (g.isSymbolic()) decoder(g);
  const calls = [], thrown = g.bool("throws"), failure = g.choose("failure", [new Error("net"), undefined]), res = new Response("x");
  const original = (...args) => { calls.push(args); return thrown ? Promise.reject(failure) : Promise.resolve(res); };
  g.setGlobal("fetch", original);
  installFetchPatch(); installFetchPatch();
  const events = [], tracked = [];
  const ctx = { mode: "record", requestId: "r", traceId: "t", serverSpanId: "p", frontendSessionId: "s", transport: g.choose("transport", [{ kind: "url", url: "http://sidecar" }, { kind: "binding", fetcher: {}, instance: {} }]), buffer: { track: (p) => { tracked.push(p().catch(() => 0)); }, add: (e) => { events.push(e); } } };
  const input = g.choose("input", ["https://api/a?x=1", "http://sidecar/v1/events", "http://sidecar.evil/x", "https://meticulous-sidecar.invalid/v1/events", "not a url", new URL("https://api/u")]);
  const init = g.choose("init", [undefined, { method: "POST", body: "b", headers: { "x-a": "1" } }]), inside = g.bool("inside a request"), run = () => fetch(input, init);
  const out = await withRedaction(g, async () => { const o = await g.attemptAsync(() => (inside ? requestCaptureContext.run(ctx, run) : run())); await Promise.all(tracked); return o; });
  g.ensure("called once", calls.length === 1);
  const [a, b] = calls[0];
  if (inside && input !== "not a url") g.ensure("the same request", a instanceof Request && a.url === String(input) && a.method === (init === undefined ? "GET" : "POST") && a.headers.get("x-a") === (init === undefined ? null : "1") && a.bodyUsed === false);
  else g.ensure("the same arguments", a === input && b === init);
  if (thrown) g.ensure("same error", !out.ok && out.error === failure); else g.ensure("same response", out.ok && out.value === res && res.bodyUsed === false);
  const own = ctx.transport.kind === "url" ? input === "http://sidecar/v1/events" : input === "https://meticulous-sidecar.invalid/v1/events";
  const recorded = inside && input !== "not a url" && !own;
  g.ensure("one event when recording", events.length === (recorded ? 1 : 0));
  if (recorded) g.ensure("event", events[0].kind === "outbound" && events[0].url === String(input) && events[0].method === (init === undefined ? "GET" : "POST"));
});
const anyStatus = (g) => { const s = g.int("status", 200, 599); g.assume(s !== 204 && s !== 205 && s !== 304); return s; };
contract("fetch is passed on for any address and method", {}, async (g) => {
  quiet(g); if (g.isSymbolic()) decoder(g);
  const calls = [], thrown = g.bool("throws"), failure = new Error("net"), res = new Response("x", { status: anyStatus(g) });
  g.setGlobal("fetch", (...args) => { calls.push(args); return thrown ? Promise.reject(failure) : Promise.resolve(res); });
  installFetchPatch();
  const events = [], tracked = [];
  const ctx = { mode: "record", requestId: "r", traceId: "t", serverSpanId: "p", frontendSessionId: "s", transport: { kind: "url", url: "http://sidecar" }, buffer: { track: (p) => { tracked.push(p().catch(() => 0)); }, add: (e) => { events.push(e); } } };
  const url = anyAddress(g, "http://sidecar/"), method = anyMethod(g, false);
  const out = await g.attemptAsync(() => requestCaptureContext.run(ctx, () => fetch(url, { method })));
  await Promise.all(tracked);
  g.ensure("called once", calls.length === 1 && calls[0][0].url === url && calls[0][0].method === method);
  if (thrown) g.ensure("same error", !out.ok && out.error === failure); else g.ensure("same response", out.ok && out.value === res && res.bodyUsed === false);
  g.ensure("one event", events.length === 1 && events[0].url === url && events[0].method === method);
});
