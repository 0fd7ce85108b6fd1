import { contract } from "vf";
import { captureOutboundCall } from "repo:backend-recorder-workerd/src/outbound-capture";
import { decoder, quiet, redacted, request, response, withRedaction } from "./lib";

const context = (g) => {
  const events = [], tracked = [];
  const session = g.bool("has session") ? g.string("session", ["s1"]) : undefined;
  return { mode: "record", requestId: g.string("requestId", ["r"]), traceId: g.string("traceId", ["t"]), serverSpanId: g.string("spanId", ["p"]), frontendSessionId: session, events, tracked,
    buffer: { track: (producer) => { tracked.push(producer().catch(() => "failed")); }, add: (e) => { events.push(e); } } };
};
const captured = (s, f = (t) => t) => (s !== null && s.end === "done" ? { body: f(s.text), truncated: false } : undefined);
const rule = async (g, req, thrown, failure, res, binding) => {
  decoder(g); quiet(g);
  const ctx = context(g), calls = [];
  const out = await withRedaction(g, async () => { const o = await g.attemptAsync(() => captureOutboundCall(ctx, binding, req, async (r) => { calls.push(r); if (thrown) throw failure; return res; })); await Promise.all(ctx.tracked); return o; });
  g.ensure("called once with the request", calls.length === 1 && calls[0] === req);
  if (thrown) g.ensure("same error", !out.ok && out.error === failure); else g.ensure("same response", out.ok && out.value === res);
  // the event
  const recorded = req.broken === "method" || req.broken === "url" || req.broken === "headers" || (req.broken === "clone" && req.stream !== null) ? false : thrown || (res.broken === "" && !res.ws);
  g.ensure("at most one event", ctx.events.length === (recorded ? 1 : 0));
  if (!recorded) return;
  const e = ctx.events[0];
  g.ensure("kind", e.kind === binding.kind && e.bindingName === binding.bindingName);
  g.ensure("correlation", e.requestId === ctx.requestId && e.traceId === ctx.traceId && e.serverSpanId === ctx.serverSpanId && e.frontendSessionId === ctx.frontendSessionId);
  g.ensure("request", e.method === req.rawMethod && e.url === req.rawUrl);
  g.eq("only listed request headers", e.requestHeaders, { "content-type": ["text/plain"] });
  g.eq("redacted request body", e.requestBody, captured(req.stream, redacted(g)));
  if (thrown) g.ensure("error", e.error === String(failure) && e.statusCode === undefined);
  else { g.ensure("status", e.statusCode === res.rawStatus && e.error === undefined); g.eq("only listed response headers", e.responseHeaders, { "content-type": ["text/html"] }); g.eq("response body", e.responseBody, captured(res.stream)); }
  g.ensure("times", e.endTimeMs >= e.startTimeMs);
};
const OUT = { kind: "outbound" };
contract("a failing call fails with the same error and is recorded", {}, async (g) => {
  await rule(g, request(g, "request"), true, g.choose("failure", [new Error("net"), "text", null, undefined]), undefined, OUT);
});
const OK = { broken: [""] };
contract("a successful call hands back the very response", {}, async (g) => {
  await rule(g, request(g, "request", { ...OK, body: [false] }), false, undefined, response(g, "response"), OUT);
});
contract("a request that cannot be captured is still made", {}, async (g) => {
  await rule(g, request(g, "request", { ends: ["fails"] }), false, undefined, response(g, "response", { ...OK, body: [false] }), OUT);
});
contract("both bodies are recorded", {}, async (g) => {
  await rule(g, request(g, "request", { ...OK, body: [true] }), false, undefined, response(g, "response", { ...OK, ws: [false], body: [true] }), OUT);
});
contract("binding calls carry the binding name", {}, async (g) => {
  await rule(g, request(g, "request", { ...OK, body: [false] }), g.bool("throws"), "x", response(g, "response", { ...OK, body: [false] }), { kind: "binding", bindingName: g.choose("name", [undefined, "API"]) });
});
contract("an error that has no text is still handed back", {}, async (g) => {
  decoder(g); quiet(g);
  const ctx = context(g), failure = Object.create(null);
  const out = await withRedaction(g, async () => { const o = await g.attemptAsync(() => captureOutboundCall(ctx, { kind: "outbound" }, request(g, "request"), () => Promise.reject(failure))); await Promise.all(ctx.tracked); return o; });
  g.ensure("same error", !out.ok && out.error === failure);
});
