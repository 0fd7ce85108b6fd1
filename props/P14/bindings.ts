import { contract } from "vf";
import { installKvPatch } from "repo:backend-recorder-workerd/src/kv-patch";
import { installBindingPatch } from "repo:backend-recorder-workerd/src/binding-patch";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";
import { decoder, quiet, response, withRedaction } from "./lib";

const METHODS = ["get", "getWithMetadata", "put", "delete", "list"];
const context = (g) => {
  const events = [], tracked = [], addFails = g.bool("buffer fails");
  return { mode: g.choose("mode", ["record", "replay"]), requestId: "r", traceId: "t", serverSpanId: "p", frontendSessionId: "s", events, tracked, transport: { kind: "url", url: "http://sidecar" }, sidecarUrl: "http://sidecar",
    buffer: { track: (producer) => { tracked.push(producer().catch(() => "failed")); }, add: (e) => { if (addFails) throw new Error("full"); events.push(e); } }, addFails };
};
const kv = (calls, outcome) => {
  const mk = (m) => function (...args) { calls.push({ m, self: this, args }); return outcome(); };
  class Namespace { }
  for (const m of METHODS) Object.defineProperty(Namespace.prototype, m, { value: mk(m), writable: true, configurable: true, enumerable: false });
  return Namespace;
};
contract("a KV operation is made once and its outcome handed back unchanged", {}, async (g) => {
  quiet(g);
  const ctx = context(g), calls = [], thrown = g.bool("throws"), failure = g.choose("failure", [new Error("kv"), "text", undefined, Object.create(null)]), value = g.choose("result", ["v", null, undefined, 7]);
  const Namespace = kv(calls, () => (thrown ? Promise.reject(failure) : Promise.resolve(value)));
  const binding = new Namespace(), skip = g.bool("skipped"), env = { CACHE: binding, OTHER: 1, NONE: null };
  installKvPatch(env, skip ? { skipBindings: ["CACHE"] } : undefined);
  installKvPatch(env, skip ? { skipBindings: ["CACHE"] } : undefined);
  const m = g.choose("method", METHODS), a = g.string("a", ["k"]), inside = g.bool("inside a request");
  const run = () => binding[m](a);
  const out = await g.attemptAsync(() => (inside ? requestCaptureContext.run(ctx, run) : run()));
  g.ensure("called once", calls.length === 1 && calls[0].m === m && calls[0].self === binding && calls[0].args.length === 1 && calls[0].args[0] === a);
  if (thrown) g.ensure("same error", !out.ok && out.error === failure); else g.ensure("same result", out.ok && out.value === value);
  const recorded = inside && ctx.mode === "record" && !skip && !ctx.addFails;
  g.ensure("one event when recording", ctx.events.length === (recorded ? 1 : 0));
  if (recorded) g.ensure("event", ctx.events[0].kind === "kv" && ctx.events[0].operation === m && ctx.events[0].key === a && ctx.events[0].bindingName === "CACHE");
});
const only = (g) => { if (g.isSymbolic()) decoder(g); };
contract("a service binding call is made once and its outcome handed back unchanged", {}, async (g) => {
  quiet(g); only(g);
  const ctx = context(g), calls = [], thrown = g.bool("throws"), failure = g.choose("failure", [new Error("svc"), undefined]), res = new Response("x");
  class Service { fetch(...args) { calls.push({ self: this, args }); return thrown ? Promise.reject(failure) : Promise.resolve(res); } }
  const binding = new Service(), name = g.choose("name", ["API", "ASSETS", "SKIPPED", "METICULOUS_SIDECAR"]);
  for (let i = 0; i < 2; i++) installBindingPatch({ [name]: binding, x: 1, y: null }, { skipBindings: ["SKIPPED"] });
  const input = g.choose("input", ["https://svc/a", "http://sidecar/v1/events", "not a url", new Request("https://svc/r")]);
  const inside = g.bool("inside a request"), run = () => binding.fetch(input);
  const out = await withRedaction(g, async () => { const o = await g.attemptAsync(() => (inside ? requestCaptureContext.run(ctx, run) : run())); await Promise.all(ctx.tracked); return o; });
  g.ensure("called once", calls.length === 1 && calls[0].self === binding);
  const arg = calls[0].args[0];
  g.ensure("with the same request", arg === input || (arg instanceof Request && arg.url === input));
  if (thrown) g.ensure("same error", !out.ok && out.error === failure); else g.ensure("same response", out.ok && out.value === res);
  const recorded = inside && ctx.mode === "record" && name === "API" && input !== "not a url" && input !== "http://sidecar/v1/events";
  g.ensure("one event when recording", ctx.events.length === (recorded && !ctx.addFails ? 1 : 0));
  if (recorded && !ctx.addFails) g.ensure("event", ctx.events[0].kind === "binding" && ctx.events[0].bindingName === "API" && ctx.events[0].method === "GET");
});
