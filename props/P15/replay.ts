import { contract } from "vf";
import { installFetchPatch } from "repo:backend-recorder-workerd/src/fetch-patch";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";
import { anyAddress, anyMethod, decoder, quiet, withRedaction } from "../P14/lib";

// the sidecar's answer to a lookup
const answer = (g) => {
  const how = g.choose("sidecar", ["mock", "no-mock", "unknown outcome", "null", "no outcome", "error status", "unreachable", "throws", "not json"]);
  const status = g.int("status", 0, 700), body = g.string("body", ["hello", "{}"]);
  const headers = g.choose("headers", [{}, { "content-type": "text/plain", "Content-Encoding": "gzip", "content-length": "3", "Transfer-Encoding": "chunked", "x-a": "1" }]);
  const data = how === "mock" ? { outcome: "mock", statusCode: status, body, headers } : how === "no-mock" ? { outcome: "no-mock" } : how === "unknown outcome" ? { outcome: "later" } : how === "null" ? null : {};
  const reply = () => {
    if (how === "throws") throw new Error("refused");
    if (how === "unreachable") return Promise.reject(new Error("refused"));
    if (how === "error status") return Promise.resolve(new Response("no", { status: 500 }));
    if (how === "not json") return Promise.resolve(new Response("<html>", { status: 200 }));
    return Promise.resolve(new Response(JSON.stringify(data), { status: 200 }));
  };
  return { how, status, body, headers, reply };
};
const rule = async (g, input, init, passthrough) => {
  quiet(g); if (g.isSymbolic()) decoder(g);
  const calls = [], a = answer(g), real = new Response("real");
  g.setGlobal("fetch", (...args) => { calls.push(args); return args[0] === "http://localhost:9/v1/replay/outbound-fetch" ? a.reply() : Promise.resolve(real); });
  installFetchPatch();
  const ctx = { mode: "replay", requestId: "r", frontendSessionId: g.string("session", ["s"]), replayId: g.string("replay", ["p"]), sidecarUrl: "http://localhost:9", clockAnchorMs: undefined, waitUntil: () => undefined };
  const out = await withRedaction(g, () => g.attemptAsync(() => requestCaptureContext.run(ctx, () => fetch(input, init))));
  const lookups = calls.filter((c) => c[0] === "http://localhost:9/v1/replay/outbound-fetch"), others = calls.filter((c) => c[0] !== "http://localhost:9/v1/replay/outbound-fetch");
  if (passthrough) {
    g.ensure("the real service answers", others.length === 1 && lookups.length === 0 && out.ok && out.value === real);
    return;
  }
  g.ensure("the real service is never called", others.length === 0);
  g.ensure("one lookup", lookups.length === 1);
  const sent = JSON.parse(lookups[0][1].body);
  g.ensure("for this call", sent.frontendSessionId === ctx.frontendSessionId && sent.replayId === ctx.replayId && sent.url === String(input) && sent.method === (init === undefined ? "GET" : init.method));
  const nullBody = a.status === 204 || a.status === 205 || a.status === 304;
  if (a.how === "mock" && a.status >= 200 && a.status <= 599) {
    g.ensure("the recorded response", out.ok && out.value.status === a.status && (await out.value.text()) === (nullBody ? "" : a.body));
    const h = out.value.headers;
    g.ensure("its headers, without those of the transfer", h.get("x-a") === (a.headers["x-a"] ?? null) && h.get("content-encoding") === null && h.get("content-length") === null && h.get("transfer-encoding") === null);
  } else g.ensure("the call fails", !out.ok && out.error instanceof Error);
};
contract("a call during replay is answered from the recording or fails", {}, async (g) => {
  await rule(g, g.choose("input", ["https://api/a?x=1", "http://localhost:91/x"]), undefined, false);
});
contract("so is a call to any address by any method", {}, async (g) => {
  await rule(g, anyAddress(g, "http://localhost:9/"), { method: anyMethod(g, false) }, false);
});
contract("so is a call with a body", {}, async (g) => {
  await rule(g, "https://api/a", { method: anyMethod(g, true), body: g.choose("payload", ["", "{}", "text"]) }, false);
});
contract("so is a call with a header that is not the passthrough header", {}, async (g) => {
  const v = g.string("header", ["false", "", "TRUE", "1", "true,true"]);
  g.assume(v !== "true" && /^[A-Za-z0-9,]*$/.test(v));
  await rule(g, "https://api/a", { method: "POST", body: "{}", headers: { "meticulous-passthrough": v } }, false);
});
contract("only the passthrough header reaches the real service", {}, async (g) => {
  await rule(g, "https://api/a", { method: anyMethod(g, false), headers: { [g.choose("header", ["meticulous-passthrough", "Meticulous-Passthrough"])]: "true" } }, true);
});
