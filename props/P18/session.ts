import { contract } from "vf";
import { isProvisionalSessionIdCandidate, mintProvisionalSessionId, buildServerTimingSessionEntry } from "repo:backend-recorder-workerd/src/provisional-session-id";
import { publishSessionIdOnResponse } from "repo:backend-recorder-workerd/src/publish-session-id";
import { publishWorkerdShimVersionOnResponse } from "repo:backend-recorder-workerd/src/publish-shim-version";
import { runWithMeticulous } from "repo:backend-recorder-workerd/src/with-meticulous";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";
import { anyMethod, decoder, quiet } from "../P14/lib";

contract("an id is minted exactly for document navigations without one", {}, (g) => {
  const h = {};
  for (const n of ["x-meticulous-session-id", "sec-fetch-dest", "accept"]) h[n] = g.choose(n + "?", ["absent", "null", "present"]) === "present" ? g.string(n, ["document", "text/html,*/*", "s1", ""]) : g.choose(n + " absent", [null, undefined]);
  const method = g.string("method", ["GET", "get", "HEAD", "POST", "Get"]);
  const out = isProvisionalSessionIdCandidate(method, (n) => h[n]);
  const m = method.toUpperCase(), dest = h["sec-fetch-dest"], accept = h["accept"], sid = h["x-meticulous-session-id"];
  const page = typeof dest === "string" ? dest === "document" : typeof accept === "string" && accept.includes("text/html");
  g.ensure("candidate", out === ((sid === null || sid === undefined) && (m === "GET" || m === "HEAD") && page));
});
contract("a minted id is a time and 21 url-safe characters", {}, (g) => {
  const id = mintProvisionalSessionId();
  g.ensure("shape", /^[^_]+Z_[A-Za-z0-9_-]{21}$/.test(id));
  g.ensure("safe inside a header value", !/["\r\n\\]/.test(id));
});
const anyResponse = (g) => {
  const kind = g.choose("kind", ["mutable", "immutable", "redirect"]);
  if (kind === "redirect") { const to = g.choose("redirect", [301, 302, 303, 307, 308]); return { r: Response.redirect("https://app/next", to), status: to, text: "", already: null, other: "location", value: "https://app/next" }; }
  const status = g.int("status", 200, 599), already = g.choose("already", [null, "db;dur=1"]), headers = already === null ? { "x-a": "1" } : { "x-a": "1", "server-timing": already };
  const empty = status === 204 || status === 205 || status === 304, r = new Response(empty ? null : "page", { status, statusText: "S", headers });
  if (kind === "immutable") { r.headers.append = () => { throw new TypeError("immutable"); }; r.headers.set = () => { throw new TypeError("immutable"); }; }
  return { r, status, text: empty ? "" : "page", already, other: "x-a", value: "1" };
};
contract("publishing the id keeps the response", {}, async (g) => {
  quiet(g);
  const id = g.string("id", ["2020-01-01T00:00:00.000Z_abc"]);
  g.assume(/^[A-Za-z0-9:._-]+$/.test(id));
  const { r, status, text, already, other, value } = anyResponse(g), st = r.statusText;
  const out = publishSessionIdOnResponse(r, id), entry = 'metsession;desc="' + id + '"';
  g.ensure("entry", buildServerTimingSessionEntry(id) === entry);
  g.ensure("status and headers", out.status === status && out.statusText === st && out.headers.get(other) === value);
  g.ensure("published", out.headers.get("server-timing") === (already !== null ? already + ", " + entry : entry));
  g.ensure("body", (await out.text()) === text);
});
contract("publishing the shim version keeps the response", {}, async (g) => {
  quiet(g);
  const { r, status, text, already, other, value } = anyResponse(g), st = r.statusText;
  const out = publishWorkerdShimVersionOnResponse(r);
  g.ensure("marked", out.headers.get("x-meticulous-workerd-shim-version") !== null);
  g.ensure("status and headers", out.status === status && out.statusText === st && out.headers.get(other) === value && out.headers.get("server-timing") === already);
  g.ensure("body", (await out.text()) === text);
});
contract("a response that cannot be changed is handed back as it is", {}, (g) => {
  quiet(g);
  const broken = { get status() { if (statusFails) throw new Error("status"); return ws ? 101 : 200; }, webSocket: null, headers: { append: () => { throw new Error("no"); }, set: () => { throw new Error("no"); } }, get body() { throw new Error("body"); } };
  const ws = g.bool("web socket"), statusFails = g.bool("status fails");
  g.ensure("session", publishSessionIdOnResponse(broken, "x") === broken);
  g.ensure("version", publishWorkerdShimVersionOnResponse(broken) === broken);
});
contract("the recorded request, the published id and the events share one session", {}, async (g) => {
  quiet(g); if (g.isSymbolic()) decoder(g);
  const posts = [], waits = [];
  g.setGlobal("fetch", (url, init) => { posts.push(JSON.parse(init.body)); return Promise.resolve(new Response(null, { status: 204 })); });
  const env = g.choose("env", [{}, { METICULOUS_BACKEND_PROVISIONAL_SESSION_IDS: "false" }, { METICULOUS_BACKEND_PROVISIONAL_SESSION_IDS: "true" }]), option = g.choose("option", [undefined, true, false]);
  const headers = { accept: g.string("accept", ["text/html", "application/json", "*/*", "text/html;q=0.9"]) };
  g.assume(/^[a-z*/;=.,0-9-]+$/.test(headers.accept));
  if (g.bool("known")) headers["x-meticulous-session-id"] = "front";
  const method = anyMethod(g, false);
  let seen;
  const out = await runWithMeticulous({ request: new Request("https://app/x", { method, headers }), env: { ...env, METICULOUS_SIDECAR_URL: "http://sidecar" }, ctx: { waitUntil: (p) => { waits.push(p); } }, invokeHandler: () => { seen = requestCaptureContext.getStore().frontendSessionId; return new Response("x"); } }, option === undefined ? undefined : { mintProvisionalSessionIds: option });
  await Promise.all(waits);
  const known = headers["x-meticulous-session-id"] === "front", on = option ?? env["METICULOUS_BACKEND_PROVISIONAL_SESSION_IDS"] !== "false", mint = !known && on && (method === "GET" || method === "HEAD") && headers.accept.includes("text/html");
  g.ensure("session", known ? seen === "front" : mint ? typeof seen === "string" && seen.length > 22 : seen === undefined);
  g.ensure("published exactly when minted", out.headers.get("server-timing") === (mint ? 'metsession;desc="' + seen + '"' : null));
  const e = posts[0].events[0];
  g.ensure("recorded under it", e.frontendSessionId === seen && e.sessionIdOrigin === (mint ? "backend" : undefined));
});
