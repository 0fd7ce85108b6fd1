import { contract } from "vf";
import { buildClient } from "repo:client/src/client";

const logger: any = { warn() {}, info() {}, debug() {} };
const server = (g, o, th) => {
  const calls = []; g.setGlobal("setTimeout", (f, ms) => { if (ms < 60000) Promise.resolve().then(f); return 0; }); g.setGlobal("clearTimeout", () => {});
  g.setGlobal("fetch", async (url, init) => { calls.push({ url: String(url), method: init.method, headers: new Headers(init.headers), body: init.body }); if (o.refuses) throw o.refuses; return new Response(o.body ?? "{}", { status: o.status ?? 200, headers: o.type === undefined ? {} : { "content-type": o.type } }); });
  return th(calls);
};
const at = (g) => { const u = g.choose("api", [undefined, "http://localhost:3000/api", "http://localhost:3000/api/"]); g.setGlobal("process", { env: { ...(u === undefined ? {} : { METICULOUS_API_URL: u }), ...(g.bool("suffix") ? { METICULOUS_CLIENT_USER_AGENT_SUFFIX: " cli/1 " } : {}) } }); return u === undefined ? "https://app.meticulous.ai/api/" : "http://localhost:3000/api/"; };

contract("a request carries the token, the data and the parameters", {}, (g) => { const base = at(g); return server(g, {}, async (calls) => {
  const token = g.choose("provider", ["text", "function", "none"]), t = g.string("token", ["prat-1"]), client = buildClient(token === "text" ? t : token === "none" ? null : async () => t, logger);
  g.assume(/^[\x21-\x7e]*$/.test(t));
  const method = g.choose("method", ["get", "post", "put", "delete"]), path = g.choose("path", ["test-runs/x", "/test-runs/x"]), v = g.string("value", ["a b"]), p = g.choose("params", ["none", "some"]), data = g.choose("data", [true, false]) ? { v } : undefined;
  const config = p === "none" ? undefined : { params: { a: "1", none: null, undef: undefined, b: 2 } };
  if (method === "get" || method === "delete") await client[method](path, config); else await client[method](path, data, config);
  const c = calls[0];
  g.ensure("one request", calls.length === 1 && c.method === method.toUpperCase());
  g.ensure("its address", c.url === base + "test-runs/x" + (p === "none" ? "" : "?a=1&b=2"));
  g.ensure("its token, and no other", c.headers.get("authorization") === (token === "none" || t === "" ? null : t));
  g.ensure("its data", c.body === (method === "get" || method === "delete" || data === undefined ? undefined : JSON.stringify({ v })));
  g.ensure("says it sends JSON and what it is", c.headers.get("content-type") === "application/json" && c.headers.get("user-agent").startsWith("@alwaysmeticulous/client/") && c.headers.get("user-agent").endsWith(" cli/1") === g.bool("suffix"));
}); });
contract("a parameter arrives as given", {}, (g) => { at(g); return server(g, {}, async (calls) => {
  const v = g.string("value", ["a b", "&=", "\u00e9"]), client = buildClient(null, logger);
  await client.get("x", { params: { a: v } });
  g.ensure("decoded", new URL(calls[0].url).searchParams.get("a") === v);
}); });
contract("the answer", {}, (g) => { at(g); const status = g.int("status", 200, 599), json = g.bool("json"), v = g.string("v", ["x"]), type = g.choose("type", ["application/json", "application/json; charset=utf-8"]); g.assume(status !== 204 && status !== 205 && status !== 304);
  return server(g, { status, body: json ? JSON.stringify({ v }) : v, type: json ? type : "text/plain" }, async (calls) => {
  const client = buildClient("t", logger), r = await g.attemptAsync(() => client.get("x"));
  g.ensure("asked again, three times, exactly when busy or failing", calls.length === (status === 429 || status >= 500 ? 4 : 1));
  g.ensure("succeeds exactly on 2xx", r.ok === (status < 300));
  g.ensure("with the data of the answer", !r.ok || (r.value.status === status && (json ? r.value.data.v === v : r.value.data === v)));
  g.ensure("a failure carries the status and the data", r.ok || (r.error.response.status === status && (json ? r.error.response.data.v === v : r.error.response.data === v)));
}); });
contract("without a token a refusal says what to do", {}, (g) => { at(g); const status = g.int("status", 400, 599), has = g.bool("token"); return server(g, { status, body: "no" }, async () => {
  const client = buildClient(has ? "t" : null, logger), r = await g.attemptAsync(() => client.get("x"));
  g.ensure("exactly on 401 and 403 without a token", !r.ok && r.error.message.includes("METICULOUS_API_TOKEN") === (!has && (status === 401 || status === 403)));
  g.ensure("the answer is kept", r.error.response.status === status && r.error.response.data === "no");
}); });
contract("the token is asked for anew for each request", {}, (g) => { at(g); return server(g, {}, async (calls) => {
  let n = 0; const client = buildClient(async () => "t" + n++, logger);
  await client.get("a"); await client.post("b", {});
  g.ensure("fresh", calls[0].headers.get("authorization") === "t0" && calls[1].headers.get("authorization") === "t1");
}); });
contract("a failure of the network is passed on", {}, (g) => { at(g); const why = { code: g.string("code") }; return server(g, { refuses: why }, async () => {
  const r = await g.attemptAsync(() => buildClient(g.bool("token") ? "t" : null, logger).get("x"));
  g.ensure("as it is", !r.ok && r.error === why);
}); });
