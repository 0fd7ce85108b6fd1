import { contract } from "vf";
import { SpanBuilder, serializeSpan } from "repo:backend-recorder-workerd/src/index";
import { redactUrlCredentials } from "repo:backend-recorder-workerd/src/spans/url-redaction";

const hex = (g, name, n) => { const s = g.string(name, ["0".repeat(n), "0123456789abcdef0123456789abcdef".slice(0, n)]); g.assume(s !== ""); return s; };
const text = (g, name) => ({ body: g.string(name, ["", "{}", "hello"]), truncated: g.bool(name + " truncated") });
const some = (g, name, key, mk) => (g.bool(name + " has " + key) ? { [key]: mk() } : {});
// one event of a kind, with every optional field present or absent
const event = (g, kind, ids, session, extra = {}) => ({ kind, requestId: "r1", startTimeMs: 1000, endTimeMs: 1000, ...ids, ...session, ...extra });
const HTTP = ["inbound", "outbound", "binding"];
const http = (g, over = {}) => ({ method: g.string("method", ["GET", "POST"]), url: over.url ?? "https://app/a?x=1", bindingName: "B", requestHeaders: over.headers ?? {}, ...(over.rest ?? {}) });
const KV = { bindingName: "KV", operation: "get" };
const PG = { queryText: "select 1", params: "[]", rowMode: "objects" };
const fields = (g, kind, over) => (HTTP.includes(kind) ? http(g, over) : kind === "kv" ? KV : PG);
const stamp = (g) => ({ traceId: hex(g, "traceId", 32), serverSpanId: hex(g, "serverSpanId", 16) });
const built = (b, e) => serializeSpan(b.build(e));

contract("a stamped event becomes a span of its request's trace", {}, (g) => {
  const kind = g.choose("kind", ["inbound", "outbound", "binding", "kv", "postgres"]), ids = stamp(g), name = g.string("session", ["s1", ""]);
  const b = new SpanBuilder();
  if (g.bool("others were built before")) { b.build(event(g, "inbound", {}, {}, fields(g, "inbound", {}))); b.build(event(g, "kv", { traceId: "1".repeat(32), serverSpanId: "2".repeat(16) }, {}, KV)); }
  const start = g.int("start", 0, 2000000000000), end = g.int("end", 0, 2000000000000);
  const s = built(b, { ...event(g, kind, ids, g.bool("has session") ? { frontendSessionId: name } : {}, fields(g, kind, {})), startTimeMs: start, endTimeMs: end });
  g.ensure("same trace", s.traceId === ids.traceId);
  if (kind === "inbound") g.ensure("the server span", s.spanId === ids.serverSpanId && s.parentSpanId === undefined && s.kind === 1);
  else g.ensure("a child of the server span", s.parentSpanId === ids.serverSpanId && /^[0-9a-f]{16}$/.test(s.spanId) && s.kind === 2);
  g.ensure("its times", s.startTimeMs === start && s.endTimeMs === end && s.durationMs === (end > start ? end - start : 0));
});
contract("a span carries its event's session", {}, (g) => {
  const kind = g.choose("kind", ["inbound", "outbound", "binding", "kv", "postgres"]), name = g.string("session", ["s1"]), has = g.bool("has session");
  g.assume(name !== "");
  const s = built(new SpanBuilder(), event(g, kind, stamp(g), has ? { frontendSessionId: name } : {}, fields(g, kind, {})));
  g.ensure("the session", s.frontendSessionId === (has ? name : undefined) && s.attributes["meticulous.frontend_session_id"] === (has ? name : undefined));
  g.ensure("the technology", s.clientTechnology === { inbound: undefined, outbound: "workerd-fetch", binding: "workerd-binding", kv: "workerd-kv", postgres: "postgres-js" }[kind]);
});
contract("events without a stamp share the ids of their request", {}, (g) => {
  const kinds = ["inbound", "outbound", "kv", "postgres"], k1 = g.choose("first", kinds), k2 = g.choose("second", kinds), r2 = g.string("second request", ["r1", "r2"]);
  const b = new SpanBuilder(), s1 = built(b, event(g, k1, {}, {}, fields(g, k1, {}))), s2 = built(b, { ...event(g, k2, {}, {}, fields(g, k2, {})), requestId: r2 });
  g.assume(s1.spanId.length === 16 && s2.spanId.length === 16);
  const server = (k, s) => (k === "inbound" ? s.spanId : s.parentSpanId);
  g.ensure("well-formed ids", /^[0-9a-f]{32}$/.test(s1.traceId) && /^[0-9a-f]{16}$/.test(server(k1, s1)));
  if (r2 === "r1") g.ensure("one trace", s1.traceId === s2.traceId && server(k1, s1) === server(k2, s2));
});
contract("events of any other kind become no span", {}, (g) => {
  const kind = g.json("kind", ["undef", "null", "bool", "num", "str"]);
  g.assume(kind !== "inbound" && kind !== "outbound" && kind !== "binding" && kind !== "kv" && kind !== "postgres");
  g.ensure("none", new SpanBuilder().build({ kind, requestId: "r", ...KV, ...PG, ...http(g) }) === null);
});
contract("a span is an error exactly when its call failed", {}, (g) => {
  const kind = g.choose("kind", HTTP), status = g.int("status", 100, 599), error = g.string("error", ["Error: x", ""]), hasS = g.bool("has status"), hasE = g.bool("has error");
  const s = built(new SpanBuilder(), { ...event(g, kind, stamp(g), {}, fields(g, kind, {})), ...(hasS ? { statusCode: status } : {}), ...(hasE ? { error } : {}) });
  const failed = hasE || (hasS && status >= (kind === "inbound" ? 500 : 400));
  g.ensure("error exactly when failed", (s.status.code === 2) === failed && (failed || s.status.code === 0));
  g.ensure("the reason", s.status.message === (hasE ? error : undefined) && s.attributes["error.type"] === (hasE ? error : undefined));
  g.ensure("the status", s.attributes["http.response.status_code"] === (hasS ? status : undefined));
});
contract("a failed operation is an error too", {}, (g) => {
  const pg = g.bool("postgres"), bad = g.bool("failed"), error = g.string("error", ["Error: x", ""]);
  const s = built(new SpanBuilder(), { ...event(g, pg ? "postgres" : "kv", stamp(g), {}, pg ? PG : KV), ...(bad ? { [pg ? "errorJson" : "error"]: error } : {}) });
  g.ensure("error exactly when failed", s.status.code === (bad ? 2 : 0));
  g.ensure("the reason", s.attributes[pg ? "meticulous.postgresjs.error" : "error.type"] === (bad ? error : undefined));
});
contract("bodies are recorded as captured", {}, (g) => {
  const kind = g.choose("kind", HTTP), q = g.bool("has request body"), r = g.bool("has response body"), tq = text(g, "request"), tr = text(g, "response");
  const a = built(new SpanBuilder(), { ...event(g, kind, stamp(g), {}, fields(g, kind, {})), ...(q ? { requestBody: tq } : {}), ...(r ? { responseBody: tr } : {}) }).attributes;
  const is = (has, t, k) => (has && kind !== "inbound" ? a[k] === t.body && a[k + ".truncated"] === t.truncated : a[k] === undefined && a[k + ".truncated"] === undefined);
  g.ensure("request body", is(q, tq, "http.request.body"));
  g.ensure("response body", is(r, tr, "http.response.body"));
});
contract("an operation's values are recorded as captured", {}, (g) => {
  const have = ["args", "value", "result"].map((k) => [k, g.bool("has " + k), text(g, k)]), key = g.string("key", ["k"]), hasKey = g.bool("has key");
  const e = { ...event(g, "kv", stamp(g), {}, KV), ...(hasKey ? { key } : {}) };
  for (const [k, has, t] of have) if (has) e[k] = t;
  const a = built(new SpanBuilder(), e).attributes;
  g.ensure("key", a["meticulous.workerd.kv.key"] === (hasKey ? key : undefined));
  for (const [k, has, t] of have) g.ensure("values", a["meticulous.workerd.kv." + k] === (has ? t.body : undefined) && a["meticulous.workerd.kv." + k + ".truncated"] === (has ? t.truncated : undefined));
});
contract("a query result is cut at 256 KiB and says so", {}, (g) => {
  const r = text(g, "result"), q = g.string("query", ["select 1", " insert into t", "(x)"]);
  const a = built(new SpanBuilder(), { ...event(g, "postgres", stamp(g), {}, { ...PG, queryText: q }), result: r }).attributes;
  g.ensure("query text", a["meticulous.postgresjs.query.text"] === q);
  const cut = r.truncated || r.body.length > 262144;
  g.ensure("flagged exactly when cut", a["meticulous.postgresjs.result.truncated"] === cut);
  g.ensure("the result", a["meticulous.postgresjs.result"] === (cut ? r.body.slice(0, 262144) : r.body));
});
contract("a span says what was called", {}, (g) => {
  const kind = g.choose("kind", ["inbound", "outbound", "binding", "kv", "postgres"]), m = g.string("method", ["GET"]), has = g.bool("named"), name = g.string("binding", ["B"]), op = g.string("operation", ["get", "put"]), omitted = g.string("omitted", ["too large"]), origin = g.string("origin", ["header"]), params = g.string("params", ["[1]"]), mode = g.choose("mode", ["objects", "arrays"]);
  const of: any = kind === "kv" ? { operation: op } : kind === "postgres" ? { queryText: g.choose("query", ["select 1", " INSERT into t"]), params, rowMode: mode } : { method: m, url: "https://app/a?x=1", requestHeaders: {} };
  if (has && (kind === "binding" || kind === "kv")) of.bindingName = name; if (has && kind === "kv") of.omitted = omitted; if (has && kind === "inbound") of.sessionIdOrigin = origin;
  const s = built(new SpanBuilder(), event(g, kind, stamp(g), {}, of)), a = s.attributes, b = has ? name : "$unknown";
  g.ensure("its name", s.name === { inbound: m + " /a", outbound: m, binding: m + " " + b, kv: "kv." + b + "." + op, postgres: "postgresjs." + (of.queryText === "select 1" ? "select" : "insert") }[kind]);
  g.ensure("the method", a["http.request.method"] === (HTTP.includes(kind) ? m : undefined));
  g.ensure("the binding", a["meticulous.workerd.binding"] === of.bindingName && a["meticulous.workerd.kv.operation"] === of.operation && a["meticulous.workerd.kv.omitted"] === of.omitted);
  g.ensure("the query's values", a["meticulous.postgresjs.query.params"] === of.params && a["meticulous.postgresjs.row_mode"] === of.rowMode);
  g.ensure("where the session is from", a["meticulous.session_id_origin"] === of.sessionIdOrigin);
});
contract("half a stamp is none", {}, (g) => {
  const half: any = g.bool("trace") ? { traceId: hex(g, "traceId", 32) } : { serverSpanId: hex(g, "serverSpanId", 16) };
  const s = built(new SpanBuilder(), event(g, "inbound", half, {}, fields(g, "inbound", {})));
  g.assume(s.spanId.length === 16);
  g.ensure("well-formed ids", /^[0-9a-f]{32}$/.test(s.traceId) && /^[0-9a-f]{16}$/.test(s.spanId));
});
contract("a request is remembered while it is active, and not for ever", { bounded: "1000 other requests", unroll: 1100 }, (g) => {
  let n = 0; g.setGlobal("crypto", { getRandomValues: (v) => { n++; for (let i = 0; i < v.length; i++) v[i] = i === 0 ? n % 256 : i === 1 ? Math.floor(n / 256) : 0; return v; } });
  const b = new SpanBuilder(), at = (r, t) => b.build({ kind: "inbound", requestId: r, startTimeMs: t, endTimeMs: t, method: "GET", url: "", requestHeaders: {} }).spanContext().traceId;
  const active = at("active", 0), idle = at("idle", 0); for (let i = 0; i < 1000; i++) at("other" + i, 1000);
  at("active", 500000); at("new", 700000);
  g.ensure("the same ids while it is active", at("active", 700001) === active);
  g.ensure("new ones after a pause", at("idle", 700001) !== idle);
});
contract("only the listed headers are recorded", {}, (g) => {
  const kind = g.choose("kind", HTTP), name = g.string("header", ["content-type", "Content-Type", "x-meticulous-session-id", "authorization", "cookie"]), on = g.choose("on", ["requestHeaders", "responseHeaders"]);
  const value = [g.string("value", ["v"])];
  const a = built(new SpanBuilder(), { ...event(g, kind, stamp(g), {}, fields(g, kind, {})), [on]: { [name]: value } }).attributes;
  const low = name.toLowerCase(), listed = low === "content-type" || low === "x-meticulous-session-id", key = `http.${on === "requestHeaders" ? "request" : "response"}.header.${name}`;
  if (listed) g.eq("recorded", a[key], value); else g.ensure("not recorded", !Object.keys(a).some((k) => k.startsWith("http.request.header.") || k.startsWith("http.response.header.")));
});
contract("an address is recorded in parts, as redacted (P12)", {}, (g) => {
  const kind = g.choose("kind", HTTP), url = g.string("url", ["https://u:p@h:8080/a?b=c#d", "http://h", "ws://h/x", "/relative?a", "", "http://[::1]:3/", "https://h/?sig=x&Signature=y"]);
  const stub = g.isSymbolic() ? { pathname: g.string("pathname"), search: g.string("search"), protocol: g.choose("protocol", ["http:", "https:", "ws:"]), hostname: g.string("hostname"), port: g.choose("port", ["", "8080"]), text: g.string("href"), toString() { return this.text; } } : null;
  const u = g.attempt(() => { const r = new URL(url); return stub === null ? redactUrlCredentials(r) : stub; });
  const a = g.replace(redactUrlCredentials, () => stub, () => built(new SpanBuilder(), event(g, kind, stamp(g), {}, fields(g, kind, { url })))).attributes;
  if (!u.ok) { g.ensure("kept", a["url.full"] === url && !("server.address" in a) && !("url.query" in a) && !("url.scheme" in a) && !("server.port" in a)); g.ensure("its path", a["url.path"] === (url.split("?")[0] === "" ? "/" : url.split("?")[0])); return; }
  g.ensure("the whole", a["url.full"] === u.value.toString());
  g.ensure("parts", a["url.path"] === u.value.pathname && a["server.address"] === u.value.hostname && a["url.query"] === (u.value.search === "" ? undefined : u.value.search.slice(1)));
  g.ensure("the scheme", a["url.scheme"] === u.value.protocol.slice(0, -1) && ("url.query" in a) === (u.value.search !== ""));
  g.ensure("the port", u.value.port !== "" || a["server.port"] === (u.value.protocol === "https:" ? 443 : 80));
});
