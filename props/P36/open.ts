import { contract } from "vf";
import { crew } from "cluster";
import { localtunnel } from "repo:tunnel-client/src/localtunnel";
import { quiet, settle } from "./lib";

const given = { id: "x1", multiplexing_port: 9000, url: "https://x1.tunnels.test", max_conn_count: 10, tunnel_passphrase: "pp", basic_auth_user: "u", basic_auth_password: "s3cret" };
const world = (g, answer) => {
  const w = { asked: [], waits: [] };
  g.setGlobal("__dirname", "/dist"); g.setGlobal("process", { env: {}, versions: { node: "22" } });
  g.setGlobal("setTimeout", (f, ms) => { if (ms === 60000) return 0; w.waits.push(ms); w.later = f; return 0; }); g.setGlobal("clearTimeout", () => {});
  g.setGlobal("fetch", async (url, init) => { const k = w.asked.length; w.asked.push({ url: String(url), method: (init && init.method) ?? "GET", token: new Headers((init && init.headers) ?? {}).get("authorization") }); if (k > 20) return new Promise(() => {}); await undefined; const a = answer(k); if (a instanceof Error) throw a; return new Response(a.text ?? JSON.stringify(a.data ?? {}), { status: a.status ?? 200 }); });
  w.open = (o) => { const r = { done: false }; localtunnel({ logger: quiet, apiToken: "tok", port: 3000, localHost: "app.local", localHttps: false, allowInvalidCert: false, proxyAllUrls: false, rewriteHostnameToAppUrl: false, enableDnsCache: false, silenceTunnelWorker: false, ...o }).then((t) => { r.done = true; r.ok = true; r.tunnel = t; }, (e) => { r.done = true; r.ok = false; r.error = e; }); return r; };
  return w;
};
contract("an open tunnel leads to the app", { unroll: 100 }, async (g) => {
  const host = g.choose("host", [undefined, ["https://t.eu.test", "https://t.eu.test"]]), where = g.choose("url", [["https://x1.tunnels.test", "tunnels.test", true], ["http://x1.a.b.test:8080", "a.b.test", false], ["https://x1.a.eu.tunnels.test", "a.eu.tunnels.test", true], ["https://x1.localhost", "localhost", true]]), n = g.choose("connections", [undefined, 1, 5]), o = { localHttps: g.bool("https"), allowInvalidCert: g.bool("cert"), proxyAllUrls: g.bool("all"), rewriteHostnameToAppUrl: g.bool("rewrite"), enableDnsCache: g.bool("dns") };
  const w = world(g, () => ({ data: { ...given, url: where[0] } })), r = w.open({ ...o, ...(host === undefined ? {} : { host: host[0] }), ...(n === undefined ? {} : { http2Connections: n }) }); await settle();
  const q = new URL(w.asked[0].url), at = crew.list.map((x) => x.sent);
  g.ensure("asked for once, with the token", w.asked.length === 1 && q.origin === (host === undefined ? "https://tunnels.meticulous.ai" : host[1]) && q.searchParams.get("supportsHTTP2Multiplexing") === "true" && w.asked[0].token === "tok" && w.asked[0].method === "GET");
  g.ensure("it has its address and password", r.ok && r.tunnel.url === where[0] && r.tunnel.basicAuthUser === "u" && r.tunnel.basicAuthPassword === "s3cret" && r.tunnel.clientId === "x1");
  g.ensure("as many workers as asked for", at.length >= 1 && at.length <= 16 && (n === undefined || at.length === n));
  g.ensure("each told once what to do", at.every((m, i) => m.length === 1 && m[0].type === "init" && m[0].options.workerId === i + 1));
  g.ensure("where the tunnel is", at.every((m) => m[0].options.remoteHost === where[1] && m[0].options.useTls === where[2] && m[0].options.multiplexingRemotePort === 9000 && m[0].options.tunnelPassphrase === "pp"));
  g.ensure("and where the app is", at.every((m) => m[0].options.localHost === "app.local" && m[0].options.localPort === 3000 && Object.keys(o).every((k) => m[0].options[k] === o[k])));
});
contract("a worker that fails is told, until the tunnel is closed", { unroll: 100 }, async (g) => {
  const code = g.int("code", 0, 255), which = g.choose("which", [0, 1, 2]), closed = g.bool("closed"), again = g.bool("closed again"), w = world(g, () => ({ data: given })), r = w.open({ http2Connections: 3 }); await settle();
  const errors = []; r.tunnel.on("error", (e) => { errors.push(e); });
  g.ensure("all work", crew.list.length === 3 && crew.list.every((x) => x.killed === 0));
  if (closed) { r.tunnel.close(); if (again) r.tunnel.close(); g.ensure("closing ends each", crew.list.every((x) => x.killed === 1)); }
  crew.list[which].ends(code);
  g.ensure("as an error", errors.length === (code !== 0 && !closed ? 1 : 0) && errors.every((e) => e instanceof Error));
  if (!closed) { r.tunnel.close(); g.ensure("and it can still be closed", crew.list.every((x) => x.killed === 1)); }
});
contract("a tunnel that cannot be opened is an error", { unroll: 100 }, async (g) => {
  const what = g.choose("what", [["401", { status: 401, data: {} }], ["401 page", { status: 401, text: "<html>" }], ["403", { status: 403, data: { error: "x" } }], ["no such", { status: 404, data: { error: "no such tunnel" } }], ["other", { status: 400, data: { error: 7 } }], ["null", { status: 500, text: "null" }], ["no port", { data: { ...given, multiplexing_port: undefined } }], ["zero port", { data: { ...given, multiplexing_port: 0 } }]]);
  const w = world(g, () => what[1]), r = w.open({}); await settle();
  g.ensure("passed on at once", r.done && !r.ok && r.error instanceof Error && w.asked.length === 1 && w.waits.length === 0);
  g.ensure("with what the service said", what[0] !== "no such" || r.error.message === "no such tunnel");
  g.ensure("nothing is started", crew.list.length === 0);
});
contract("a service that is away is asked again", { unroll: 100 }, async (g) => {
  const n = g.choose("times", [1, 2, 5]), how = g.choose("how", ["throws", "page"]), w = world(g, (k) => (k < n ? (how === "throws" ? new TypeError("fetch failed") : { text: "<html>" }) : { data: given })), r = w.open({ http2Connections: 2 });
  let i = 0; for (; i < n; i++) { await settle(); g.ensure("a second later", w.asked.length === i + 1 && w.waits.length === i + 1 && w.waits[i] === 1000 && !r.done && crew.list.length === 0); w.later(); } await settle();
  g.ensure("until it is back", r.ok && w.asked.length === n + 1 && w.asked.every((e) => e.url === w.asked[0].url && e.token === "tok") && crew.list.length === 2);
});
