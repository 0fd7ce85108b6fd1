import { contract } from "vf";
import { quiet, settle, tunnel, web } from "./lib";

const OURS = ["host", "connection", "x-datadog-sampling-priority", "x-datadog-tags", "x-datadog-trace-id", "x-datadog-parent-id", "x-forwarded-host", "x-forwarded-for", "x-forwarded-proto", "x-original-uri", "sentrytrace", "traceparent", "tracestate", "baggage", "x-meticulous-original-url"];
const THEIRS = [["cookie", "a=1; b=2"], ["accept", "*/*"], ["authorization", "Basic dTpw"], ["content-type", "text/plain"], ["x-forwarded-port", "443"], ["x-datadog-origin", "rum"], ["x-custom", "é"], ["sec-fetch-mode", "cors"]];
contract("a request reaches the app as it was made", { unroll: 100 }, async (g) => {
  const path = g.string("path", ["/", "/a%20b?x=1&y=%2F", "//a", "/?"]), method = g.choose("method", ["GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "PATCH"]), n = g.choose("pieces", [0, 1, 3]), ours = g.choose("ours", OURS), theirs = g.choose("theirs", THEIRS), value = g.string("value", ["1", "é", ""]), t = tunnel(g, {}), body = ["ab", "c", ""].slice(0, n);
  const r = t.ask({ ":path": path, ":method": method, [ours]: ours === "x-meticulous-original-url" ? "http://tunnels.test/" : "ours", [theirs[0]]: theirs[1], "x-more": value }, body); await settle();
  const c = web.calls[0];
  g.ensure("once, at the app", web.calls.length === 1 && web.made === 1 && c.host === "localhost" && c.port === 3000 && c.secure === false && c.localAddress === undefined);
  g.ensure("its path and method", c.path === path && c.method === method);
  g.ensure("its headers, without those of the tunnel", Object.keys(c.headers).filter((k) => c.headers[k] !== undefined).sort().join() === [theirs[0], "x-more"].sort().join() && c.headers[theirs[0]] === theirs[1] && c.headers["x-more"] === value);
  g.ensure("its body", c.text() === body.join("") && c.ended && !c.destroyed);
  g.ensure("and is answered", r.status === 200 && r.ended && r.wrong === undefined);
});
const CONN = [undefined, ["connection", "keep-alive"], ["keep-alive", "timeout=5"], ["transfer-encoding", "chunked"], ["upgrade", "h2,h2c"], ["proxy-connection", "close"], ["http2-settings", "AAMAAABk"]];
contract("its answer comes back as the app gave it", { unroll: 100 }, async (g) => {
  const status = g.int("status", 200, 599), value = g.string("value", ["1", "é", ""]), conn = g.choose("connection", CONN), body = g.choose("body", [[], ["x"], ["ab", "c", "d"]]), cookies = ["a=1", "b=2"], breaks = g.bool("breaks"), t = tunnel(g, {});
  web.answer = async () => ({ status, headers: { "set-cookie": cookies, "content-type": "text/html", "x-more": value, location: "http://localhost:3000/x", ...(conn === undefined ? {} : { [conn[0]]: conn[1] }) }, body, end: breaks ? "breaks" : "ends" });
  const r = t.ask({}, []); await settle();
  g.ensure("its status", r.status === status && r.heads === 1 && r.wrong === undefined);
  g.ensure("its headers, without those of the connection", Object.keys(r.headers).filter((k) => r.headers[k] !== undefined).sort().join() === "content-type,location,set-cookie,x-more" && JSON.stringify(r.headers["set-cookie"]) === JSON.stringify(cookies) && r.headers["x-more"] === value && r.headers["content-type"] === "text/html" && r.headers.location === "http://localhost:3000/x");
  g.ensure("its body", r.pieces.join("") === body.join(""));
  g.ensure("whole, or broken off", breaks ? r.destroyed && !r.ended : r.ended && !r.destroyed);
});
contract("where a request goes", { unroll: 100 }, async (g) => {
  const u = g.choose("url", [undefined, "", ["http://tunnels.test/x", 1], ["http://tunnels.test:8080/", 1], ["https://meticulous-simulation.localhost/a", 1], ["https://meticulous-simulation.localhost:9/a", 1], ["http://api.test/x", "api.test", 80, false], ["https://api.test/x?y", "api.test", 443, true], ["http://api.test:8080/", "api.test", 8080, false], ["https://api.test:8443/", "api.test", 8443, true], ["https://x1.tunnels.test/", "x1.tunnels.test", 443, true], ["http://localhost:9999/", "localhost", 9999, false], ["http://tunnels.test.evil.test/", "tunnels.test.evil.test", 80, false], ["http://127.0.0.1:81/", "127.0.0.1", 81, false], ["not a url", 1]]);
  const all = g.bool("all urls"), rewrite = g.bool("rewrite"), https = g.bool("https"), port = g.choose("port", [3000, 443]), many = g.bool("list"), t = tunnel(g, { proxyAllUrls: all, rewriteHostnameToAppUrl: rewrite, localHttps: https, localPort: port, localHost: "app.local" }), text = Array.isArray(u) ? u[0] : u;
  const r = t.ask(text === undefined ? {} : { "x-meticulous-original-url": many ? [text] : text, ":path": "/p?q" }, []); await settle();
  const away = all && !rewrite && Array.isArray(u) && u[1] !== 1, c = web.calls[0];
  g.ensure("elsewhere only if all may be asked for, else to the app", web.made === 1 && (away ? c.host === u[1] && c.port === u[2] && c.secure === u[3] : c.host === "app.local" && c.port === port && c.secure === https));
  g.ensure("by an agent for that protocol", c.agent === undefined || c.agent.https === c.secure);
  g.ensure("with the path asked for", c.path === (text === undefined ? "/" : "/p?q") && r.status === 200);
});
contract("certificates are checked unless told not to", {}, async (g) => {
  const bad = g.bool("allowed"), https = g.bool("https"), dns = g.bool("dns"), t = tunnel(g, { allowInvalidCert: bad, localHttps: https, enableDnsCache: dns }); t.ask({}, []); await settle(); const c = web.calls[0];
  g.ensure("unless told not to", !https || ((c.rejectUnauthorized ?? c.agent?.options.rejectUnauthorized ?? true) === false) === bad);
  g.ensure("names are remembered if asked to", dns === (c.agent?.cached !== undefined));
});
contract("a request that fails is answered", { unroll: 100 }, async (g) => {
  const code = g.choose("code", ["ECONNREFUSED", "ECONNRESET", "ENOTFOUND", "ETIMEDOUT"]), pieces = g.choose("body", [[], ["a"], ["a", "b", "c"]]), t = tunnel(g, {}); web.answer = async () => { for (let i = 0; i < 20; i++) await undefined; return { error: Object.assign(new Error("no"), { code }) }; };
  const r = t.ask({}, pieces); for (let i = 0; i < 3; i++) await settle();
  g.ensure("as a bad gateway, once", r.status === 502 && r.ended && r.wrong === undefined && r.pieces.join("") === "" && r.heads === 1);
  web.answer = async () => ({ status: 200, body: ["ok"] }); const s = t.ask({}, []); await settle();
  g.ensure("and the next as ever", s.status === 200 && s.pieces.join("") === "ok" && s.ended);
});
contract("a request given up is given up at the app", {}, async (g) => {
  const pieces = g.choose("body", [[], ["a"], ["a", "b"]]), t = tunnel(g, {}), r = t.ask({}, pieces, Object.assign(new Error("aborted"), { code: "ECONNRESET" })); await settle();
  g.ensure("never as if it were whole", web.calls.length === 0 && web.made === 1 && r.status !== 200);
});
contract("requests do not mix", { unroll: 100 }, async (g) => {
  const order = g.choose("order", [[1, 10, 20], [20, 10, 1], [10, 1, 20]]), t = tunnel(g, {}); web.answer = async (c) => { const k = Number(c.path.slice(1)); for (let i = 0; i < order[k]; i++) await undefined; return { status: 200 + k, headers: { "x-k": String(k) }, body: ["b" + k, c.text()] }; };
  const seen = []; t.c.on("request", (e) => { seen.push(e.method + " " + e.path); });
  const rs = [0, 1, 2].map((k) => t.ask({ ":path": "/" + k, ":method": "POST" }, ["q" + k])); await settle();
  g.ensure("each gets its own answer", rs.every((r, k) => r.status === 200 + k && r.headers["x-k"] === String(k) && r.pieces.join("") === "b" + k + "q" + k && r.ended));
  g.ensure("at the same time", web.most === 3);
  g.ensure("each is told", seen.join() === "POST /0,POST /1,POST /2");
});
contract("every connection is served, until it is closed", {}, (g) => {
  const n = g.choose("connections", [1, 2, 4]), sockets = Array.from({ length: n }, () => ({ resumed: 0, resume() { this.resumed++; return this; }, on() { return this; } })), t = tunnel(g, { sockets }), at = g.choose("local address", [undefined, "10.0.0.7", ""]);
  g.ensure("each once, and read from", t.server.sockets.length === n && sockets.every((s) => t.server.sockets.includes(s) && s.resumed >= 1));
  g.ensure("open", t.server.closed === 0); t.c.close(); g.ensure("then closed", t.server.closed === 1);
});
contract("requests leave from the address given", {}, async (g) => {
  const at = g.choose("local address", [undefined, "10.0.0.7", ""]), t = tunnel(g, {}, at === undefined ? {} : { METICULOUS_TUNNEL_CLIENT_REQUEST_LOCAL_ADDRESS: at }); t.ask({}, []); await settle();
  g.ensure("if one is given", web.calls[0].localAddress === (at === "" ? undefined : at));
});
