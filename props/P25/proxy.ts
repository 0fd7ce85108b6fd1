import { contract } from "vf";
import { meticulousFetch } from "repo:common/src/fetch.utils";

// the dispatcher each request is sent with
const sent = (g, env) => { const calls = []; g.setGlobal("process", { env }); g.setGlobal("fetch", async (input, init) => { calls.push({ input, init, by: init.dispatcher }); return new Response("ok"); }); return calls; };
const EG = ["https://app.meticulous.ai/api/x", "http://app.meticulous.ai/", "https://localhost:3000/x", "http://10.0.0.1:8080/", "https://a.b.example.com:8443/"];
const through = (d, uri) => (uri ? d.kind === "proxy" && d.uri === uri : d.kind === "direct");
const HTTP = "http://proxy:1", HTTP2 = "http://other:2", HTTPS = "http://secure:3";

contract("a request goes through the proxy configured for its protocol", {}, async (g) => {
  const raw = g.string("url", EG), lower = g.opt("http_proxy", () => g.choose("lower", [HTTP, ""])), upper = g.opt("HTTP_PROXY", () => HTTP2), ls = g.opt("https_proxy", () => g.choose("lowers", [HTTPS, ""])), us = g.opt("HTTPS_PROXY", () => HTTPS + "/u");
  const u = g.attempt(() => new URL(raw)); g.assume(u.ok);
  const env: any = {}; if (lower !== undefined) env.http_proxy = lower; if (upper !== undefined) env.HTTP_PROXY = upper; if (ls !== undefined) env.https_proxy = ls; if (us !== undefined) env.HTTPS_PROXY = us;
  const calls = sent(g, env), input = g.choose("input", ["text", "address", "request"]), init = { method: "POST", headers: { a: "b" } };
  await meticulousFetch(input === "text" ? raw : input === "address" ? u.value : ({ url: raw } as any), init);
  const http = lower ?? upper, https = ls ?? us ?? http;
  g.ensure("one request", calls.length === 1 && calls[0].init.method === "POST" && calls[0].init.headers === init.headers);
  g.ensure("by that proxy, or directly when there is none", through(calls[0].by, u.value.protocol === "https:" ? https : http));
});
contract("what has no address goes directly", {}, async (g) => {
  const raw = g.string("url", ["/relative", "", "x"]); g.assume(!g.attempt(() => new URL(raw)).ok);
  const calls = sent(g, { http_proxy: HTTP, https_proxy: HTTPS }), input: any = g.choose("input", ["text", "request", "number", "nothing"]);
  await meticulousFetch(input === "text" ? raw : input === "request" ? ({ url: raw } as any) : input === "number" ? ({ url: 5 } as any) : (null as any));
  g.ensure("directly", calls.length === 1 && calls[0].by.kind === "direct");
});
const target = (g) => {
  const raw = g.string("url", EG), u = g.attempt(() => new URL(raw)); g.assume(u.ok && (u.value.protocol === "https:" || u.value.protocol === "http:") && u.value.port !== "0");
  return { raw, host: u.value.hostname.toLowerCase(), port: u.value.port === "" ? (u.value.protocol === "https:" ? "443" : "80") : u.value.port };
};
const NAMES = ["app.meticulous.ai", "meticulous.ai", "localhost", "example.com", "b.example.com"];
contract("a host that is excepted is reached directly", {}, async (g) => {
  const t = target(g), p = g.choose("port", ["", "443", "80", "8443"]), name = p === "" ? g.string("name", NAMES) : g.choose("listed", NAMES), how = g.choose("how", ["exact", "dot", "star", "all"]);
  g.assume(/^[a-z0-9-][a-z0-9.-]*$/.test(name));
  const calls = sent(g, { http_proxy: HTTP, https_proxy: HTTP, no_proxy: (how === "exact" ? name : how === "dot" ? "." + name : how === "star" ? "*." + name : "*") + (p === "" ? "" : ":" + p) });
  await meticulousFetch(t.raw);
  g.ensure("directly exactly when the entry covers its name and port", through(calls[0].by, (p === "" || p === t.port) && (how === "exact" ? t.host === name : how === "all" ? true : t.host.endsWith("." + name)) ? undefined : HTTP));
});
contract("every entry counts", {}, async (g) => {
  const t = target(g), a = g.string("a", NAMES), b = g.string("b", NAMES), form = g.choose("form", [",", " ", " ,,\t", "\n"]), v = g.choose("variable", ["no_proxy", "NO_PROXY"]), suffix = g.choose("suffix", ["", "."]);
  g.assume(/^[a-z0-9-][a-z0-9.-]*$/.test(a) && /^[a-z0-9-][a-z0-9.-]*$/.test(b));
  const calls = sent(g, { http_proxy: HTTP, https_proxy: HTTP, [v]: (form === "," ? "" : ", ") + a + form + suffix + b + (form === "," ? "" : ",") });
  await meticulousFetch(t.raw);
  g.ensure("directly exactly when one covers it", through(calls[0].by, t.host === a || (suffix === "" ? t.host === b : t.host.endsWith("." + b)) ? undefined : HTTP));
});
contract("names are compared without regard to case", {}, async (g) => {
  const raw = g.string("url", EG), u = g.attempt(() => new URL(raw)); g.assume(u.ok && u.value.protocol === "https:");
  const name = g.string("name", ["LOCALHOST", "App.Meticulous.AI"]); g.assume(/^[A-Za-z0-9-]+$/.test(name) || /^[A-Za-z0-9-]+\.[A-Za-z0-9-]+$/.test(name));
  const calls = sent(g, { https_proxy: HTTPS, no_proxy: name });
  await meticulousFetch(raw);
  g.ensure("same name", through(calls[0].by, u.value.hostname.toLowerCase() === name.toLowerCase() ? undefined : HTTPS));
});
contract("the lower-case exceptions win, and changes of the environment count", {}, async (g) => {
  const lower = g.choose("lower", ["a.example", ""]), env: any = { https_proxy: HTTPS, no_proxy: lower, NO_PROXY: "b.example" }, calls = sent(g, env);
  await meticulousFetch("https://a.example/"); await meticulousFetch("https://b.example/"); env.https_proxy = HTTP; await meticulousFetch("https://b.example/");
  g.ensure("each as configured at its time", through(calls[0].by, lower === "" ? HTTPS : undefined) && through(calls[1].by, HTTPS) && through(calls[2].by, HTTP));
});
