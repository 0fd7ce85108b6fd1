import { contract } from "vf";
import { getReplaySessionInfo, postCaptureEvents, postCoverageReport, postOutboundFetchLookup } from "repo:backend-recorder-workerd/src/sidecar-client";
import { resolveSidecarTransport, transportOrigin } from "repo:backend-recorder-workerd/src/sidecar-transport";
import { SIDECAR_EVENTS_PATH, SIDECAR_PROTOCOL_VERSION, SIDECAR_PROTOCOL_VERSION_HEADER, SIDECAR_REPLAY_COVERAGE_PATH, SIDECAR_REPLAY_OUTBOUND_FETCH_PATH, SIDECAR_REPLAY_SESSION_PATH } from "repo:backend-recorder-workerd/src/protocol";

const AT = "http://localhost:9", BOUND = "https://meticulous-sidecar.invalid";
const HOWS = ["answers", "bad body", "rejects", "throws", "never", "never ends"], STATUS = [200, 204, 301, 400, 404, 500, 503];
// a sidecar that does whatever a sidecar may do, and the clock it is waited for with
const world = (g, data) => {
  const timers = [], asked = [], how = g.choose("how", HOWS), status = how === "rejects" || how === "throws" || how === "never" ? 200 : g.choose("status", STATUS); let n = 0;
  g.setGlobal("console", { warn() {}, log() {}, info() {}, error() {}, debug() {} }); g.setGlobal("setTimeout", (f, ms) => { n++; timers.push({ id: n, f, ms, live: true }); return n; }); g.setGlobal("clearTimeout", (id) => { for (const t of timers) if (t.id === id) t.live = false; });
  const forever = (signal) => new Promise((_, no) => { if (signal !== undefined && signal !== null) signal.addEventListener("abort", () => no(new Error("aborted"))); });
  const answer = (signal) => { if (how === "throws") throw new Error("refused"); if (how === "rejects") return Promise.reject(new Error("refused")); if (how === "never") return forever(signal); const body = (v) => (how === "never ends" ? forever(signal) : how === "bad body" ? Promise.reject(new Error("cut")) : Promise.resolve(v)); return Promise.resolve({ ok: status >= 200 && status < 300, status, json: () => body(data), arrayBuffer: () => body(undefined), text: () => body("") }); };
  const fetchFn = (url, init) => { asked.push({ url, method: init?.method ?? "GET", body: init?.body, version: init?.headers?.[SIDECAR_PROTOCOL_VERSION_HEADER] }); return answer(init?.signal); };
  const bound = { fetch: (r) => { const e = { url: r.url, method: r.method, body: undefined, version: r.headers.get(SIDECAR_PROTOCOL_VERSION_HEADER) }; asked.push(e); return r.text().then((t) => { e.body = t; return answer(r.signal); }); } };
  // what it comes to, once nothing else happens but the limit passing
  const wait = async (f, most) => {
    let done = false, out; const p = g.attemptAsync(f).then((r) => { done = true; out = r; }); for (let i = 0; i < 60 && !done; i++) await undefined; if (g.isSymbolic() === false) for (let i = 0; i < 3 && !done; i++) await new Promise((r) => setImmediate(r));
    const hangs = how === "never" || how === "never ends"; if (!done) { const live = timers.filter((t) => t.live); g.ensure("only if the sidecar does not answer", hangs); g.ensure("it is not waited for ever", live.length > 0 && live.every((t) => t.ms > 0) && live.some((t) => t.ms <= most)); for (const t of live) { t.live = false; t.f(); } await p; }
    g.ensure("nothing is left running", timers.every((t) => !t.live)); g.ensure("it never fails", out.ok); g.ensure("asked once", asked.length === 1 && asked[0].version === SIDECAR_PROTOCOL_VERSION); return out.value;
  };
  return { how, status, fetchFn, bound, asked, wait, ok: how === "answers" && status >= 200 && status < 300 };
};
contract("a report never fails, and is not waited for longer than set", {}, async (g) => {
  const w = world(g), kind = g.choose("transport", ["url", "binding"]), events = g.choose("events", [[], [{ kind: "inbound", n: 1 }, { kind: "outbound", n: 2 }]]); g.setGlobal("fetch", w.fetchFn);
  const v = await w.wait(() => postCaptureEvents(kind === "url" ? { kind, url: AT } : { kind, fetcher: w.bound, instance: w.bound }, events), kind === "url" ? 5000 : 20000);
  const a = w.asked[0]; g.ensure("nothing comes of it", v === undefined); g.ensure("all the events, to the sidecar", a.url === (kind === "url" ? AT : BOUND) + SIDECAR_EVENTS_PATH && a.method === "POST" && a.body === JSON.stringify({ events }));
});
contract("whether a session can be replayed", {}, async (g) => {
  const id = g.string("session", ["s1", "a b&c=?"]), data = g.choose("data", [null, {}, { found: false }, { found: true }, { found: true, clockAnchorMs: 5 }, { found: true, clockAnchorMs: 0 }, { found: true, clockAnchorMs: "5" }, { found: "yes" }]), w = world(g, data);
  const v = await w.wait(() => getReplaySessionInfo(w.fetchFn, AT, id), 15000), a = w.asked[0]; g.ensure("it is that session", a.url === AT + SIDECAR_REPLAY_SESSION_PATH + "?sessionId=" + encodeURIComponent(id) && a.method === "GET");
  const settled = (w.how === "answers" || w.how === "bad body") && w.status < 500; const no = w.status >= 300 ? settled : w.ok && data !== null && data.found !== true, yes = w.ok && data !== null && data.found === true;
  if (w.how === "never ends" && w.status >= 300) { g.ensure("no mocks", v.outcome !== "found"); return; }
  g.ensure("only what the sidecar said is settled", v.outcome === (yes ? "found" : no ? "unavailable" : "unreachable")); if (yes) g.ensure("with its time", v.clockAnchorMs === (typeof data.clockAnchorMs === "number" ? data.clockAnchorMs : undefined));
});
contract("what a call is answered with", {}, async (g) => {
  const data = g.choose("data", [{ outcome: "no-mock" }, { outcome: "mock", statusCode: 200, body: "x", headers: {} }]), payload = { frontendSessionId: g.string("session", ["s1"]), replayId: "r", method: "GET", url: "https://a/" }, w = world(g, data), v = await w.wait(() => postOutboundFetchLookup(w.fetchFn, AT, payload), 10000);
  const a = w.asked[0]; g.ensure("it is that call", a.url === AT + SIDECAR_REPLAY_OUTBOUND_FETCH_PATH && a.method === "POST" && a.body === JSON.stringify(payload)); g.ensure("only the sidecar's own answer", w.ok ? JSON.stringify(v) === JSON.stringify(data) : v === undefined);
});
contract("whether coverage was taken", {}, async (g) => {
  const payload = { replayId: g.string("replay", ["r1"]), hits: [1] }, w = world(g), v = await w.wait(() => postCoverageReport(w.fetchFn, AT, payload), 10000);
  const a = w.asked[0]; g.ensure("it is that coverage", a.url === AT + SIDECAR_REPLAY_COVERAGE_PATH && a.method === "POST" && a.body === JSON.stringify(payload)); const answered = w.how === "answers" || w.how === "bad body";
  if (w.how === "never ends") { g.ensure("not more than was said", v !== "unsupported" || w.status === 404); g.ensure("not taken unless it was", v !== "accepted" || w.status < 300); return; }
  g.ensure("as it said", v === (!answered ? "failed" : w.status === 404 ? "unsupported" : w.status < 300 ? "accepted" : "failed"));
});
contract("where it is reported to", {}, (g) => {
  const f = () => ({ fetch: async () => undefined }), a = f(), b = f(), B = [undefined, null, {}, "x", { fetch: 1 }], ob = g.choose("option binding", [...B, a]), eb = g.choose("env binding", [...B, b]), ou = g.choose("option url", [undefined, "", AT, AT + "//", 5]), eu = g.choose("env url", [undefined, "", "http://e:1/", 5]), how = g.choose("env", ["object", null, undefined, "x"]), given = g.bool("options given");
  const env = how === "object" ? { METICULOUS_SIDECAR: eb, METICULOUS_SIDECAR_URL: eu, other: b } : how, o = given ? { sidecarBinding: ob, sidecarUrl: ou } : undefined, t = resolveSidecarTransport(o, env);
  const none = (x) => x === undefined || x === null, bind = given && !none(ob) ? ob : how === "object" ? eb : undefined, url = given && !none(ou) ? ou : how === "object" ? eu : undefined;
  if (bind === a || bind === b) { g.ensure("a binding first", t !== undefined && t.kind === "binding" && t.fetcher === bind && t.instance === bind && transportOrigin(t) === BOUND); return; }
  if (typeof url === "string" && url !== "") g.ensure("then a URL, without its last slashes", t !== undefined && t.kind === "url" && t.url === (url === "http://e:1/" ? "http://e:1" : AT) && transportOrigin(t) === t.url); else g.ensure("else nowhere", t === undefined);
});
