import sys; sys.path.insert(0,'/verif/notes')
from plant import plant
W="backend-recorder-workerd/src/"
A='import assert from "assert";\n'
CTX='''const buffer = { add: (e: any) => events.push(e), track: (p: any) => { tasks.push(p()); } };
const ctx: any = { mode: "record", requestId: "r", traceId: "t", serverSpanId: "s", buffer, transport: { kind: "url", url: "http://sidecar" }, waitUntil() {} };
'''
plant("s24-truncated-flag","P12",[(W+"body-capture.ts","if (next === TIMED_OUT || !next.done) {","if (next === TIMED_OUT || (!next.done && next.value.byteLength > MAX_BODY_CAPTURE_SIZE)) {")],"a body of exactly the cap in one chunk, followed by another small chunk","a cut body is not marked truncated",A+'''import { readBodyWithCap } from "repo:backend-recorder-workerd/src/body-capture";
export const done = (async () => { const s = new ReadableStream({ start(c) { c.enqueue(new Uint8Array(262144).fill(97)); c.enqueue(new Uint8Array(5).fill(98)); c.close(); } });
assert.equal((await readBodyWithCap(s as any))!.truncated, true); })();''')
plant("s25-secret-list","P12",[(W+"redact-body.ts","  if (Array.isArray(value)) {\n    return value.map(redactValue);","  if (Array.isArray(value)) {\n    return value.every((v) => typeof v !== \"object\") ? value : value.map((v) => (Array.isArray(v) ? v : redactValue(v)));")],"an object inside a list inside a list","its credentials are recorded",A+'''import { redactRequestBody } from "repo:backend-recorder-workerd/src/redact-body";
assert(!redactRequestBody('{"a":[[{"password":"hunter2"}]]}').includes("hunter2"));''')
plant("s26-userinfo","P12",[(W+"spans/url-redaction.ts","if (redacted.username || redacted.password) {","if (redacted.username) {")],"an address with a password and no user name","the password is recorded",A+'''import { redactUrlCredentials } from "repo:backend-recorder-workerd/src/spans/url-redaction";
assert(!redactUrlCredentials(new URL("https://:hunter2@a.b/")).href.includes("hunter2"));''')
plant("s27-octet","P13",[(W+"replay-sidecar-url.ts","first === 192 && second === 168","first === 192 && second >= 168")],"a public address that begins with 192.169 or above","a public host is accepted as the sidecar",A+'''import { parseReplaySidecarUrl } from "repo:backend-recorder-workerd/src/replay-sidecar-url";
assert.equal(parseReplaySidecarUrl("http://192.200.1.1:80/"), undefined);''')
plant("s28-suffix-host","P13",[(W+"replay-sidecar-url.ts","if (ALLOWED_HOSTNAMES.has(lower)) {","if (ALLOWED_HOSTNAMES.has(lower.split(\".\", 3).join(\".\"))) {")],"a public host whose first labels are an allowed name","a public host is accepted as the sidecar",A+'''import { parseReplaySidecarUrl } from "repo:backend-recorder-workerd/src/replay-sidecar-url";
assert.equal(parseReplaySidecarUrl("http://host.docker.internal.evil.com/"), undefined);''')
plant("s29-null-thrown","P14",[(W+"outbound-capture.ts","            error: errorMessage,\n          });\n        },\n        \"outbound-error-report\",\n        \"Failed to report a failed outbound request.\",\n      );\n    }\n    throw error;","            error: errorMessage,\n          });\n        },\n        \"outbound-error-report\",\n        \"Failed to report a failed outbound request.\",\n      );\n    }\n    throw error ?? new Error(errorMessage);")],"a real call that rejects with undefined","the application sees another error",A+'''import { captureOutboundCall } from "repo:backend-recorder-workerd/src/outbound-capture";
const events: any[] = [], tasks: any[] = [];
'''+CTX+'''export const done = (async () => { let e: any = 1; try { await captureOutboundCall(ctx, { kind: "outbound" }, new Request("https://a.b/"), () => Promise.reject(undefined)); } catch (x) { e = x; } assert.equal(e, undefined); })();''')
plant("s30-body-consumed","P14",[(W+"outbound-capture.ts","const responseClone = response.clone();","const responseClone = response.status === 206 ? response : response.clone();")],"a partial-content response","its body is consumed by the recorder",A+'''import { captureOutboundCall } from "repo:backend-recorder-workerd/src/outbound-capture";
const events: any[] = [], tasks: any[] = [];
'''+CTX+'''export const done = (async () => { const r = await captureOutboundCall(ctx, { kind: "outbound" }, new Request("https://a.b/"), async () => new Response("part", { status: 206 })); await Promise.all(tasks); assert.equal(await r.text(), "part"); })();''')
plant("s31-pg-result","P14",[(W+"postgres/with-meticulous-postgres.ts","    return originalReject.call(query, error);","    return originalReject.call(query, error instanceof Error ? error : new Error(String(error)));")],"a query that fails with something that is not an Error","the application gets another error",A+'''import { withMeticulousPostgres } from "repo:backend-recorder-workerd/src/postgres/with-meticulous-postgres";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";
const events: any[] = [], tasks: any[] = [];
'''+CTX+'''class Query { strings: any; args: any = []; got: any; constructor(s: string) { this.strings = [s]; } resolve(_: any) {} reject(e: any) { this.got = e; } handle() {} }
const sql: any = { unsafe: (s: string) => new Query(s) };
withMeticulousPostgres(sql); const q: any = new Query("select 1");
requestCaptureContext.run(ctx, () => { q.handle(); q.reject("denied"); });
assert.equal(q.got, "denied");''')
plant("s32-passthrough","P15",[(W+"fetch-patch.ts","  return ctx.mode === \"replay\"\n    ?","  return ctx.mode === \"replay\" && request.method !== \"OPTIONS\"\n    ?")],"an OPTIONS call during replay","it reaches the real service",A+'''import { installFetchPatch } from "repo:backend-recorder-workerd/src/fetch-patch";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";
const seen: string[] = []; globalThis.fetch = (async (r: any) => { seen.push(typeof r === "string" ? r : r.url); return new Response(JSON.stringify({ outcome: "no-mock" }), { status: 200 }); }) as any;
installFetchPatch();
export const done = (async () => { await requestCaptureContext.run({ mode: "replay", requestId: "r", frontendSessionId: "s", replayId: "p", sidecarUrl: "http://localhost:1", waitUntil() {} } as any, async () => { try { await fetch("https://pay.example/x", { method: "OPTIONS" }); } catch {} });
assert(!seen.some((u) => u.includes("pay.example")), seen.join()); })();''')
plant("s33-virtual-time","P15",[(W+"protocol.ts","!Number.isFinite(parsed) || parsed < 0","Number.isNaN(parsed) || parsed < 0")],"an infinite replay time","it is used",A+'''import { parseVirtualTimeMs } from "repo:backend-recorder-workerd/src/protocol";
assert.equal(parseVirtualTimeMs("1e999"), undefined);''')
plant("s34-late-event","P16",[(W+"capture-buffer.ts","    this.closed = true;\n    await this.flush();","    await this.flush();\n    this.closed = true;")],"an event added while the last batch is being posted","it is never posted",A+'''import { CaptureBuffer } from "repo:backend-recorder-workerd/src/capture-buffer";
const ids: string[] = [];
export const done = (async () => { let b: any; let late = true; globalThis.fetch = (async (_: any, init: any) => { for (const e of JSON.parse(init.body).events) ids.push(e.requestId); if (late) { late = false; b.add({ kind: "inbound", requestId: "2" }); } return new Response(null, { status: 204 }); }) as any;
const waits: any[] = []; b = new CaptureBuffer({ kind: "url", url: "http://s" } as any, (p) => { waits.push(p); }); b.add({ kind: "inbound", requestId: "1" } as any); await b.close(); await Promise.all(waits); await new Promise((r) => setTimeout(r, 20));
assert.deepEqual(ids.sort(), ["1", "2"]); })();''')
plant("s35-flush-order","P16",[(W+"capture-buffer.ts","    this.sending = this.sending.then(() => this.send(batch));\n    return this.sending;","    const sent = this.send(batch);\n    this.sending = Promise.all([this.sending, sent]).then(() => undefined);\n    return this.sending;")],"a large batch still being posted when the next is ready","batches are posted without waiting for the one before",A+'''import { CaptureBuffer } from "repo:backend-recorder-workerd/src/capture-buffer";
export const done = (async () => { let open = 0, most = 0; globalThis.fetch = (async () => { open++; most = Math.max(most, open); await new Promise((r) => setTimeout(r, 20)); open--; return new Response(null, { status: 204 }); }) as any;
const waits: any[] = []; const b = new CaptureBuffer({ kind: "url", url: "http://s" } as any, (p) => { waits.push(p); });
b.add({ kind: "outbound", requestId: "1", requestBody: { body: "x".repeat(3 * 1024 * 1024), truncated: false } } as any); b.add({ kind: "inbound", requestId: "2" } as any); await b.close(); await Promise.all(waits);
assert.equal(most, 1); })();''')
plant("s36-uuid-variant","P17",[(W+"virtual-random.ts","VARIANT[Math.floor(draw() * VARIANT.length)]","VARIANT[Math.round(draw() * VARIANT.length)]")],"a draw close to one","the identifier contains the word undefined",A+'''import { buildUuid } from "repo:backend-recorder-workerd/src/virtual-random";
assert.match((buildUuid as any)(() => 0.95), /^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$/);''') if False else None
plant("s37-epoch-anchor","P17",[(W+"virtual-clock.ts","ctx.clockAnchorMs ?? UNANCHORED_BASE_TIME_MS","ctx.clockAnchorMs || UNANCHORED_BASE_TIME_MS")],"a recording anchored at the epoch","the replay shows another time",A+'''import { installVirtualClock } from "repo:backend-recorder-workerd/src/virtual-clock";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";
installVirtualClock();
requestCaptureContext.run({ mode: "replay", clockAnchorMs: 0 } as any, () => assert.equal(Date.now(), 0));''')
plant("s38-shared-sequences","P17",[(W+"virtual-random.ts","const stateByRequest = new WeakMap<RequestReplayContext, RequestRandomState>();","const stateByRequest = new Map<string, RequestRandomState>();"),(W+"virtual-random.ts","stateByRequest.get(ctx)","stateByRequest.get(ctx.frontendSessionId)"),(W+"virtual-random.ts","stateByRequest.set(ctx, created)","stateByRequest.set(ctx.frontendSessionId, created)")],"two replays of the same session in one isolate","the second replay draws other values than the first",A+'''import { installVirtualRandom } from "repo:backend-recorder-workerd/src/virtual-random";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";
installVirtualRandom();
const draw = () => requestCaptureContext.run({ mode: "replay", frontendSessionId: "s" } as any, () => { const o: number[] = []; for (let i = 0; i < 3; i++) o.push(Math.random()); return o; });
const all = [0, 1].map(() => draw()); assert.deepEqual(all[0], all[1]);''')
plant("s39-mint-empty","P18",[(W+"provisional-session-id.ts","if (getHeader(FRONTEND_SESSION_ID_HEADER) != null) {","if (getHeader(FRONTEND_SESSION_ID_HEADER)) {")],"a request whose session id header is present and empty","an id is minted although one was brought",A+'''import { isProvisionalSessionIdCandidate } from "repo:backend-recorder-workerd/src/provisional-session-id";
assert.equal(isProvisionalSessionIdCandidate("GET", (n) => (n === "x-meticulous-session-id" ? "" : n === "accept" ? "text/html" : null)), false);''')
plant("s40-immutable-body","P18",[(W+"publish-session-id.ts","const rebuilt = new Response(response.body, response);","const rebuilt = new Response(response.body, { headers: response.headers, status: response.status < 400 && response.status !== 302 ? response.status : 302 });")],"an immutable error response or a redirect with another status","the status changes",A+'''import { publishSessionIdOnResponse } from "repo:backend-recorder-workerd/src/publish-session-id";
const r = Response.error ? new Response("x", { status: 503 }) : null; const frozen = new Proxy(r as any, { get: (t, k) => k === "headers" ? { append() { throw new TypeError("immutable"); }, set() { throw new TypeError("immutable"); }, [Symbol.iterator]: () => t.headers[Symbol.iterator](), forEach: (f: any) => t.headers.forEach(f) } : Reflect.get(t, k, t) });
assert.equal(publishSessionIdOnResponse(frozen, "id").status, 503);''')
