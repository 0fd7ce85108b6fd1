import sys; sys.path.insert(0,'/verif/notes')
from plant import plant
W="backend-recorder-workerd/src/"; S="backend-recorder-sidecar-worker/src/"; C="client/src/"; CO="common/src/"
A='import assert from "assert";\n'
SB=A+'''import { SpanBuilder } from "repo:backend-recorder-workerd/src/spans/span-builder";
const ev = (o: any) => ({ kind: "outbound", requestId: "r", method: "GET", url: "https://a.b/", startTimeMs: 0, endTimeMs: 1, requestHeaders: {}, responseHeaders: {}, statusCode: 200, ...o }) as any;
const ids = (s: any) => [s.spanContext().traceId, s.parentSpanId ?? s.spanContext().spanId].join();
'''
plant("s41-forgotten-request","P19",[(W+"spans/span-builder.ts","    if (existing) {\n      existing.lastSeenMs = event.endTimeMs;","    if (existing) {")],"a request that is still active ten minutes after its first event, and a thousand other requests","its later events go to another trace",SB+'''const b = new SpanBuilder(); const first = ids(b.build(ev({ requestId: "long", endTimeMs: 0 })));
for (let i = 0; i < 1001; i++) b.build(ev({ requestId: "r" + i, endTimeMs: 500000 }));
assert.equal(ids(b.build(ev({ requestId: "long", endTimeMs: 590000 }))), first);
b.build(ev({ requestId: "new", endTimeMs: 700000 }));
assert.equal(ids(b.build(ev({ requestId: "long", endTimeMs: 710000 }))), first);''')
plant("s42-late-stamp","P19",[(W+"spans/span-builder.ts","    if (event.traceId !== undefined && event.serverSpanId !== undefined) {\n      return {","    if (\n      event.traceId !== undefined &&\n      event.serverSpanId !== undefined &&\n      !this.traceContexts.has(event.requestId)\n    ) {\n      return {")],"an unstamped event of a request before a stamped one","the stamped event goes to another trace",SB+'''const b = new SpanBuilder(); b.build(ev({}));
assert.equal(ids(b.build(ev({ traceId: "a".repeat(32), serverSpanId: "b".repeat(16) }))), "a".repeat(32) + "," + "b".repeat(16));''')
FL=A+'''process.env.X = "";
import { flushChunk, newSessionState } from "repo:backend-recorder-sidecar-worker/src/session-store";
const event = { kind: "outbound", requestId: "r", method: "GET", url: "https://a.b/", startTimeMs: 0, endTimeMs: 1, requestHeaders: {} } as any;
const config = { recordingToken: "token", meticulousProjectName: "p", recorderVersion: "1" };
'''
plant("s43-failed-rollover","P20",[(S+"session-store.ts","const failed = { ...current, consecutiveFailures };","const failed = { ...state, consecutiveFailures };")],"the first chunk of a new session fails","the old session, already full, goes on",FL+'''export const done = (async () => { const r = await flushChunk([event], { ...newSessionState(0, "a"), metadataUploaded: true, chunkIndex: 30 }, { write: async (k: string) => { if (!k.endsWith(".json")) throw new Error("no"); } } as any, config, 1000, "b");
assert.equal(r.state.chunkIndex, 0); assert(r.state.sessionId.endsWith("_b")); assert.equal(r.state.metadataUploaded, true); })();''')
plant("s44-shared-state","P20",[(S+"session-store.ts","      current = { ...current, metadataUploaded: true };","      current.metadataUploaded = true;")],"a flush whose state is not stored afterwards (a crash) and is flushed again","the caller's state says the metadata was written",FL+'''export const done = (async () => { const s = newSessionState(0, "a"); Object.freeze(s);
const r = await flushChunk([event], s, { write: async () => {} } as any, config, 1000, "b"); assert.equal(s.metadataUploaded, false); assert.equal(r.state.metadataUploaded, true); assert.equal(r.state.chunkIndex, 1); })();''')
OB=A+'''import { MeticulousRecorderSession } from "repo:backend-recorder-sidecar-worker/src/recorder-session-object";
const disk = new Map<string, any>(); let ops: string[] = [], failAt = -1, n = 0, alarm: number | null = null;
const op = (name: string) => { if (n++ === failAt) throw new Error("crash"); ops.push(name); };
const storage = { get: async (k: string) => disk.get(k), put: async (k: any, v?: any) => { const e = typeof k === "string" ? { [k]: v } : k; op("put " + Object.keys(e).join()); for (const [a, b] of Object.entries(e)) disk.set(a, structuredClone(b)); }, delete: async (k: any) => { op("delete"); for (const a of [k].flat()) disk.delete(a); return 1; }, list: async (o: any) => new Map([...disk].filter(([k]) => k.startsWith(o.prefix)).sort().slice(0, o.limit)), getAlarm: async () => alarm, setAlarm: async (t: number) => { op("alarm"); alarm = t; } };
const post = (events: any[]) => new MeticulousRecorderSession({ storage } as any, { METICULOUS_RECORDING_TOKEN: "t" } as any).fetch(new Request("https://s/events", { method: "POST", body: JSON.stringify(events) }));
const event = (id: string) => ({ kind: "outbound", requestId: id, method: "GET", url: "https://a.b/" + id, startTimeMs: 0, endTimeMs: 1, requestHeaders: {} });
'''
plant("s45-delete-first","P21",[(S+"recorder-session-object.ts","    await this.storage.put(STATE_KEY, nextState);\n    await this.storage.delete([...pending.keys()]);","    await this.storage.delete([...pending.keys()]);\n    await this.storage.put(STATE_KEY, nextState);")],"a crash between two storage operations of a flush","the session's place is lost and the next chunk overwrites the last",OB+'''globalThis.fetch = (async (u: any, i: any) => { const t = new Headers(i.headers).get("x-amz-target"); return new Response(JSON.stringify(t?.endsWith("GetId") ? { IdentityId: "i" } : { Credentials: { AccessKeyId: "a", SecretKey: "b", SessionToken: "c" } })); }) as any;
export const done = (async () => { assert.equal((await post([event("1")])).status, 204); ops = []; const o = new MeticulousRecorderSession({ storage } as any, { METICULOUS_RECORDING_TOKEN: "t" } as any); await o.alarm();
assert(ops.findIndex((x) => x.includes("session")) >= 0 && ops.findIndex((x) => x.includes("session")) < ops.indexOf("delete"), ops.join(";")); })();''')
plant("s46-two-puts","P21",[(S+"recorder-session-object.ts","    await this.storage.put(entries);","    const { [NEXT_SEQ_KEY]: next, ...batches } = entries;\n    await this.storage.put(batches);\n    await this.storage.put(NEXT_SEQ_KEY, next);")],"a crash or failure between the two puts of a report, then another report","the next report overwrites a stored batch",OB+'''export const done = (async () => { alarm = 5; await post([event("0")]); const first = JSON.stringify([...disk].filter(([k]) => k.startsWith("batch")));
for (failAt = n; failAt < n + 3; failAt++) { const before = n; await post([event("1")]); const stored = [...disk].filter(([k]) => k.startsWith("batch")).length; assert(disk.get("seq") === stored, "counter " + disk.get("seq") + " batches " + stored); if (failAt > before + 1) break; failAt = n; await post([event("2")]); assert(disk.get("seq") === [...disk].filter(([k]) => k.startsWith("batch")).length); } })();''')
plant("s47-negative-shard","P22",[(S+"index.ts","hash = Math.imul(hash, 0x01000193) >>> 0;","hash = Math.imul(hash, 0x01000193) | 0;")],"a request id whose hash has its highest bit set","its events reach an object that no flush asks",A+'''import worker from "repo:backend-recorder-sidecar-worker/src/index";
import { SIDECAR_PROTOCOL_VERSION as V, SIDECAR_PROTOCOL_VERSION_HEADER as H } from "repo:backend-recorder-workerd/src/protocol";
const names = new Set<string>(), env: any = { METICULOUS_RECORDING_TOKEN: "t", METICULOUS_SIDECAR_SHARDS: "3", METICULOUS_SESSION: { idFromName: (n: string) => n, get: (n: string) => ({ fetch: async () => { names.add(n); return new Response(null, { status: 204 }); } }) } };
export const done = (async () => { for (let i = 0; i < 40; i++) await worker.fetch(new Request("https://s/v1/events", { method: "POST", headers: { [H]: V }, body: JSON.stringify({ events: [{ requestId: "q" + i }] }) }), env);
assert([...names].every((n) => ["recorder-0", "recorder-1", "recorder-2"].includes(n)), [...names].join()); })();''')
AW='''import { S3StorageBackend } from "repo:backend-recorder-sidecar-worker/src/s3/storage";
'''
plant("s48-kept-rejection","P23",[(S+"s3/storage.ts","    } finally {\n      // Cleared either way: on success the cached value takes over, and on failure the next write\n      // must be able to try again rather than await a rejected promise forever.\n      this.credentialsPromise = undefined;\n    }","    } finally {\n      // On success the cached value takes over.\n      if (this.credentials !== undefined) {\n        this.credentialsPromise = undefined;\n      }\n    }")],"a failed fetch of credentials before the first success","every later write fails",A+AW+'''let bad = true; globalThis.fetch = (async (u: any, i: any) => { const t = new Headers(i.headers).get("x-amz-target"); if (t && bad) throw new Error("no"); return new Response(JSON.stringify(t?.endsWith("GetId") ? { IdentityId: "i" } : { Credentials: { AccessKeyId: "a", SecretKey: "b", SessionToken: "c" } })); }) as any;
export const done = (async () => { const s = new S3StorageBackend(); await assert.rejects(s.write("a", 1)); bad = false; await s.write("a", 1); })();''')
plant("s49-star","P23",[(S+"s3/sigv4.ts","/[!'()*]/g","/[!'()]/g")],"a key with a star","the signature is refused",A+'''import { signRequest } from "repo:backend-recorder-sidecar-worker/src/s3/sigv4";
const hashed: string[] = []; const real = crypto.subtle.digest.bind(crypto.subtle); (crypto.subtle as any).digest = (a: any, d: any) => { hashed.push(new TextDecoder().decode(d)); return real(a, d); };
export const done = (async () => { await signRequest({ method: "PUT", url: "https://h/a*b", region: "r", service: "s3", body: new Uint8Array(), credentials: { accessKeyId: "a", secretAccessKey: "b", sessionToken: "c", expiresAtMs: 0 }, nowMs: 0 } as any); assert(hashed[1].includes("/a%2Ab"), hashed[1]); })();''')
plant("s50-over-maximum","P24",[(CO+"http-retry.utils.ts","return Math.min(retryAfterMs + jitter, maxRetryDelay);","return Math.min(retryAfterMs, maxRetryDelay) + jitter;")],"a Retry-After close to or above the maximum","the wait exceeds the maximum",A+'''import { computeRetryDelayMs } from "repo:common/src/http-retry.utils";
assert(computeRetryDelayMs(0, { retryDelay: 1, maxRetryDelay: 1000, retryAfterMs: 1000 }, () => 0.5) <= 1000);''')
plant("s51-token-once","P24",[(C+"client.ts","    const resolvedToken = await getToken();","    lastToken ??= await getToken();\n    const resolvedToken = lastToken;"),(C+"client.ts","  const makeRequestWithToken = async <T>(","  let lastToken: string | null = null;\n  const makeRequestWithToken = async <T>(")],"a token that is renewed between two requests of one client","the second request carries the old token",A+'''import { seen } from "undici";
import { buildClient } from "repo:client/src/client";
export const done = (async () => { let n = 0; const c = buildClient(async () => "t" + ++n, { warn() {}, debug() {}, info() {} } as any); await c.get("a"); await c.get("b"); assert.deepEqual(seen, ["t1", "t2"]); })();''')
plant("s52-star-suffix","P25",[(CO+"fetch.utils.ts","entry.hostname.replace(/^\\*/, \"\")","entry.hostname.replace(/^\\*\\.?/, \"\")")],"a host that ends with the letters of a star-dot entry","it goes around the proxy",A+'''import { used } from "undici";
import { meticulousFetch } from "repo:common/src/fetch.utils";
process.env.http_proxy = "http://p:1"; process.env.no_proxy = "*.example.com"; delete process.env.NO_PROXY;
meticulousFetch("http://badexample.com/"); meticulousFetch("http://a.example.com/");
assert.deepEqual(used, ["http://p:1", "direct"]);''')
OA=A+'''import fs from "fs"; import os from "os"; import path from "path";
const dir = fs.mkdtempSync(path.join(os.tmpdir(), "m-")); process.env.METICULOUS_DIR = dir;
'''
OR='''const base = fs.mkdtempSync(path.join(os.tmpdir(), "m-")); process.env.HOME = base; (os as any).homedir = () => base;
'''
RF=A+'''import fs from "fs"; import os from "os"; import path from "path";
'''+OR+'''import { getMeticulousLocalDataDir, setMeticulousLocalDataDir } from "repo:common/src/local-data/local-data";
'''
plant("s53-identity-lost","P26",[(C+"oauth/oauth-refresh.ts","...(data.id_token !== undefined ? { idToken: data.id_token } : {}),","...{ idToken: data.id_token as string },")],"a refresh that renews the access token only","the stored identity token is lost",A+'''import { stored } from "./store";
import { getValidAccessToken } from "repo:client/src/oauth/oauth-refresh";
globalThis.fetch = (async () => new Response(JSON.stringify({ access_token: "new", expires_in: 300, token_endpoint: "http://e/" }))) as any;
export const done = (async () => { stored.write({ accessToken: "old", refreshToken: "r", expiresAt: 1, idToken: "id" }); try { assert.equal(await getValidAccessToken(), "new"); assert.equal(stored.read().idToken, "id"); } finally { stored.remove(); } })();''')
plant("s54-kept-login","P26",[(C+"oauth/oauth-refresh.ts","    if (!response.ok) {\n      clearOAuthTokens();\n      return null;","    if (!response.ok) {\n      if (response.status !== 429) {\n        clearOAuthTokens();\n      }\n      return null;")],"a refresh answered with 429","the login is kept although it counts as none",A+'''import { stored } from "./store";
import { getValidAccessToken } from "repo:client/src/oauth/oauth-refresh";
globalThis.fetch = (async (u: any, i: any) => (i?.method === "POST" ? new Response("slow", { status: 429 }) : new Response(JSON.stringify({ token_endpoint: "http://e/" })))) as any;
export const done = (async () => { stored.write({ accessToken: "old", refreshToken: "r", expiresAt: 1 }); try { assert.equal(await getValidAccessToken(), null); assert.equal(stored.read(), null); } finally { stored.remove(); } })();''')
DV=A+'''import { stored } from "./store";
import { performDeviceLogin } from "repo:client/src/oauth/oauth-device-login";
let now = 1e12; Date.now = () => now; const waits: number[] = []; globalThis.setTimeout = ((f: any, ms: number) => { waits.push(ms); now += ms; queueMicrotask(f); return 0; }) as any;
const answers: string[] = []; let asked = 0, late = 0; const start = now, lifetime = LIFE;
globalThis.fetch = (async (u: any, i: any) => { const b = String(i?.body ?? ""); if (!i?.method || i.method === "GET") return new Response(JSON.stringify({ token_endpoint: "http://e/t", device_authorization_endpoint: "http://e/d" })); if (b.includes("code_challenge=")) return new Response(JSON.stringify({ device_code: "d", user_code: "u", verification_uri: "http://v/", expires_in: lifetime })); asked++; if (now > start + lifetime * 1000) late++; const a = answers.shift() ?? "authorization_pending"; return a === "ok" ? new Response(JSON.stringify({ access_token: "t", refresh_token: "r", expires_in: 3 })) : new Response(JSON.stringify({ error: a }), { status: 400 }); }) as any;
'''
plant("s55-slow-down-twice","P27",[(C+"oauth/oauth-device-login.ts","      intervalSeconds += SLOW_DOWN_INCREMENT_SECONDS;","      intervalSeconds =\n        (authorization.interval ?? DEFAULT_POLL_INTERVAL_SECONDS) +\n        SLOW_DOWN_INCREMENT_SECONDS;")],"two slow_down answers","the second does not slow it down",DV.replace("LIFE","600")+'''export const done = (async () => { try { answers.push("slow_down", "slow_down", "ok"); await performDeviceLogin(); assert.deepEqual(waits, [5000, 10000, 15000]); } finally { stored.remove(); } })();''')
plant("s56-after-expiry","P27",[(C+"oauth/oauth-device-login.ts","await sleep(Math.min(intervalSeconds * 1000, remainingMs));","await sleep(intervalSeconds * 1000);")],"a code whose lifetime is no multiple of the interval","its tokens are asked for after it has expired",DV.replace("LIFE","12")+'''export const done = (async () => { try { await assert.rejects(performDeviceLogin()); assert.equal(late, 0); } finally { stored.remove(); } })();''')
