import { contract } from "vf";
import worker from "repo:backend-recorder-sidecar-worker/src/index";
import { resolveSidecarConfig } from "repo:backend-recorder-sidecar-worker/src/env";
import { SIDECAR_PROTOCOL_VERSION as VERSION, SIDECAR_PROTOCOL_VERSION_HEADER as HEADER } from "repo:backend-recorder-workerd/src/protocol";
import { quiet } from "../P14/lib";

// the namespace of recorder objects: records every request an object is sent
const objects = (g, statuses) => { const calls = []; return { calls, idFromName: (n) => ({ n }), get: (id) => ({ fetch: async (r) => { calls.push({ name: id.n, path: new URL(r.url).pathname, method: r.method, body: r.method === "POST" && new URL(r.url).pathname === "/events" ? await r.json() : null }); return new Response(null, { status: statuses(id.n) }); } }) }; };
const TOKEN = { METICULOUS_RECORDING_TOKEN: "token" };
const report = (events, over = {}) => new Request("https://sidecar" + (over.path ?? "/v1/events"), { method: over.method ?? "POST", headers: { [HEADER]: VERSION, ...(over.headers ?? {}) }, ...(over.method === "GET" || over.method === "HEAD" ? {} : { body: over.raw ?? JSON.stringify({ events }) }) });

contract("without a project or its objects nothing is recorded", {}, async (g) => {
  quiet(g);
  const o = objects(g, () => 204), token = g.choose("token", [undefined, "", "t"]), bound = g.bool("bound");
  g.assume(token === undefined || token === "" || !bound);
  const path = g.choose("path", ["/v1/events", "/v1/flush", "/v1/health", "/"]), method = g.choose("method", ["GET", "POST"]);
  const r = await worker.fetch(report([{ requestId: "a" }], { path, method }), { ...(token === undefined ? {} : { METICULOUS_RECORDING_TOKEN: token }), ...(bound ? { METICULOUS_SESSION: o } : {}) });
  if (method === "GET" && path === "/v1/health") { g.ensure("healthy", r.status === 200); const b = await r.json(); g.ensure("configured exactly with a token", b.ok === true && b.configured === (token === "t")); }
  else g.ensure("refused", r.status === 500);
  g.ensure("no object is asked", o.calls.length === 0);
});
contract("an accepted report reaches one object as it is", {}, async (g) => {
  quiet(g);
  const status = g.bool("stored") ? 204 : g.int("object answers", 400, 599), o = objects(g, () => status), shards = g.choose("shards", [undefined, "1", "3", "x", "-2", "0"]), id = shards === "3" ? g.choose("request", ["", "r1", "\u00e9"]) : g.string("request", ["r1"]);
  const size = g.opt("declared", () => g.int("size", 0, 8388608));
  const r = await worker.fetch(report([{ requestId: id, n: 1 }, { requestId: "other", n: 2 }], size === undefined ? {} : { headers: { "content-length": String(size) } }), { ...TOKEN, METICULOUS_SESSION: o, ...(shards === undefined ? {} : { METICULOUS_SIDECAR_SHARDS: shards }) });
  g.ensure("one object", o.calls.length === 1 && o.calls[0].path === "/events" && o.calls[0].method === "POST");
  g.ensure("every event, in order", o.calls[0].body.length === 2 && o.calls[0].body[0].n === 1 && o.calls[0].body[0].requestId === id && o.calls[0].body[1].n === 2);
  g.ensure("one of the shards", shards === "3" ? ["recorder-0", "recorder-1", "recorder-2"].includes(o.calls[0].name) : o.calls[0].name === "recorder-0");
  g.ensure("accepted exactly when stored", r.status === (status === 204 ? 204 : 500));
});
contract("the reports of one request reach the same object", { bounded: "request ids of up to 3 characters" }, async (g) => {
  quiet(g);
  const o = objects(g, () => 204), shards = g.choose("shards", ["2", "7"]), len = g.choose("length", [0, 1, 2, 3]), cs = [];
  for (let i = 0; i < len; i++) cs.push(g.choose("c" + i, ["a", "\u00e9", "\uffff"]));
  const env = { ...TOKEN, METICULOUS_SESSION: o, METICULOUS_SIDECAR_SHARDS: shards };
  await worker.fetch(report([{ requestId: cs.join("") }]), env);
  await worker.fetch(report([{ requestId: cs.join("") }, { requestId: "z" }]), env);
  g.ensure("the same object", o.calls.length === 2 && o.calls[0].name === o.calls[1].name);
  g.ensure("one of the shards", [0, 1, 2, 3, 4, 5, 6].slice(0, Number(shards)).some((i) => o.calls[0].name === "recorder-" + i));
});
contract("anything else is refused and reaches no object", {}, async (g) => {
  quiet(g);
  const o = objects(g, () => 204), env = { ...TOKEN, METICULOUS_SESSION: o };
  const why = g.choose("why", ["version", "no version", "too large", "no JSON", "no list", "path", "method", "empty"]);
  const version = g.string("version", ["1", "", "02", "3", "2.0"]), path = g.choose("path", ["/", "/v1/event", "/v1/events/", "/events"]), size = g.int("size", 8388609, 999999999999);
  g.assume(why !== "version" || (version !== VERSION && /^[0-9a-z.]+$/.test(version)));
  const over = { version: { headers: { [HEADER]: version } }, "too large": { headers: { "content-length": String(size) } }, "no JSON": { raw: "{" }, "no list": { raw: g.choose("raw", ["{}", "{\"events\":{}}", "{\"events\":\"x\"}", "null", "1", "[]", "\"x\""]) }, path: { path }, method: { method: g.choose("method", ["GET", "PUT", "DELETE"]) } }[why] ?? {};
  const req = why === "no version" ? new Request("https://sidecar/v1/events", { method: "POST", body: "{}" }) : report(why === "empty" ? [] : [{ requestId: "a" }], over);
  const r = await worker.fetch(req, env);
  g.ensure("no object is asked", o.calls.length === 0);
  g.ensure("the status says why", r.status === { version: 400, "no version": 400, "too large": 413, "no JSON": 400, "no list": 400, path: 404, method: 404, empty: 204 }[why]);
});
contract("a flush reaches every object and fails if one fails", { bounded: "3 objects" }, async (g) => {
  quiet(g);
  const shards = g.choose("shards", [undefined, "1", "2", "3"]), bad = g.choose("failing", ["none", "recorder-0", "recorder-2"]), o = objects(g, (n) => (n === bad ? 500 : 204)), n = shards === undefined ? 1 : Number(shards);
  const r = await worker.fetch(report([], { path: "/v1/flush" }), { ...TOKEN, METICULOUS_SESSION: o, ...(shards === undefined ? {} : { METICULOUS_SIDECAR_SHARDS: shards }) });
  g.eq("each object once", o.calls.map((c) => c.name).sort(), ["recorder-0", "recorder-1", "recorder-2"].slice(0, n));
  g.ensure("asked to flush", o.calls.every((c) => c.path === "/flush" && c.method === "POST"));
  g.ensure("fails exactly if one fails", r.status === (o.calls.some((c) => c.name === bad) ? 500 : 204));
});
contract("different requests use different objects", {}, async (g) => {
  quiet(g);
  const o = objects(g, () => 204), env = { ...TOKEN, METICULOUS_SESSION: o, METICULOUS_SIDECAR_SHARDS: g.choose("shards", ["2", "4", "16"]) };
  for (const id of ["a", "b", "c", "d", "0f8fad5b-d9cb-469f-a165-70867728950e", "7c9e6679-7425-40de-944b-e07fc1f90ae7", "request-1", "request-2"]) await worker.fetch(report([{ requestId: id }]), env);
  g.ensure("more than one", o.calls.length === 8 && o.calls.some((c) => c.name !== o.calls[0].name));
});
contract("the environment configures the worker", {}, (g) => {
  const text = g.choose("shards", ["2", "16", "1", "0", "-3", "x", "", "Infinity"]), n = { "2": 2, "16": 16 }[text] ?? 1, opt = (k) => g.opt(k, () => g.string(k + "'", [""]));
  const env: any = { METICULOUS_SIDECAR_SHARDS: text }, token = opt("token"), project = opt("project"), end = opt("endpoint"), bucket = opt("bucket"), region = opt("region"), pool = opt("pool");
  for (const [k, v] of [["METICULOUS_RECORDING_TOKEN", token], ["METICULOUS_PROJECT_NAME", project], ["METICULOUS_S3_ENDPOINT_URL", end], ["METICULOUS_S3_BUCKET", bucket], ["METICULOUS_S3_REGION", region], ["METICULOUS_COGNITO_IDENTITY_POOL_ID", pool]]) if (v !== undefined) env[k] = v;
  const c = resolveSidecarConfig(env);
  g.ensure("a positive whole number of objects, else one", c.shards === n);
  g.ensure("the project", c.recordingToken === (token ?? "") && c.meticulousProjectName === (project ?? "unknown_service") && typeof c.recorderVersion === "string");
  g.ensure("the storage, with nothing that was not set", c.storage.endpointUrl === end && c.storage.bucket === bucket && c.storage.region === region && c.storage.identityPoolId === pool && Object.keys(c.storage).length === [end, bucket, region, pool].filter((v) => v !== undefined).length);
});
