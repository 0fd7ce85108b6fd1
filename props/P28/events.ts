import { contract } from "vf";
import { installKvPatch } from "repo:backend-recorder-workerd/src/kv-patch";
import { withMeticulousPostgres } from "repo:backend-recorder-workerd/src/postgres/with-meticulous-postgres";
import { deserializeCapturedError } from "repo:backend-recorder-workerd/src/error-capture";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";
import { quiet } from "../P14/lib";

const CAP = 262144;
const cut = (json) => (json.length > CAP ? { body: json.slice(0, CAP), truncated: true } : { body: json, truncated: false });
const recording = (g, session = "s") => { const events = []; return { events, ctx: { mode: "record", requestId: g.string("request"), traceId: g.string("trace"), serverSpanId: g.string("span"), frontendSessionId: session, transport: { kind: "url", url: "http://sidecar" }, buffer: { track: () => {}, add: (e) => { events.push(e); } } } }; };
const ours = (e, ctx) => e.requestId === ctx.requestId && e.traceId === ctx.traceId && e.serverSpanId === ctx.serverSpanId && e.frontendSessionId === ctx.frontendSessionId && ("frontendSessionId" in e) === (ctx.frontendSessionId !== undefined);
// a clock that moves on with every operation
const clock = (g) => { const t = g.int("start", 0, 4000000000000), d = g.int("takes", 0, 100000); let now = t; g.setGlobal("Date", class extends Date { static now() { return now; } }); return { start: t, end: t + d, pass: () => { now = t + d; } }; };
const METHODS = ["get", "getWithMetadata", "put", "delete", "list"];
// the namespace the platform provides: its methods are on its prototype
const namespace = (outcome) => { class Namespace {} for (const m of METHODS) Object.defineProperty(Namespace.prototype, m, { value: function (...args) { return outcome(m, args); }, writable: true, configurable: true, enumerable: false }); return new Namespace(); };
const kv = async (g, m, args, outcome, session = "s") => {
  quiet(g); const { events, ctx } = recording(g, session), t = clock(g), b = namespace(() => { t.pass(); return outcome(); });
  installKvPatch({ CACHE: b });
  await g.attemptAsync(() => requestCaptureContext.run(ctx, () => b[m](...args)));
  g.ensure("one event of the operation, with its ids and times", events.length === 1 && events[0].kind === "kv" && events[0].operation === m && events[0].bindingName === "CACHE" && ours(events[0], ctx) && events[0].startTimeMs === t.start && events[0].endTimeMs === t.end);
  return events[0];
};
const binary = (g) => g.choose("unreadable", [["stream", () => new ReadableStream({ pull() { throw new Error("read"); } })], ["binary", () => new Uint8Array([1, 2])], ["binary", () => new ArrayBuffer(2)], ["binary", () => new DataView(new ArrayBuffer(2))]]);

contract("a read records its key, its arguments and what was read", {}, async (g) => {
  const m = g.choose("method", ["get", "getWithMetadata", "delete", "list"]), s = "x\u00e9\n\"", n = 7, key = g.string("key", ["k"]);
  const args = g.choose("arguments", m === "get" ? [0, 1, 2, 3] : [1]), list = [[key], [key, { type: "json", cacheTtl: 60 }], [["a", key]], []][args];
  const [value, read] = g.choose("shape", [() => [s, s], () => [n, n], () => [null, null], () => [undefined, undefined], () => [true, true], () => [{ value: s, metadata: { n, list: [s, null] } }, { value: s, metadata: { n, list: [s, null] } }], () => [new Map([["a", s], ["b", null]]), { a: s, b: null }], () => [{ keys: new Map([["k", { n }]]) }, { keys: { k: { n } } }]])();
  const e = await kv(g, m, list, async () => value);
  g.ensure("its key", args < 2 ? e.key === key : !("key" in e));
  g.eq("its arguments", e.args, cut(JSON.stringify(list)));
  g.eq("what was read", e.result, value === undefined ? undefined : cut(JSON.stringify(read)));
  g.ensure("nothing else", e.value === undefined && e.omitted === undefined && e.error === undefined);
});
contract("a write records its key, its value and its options apart", {}, async (g) => {
  const key = g.string("key", ["k"]), s = g.string("text", ["x"]), n = g.int("number"), opts = g.choose("options", [undefined, { expirationTtl: 60 }]);
  const [value, body] = g.choose("shape", [() => ["plain words", JSON.stringify("plain words")], () => [{ a: s, n: [n] }, JSON.stringify({ a: s, n: [n] })], () => [n, JSON.stringify(n)], () => [undefined, undefined]])();
  const e = await kv(g, "put", opts === undefined ? [key, value] : [key, value, opts], async () => undefined);
  g.ensure("its key", e.key === key);
  g.eq("its arguments without the value", e.args, cut(JSON.stringify(opts === undefined ? [key, null] : [key, null, opts])));
  g.eq("its value", e.value, body === undefined ? undefined : cut(body));
  g.ensure("nothing else", e.result === undefined && e.omitted === undefined && e.error === undefined);
});
contract("a long value is cut and flagged", {}, async (g) => {
  const extra = g.choose("beyond", [-1, 0, 1, 70000]), text = "x".repeat(CAP - 2 + extra), where = g.choose("where", ["read", "written", "argument"]);
  const args = where === "written" ? ["k", text] : where === "argument" ? [text] : ["k"], e = await kv(g, where === "written" ? "put" : "get", args, async () => (where === "read" ? text : null));
  const c = where === "written" ? e.value : where === "argument" ? e.args : e.result, json = JSON.stringify(where === "argument" ? [text] : text);
  g.ensure("flagged when cut", c.truncated === (json.length > CAP) && c.body === json.slice(0, CAP));
});
contract("a secret in a written text is not recorded", {}, async (g) => {
  const secret = g.choose("secret", ["hunter2", "p\u00e4ss"]), name = g.choose("name", ["password", "accessToken", "client_secret"]), text = JSON.stringify(g.bool("nested") ? { user: "me", list: [{ [name]: secret }] } : { user: "me", [name]: secret });
  const e = await kv(g, "put", ["k", text], async () => undefined);
  g.ensure("the rest is", e.value.truncated === false && typeof JSON.parse(e.value.body) === "string" && JSON.parse(JSON.parse(e.value.body)).user === "me");
  g.ensure("the secret is not", !e.value.body.includes(secret) && !e.args.body.includes(secret));
});
contract("a stream or binary value is not read, and named", {}, async (g) => {
  const [why, make] = binary(g), value = make(), where = g.choose("where", ["read", "inside what is read", "written", "inside what is written"]), other = g.bool("with another"), n = 5;
  const inside = { first: n, deep: [value, n], ...(other ? { more: new Uint8Array(1) } : {}) }, seen = { first: n, deep: [null, n], ...(other ? { more: null } : {}) };
  const write = where === "written" || where === "inside what is written", v = where === "read" || where === "written" ? value : inside;
  const e = await kv(g, write ? "put" : "get", write ? ["k", v] : ["k"], async () => (write ? undefined : v));
  g.eq("nothing in its place", write ? e.value : e.result, cut(JSON.stringify(v === value ? null : seen)));
  g.ensure("the first one names the reason", e.omitted === why);
  g.ensure("it can still be read", why !== "stream" || value.locked === false);
  g.eq("the arguments", e.args, cut(JSON.stringify(write ? ["k", null] : ["k"])));
});
contract("a value that has no text is left out", {}, async (g) => {
  const circular: any = { a: 1 }; circular.self = circular;
  const v = g.choose("value", [circular, { toJSON() { throw new Error("no"); } }, [1n], { get a() { throw new Error("get"); } }]), write = g.bool("written");
  const e = await kv(g, write ? "put" : "get", write ? ["k", v] : ["k"], async () => (write ? undefined : v));
  g.ensure("the rest is recorded", e.key === "k" && e.value === undefined && e.result === undefined && e.error === undefined && e.args.body === (write ? "[\"k\",null]" : "[\"k\"]"));
});
contract("a failed operation records what was thrown", {}, async (g) => {
  const text = g.string("message", ["down"]), what = g.choose("thrown", ["error", "text", "undefined", "no text"]), m = g.choose("method", METHODS), session = g.choose("session", ["s", undefined]), thrown = { error: new Error(text), text, undefined: undefined, "no text": Object.create(null) }[what];
  const e = await kv(g, m, ["k", "v"], async () => { throw thrown; }, session);
  g.ensure("its text", typeof e.error === "string" && (what === "error" ? e.error === "Error: " + text || e.error === "Error" && text === "" : what === "text" ? e.error === text : what === "undefined" ? e.error === "undefined" : true));
  g.ensure("no result", e.result === undefined && (m !== "put" || e.value.body === "\"v\""));
});

// the client the driver provides
const sql = () => {
  class Query { strings: any; args: any; resolve: any; reject: any; constructor(strings, args) { this.strings = strings; this.args = args; this.resolve = () => {}; this.reject = () => {}; } }
  Object.defineProperty(Query.prototype, "handle", { value: function () { this.executed = true; }, configurable: true, writable: true, enumerable: false });
  return { unsafe: (t) => new Query([t], []), Query };
};
const query = (g, q, settle, session = "s") => {
  quiet(g); const { events, ctx } = recording(g, session), t = clock(g), db: any = sql(); withMeticulousPostgres(db);
  const x: any = Object.assign(new db.Query(q.strings ?? ["select 1"], q.args), q.over ?? {});
  requestCaptureContext.run(ctx, () => x.handle()); t.pass(); settle(x);
  g.ensure("one event of the query, with its ids and times", events.length === 1 && events[0].kind === "postgres" && ours(events[0], ctx) && events[0].startTimeMs === t.start && events[0].endTimeMs === t.end);
  return events[0];
};
const rowsOf = (list, meta) => Object.assign(list, meta);
contract("a query records its text, its parameters and its row mode", {}, (g) => {
  const a = g.string("a"), b = g.string("b"), v = g.string("value"), n = g.int("number"), args = g.choose("arguments", [[v, n, null], [], null, "text", [1n]]), raw = g.choose("rows", [undefined, false, true, "values"]);
  const e = query(g, { strings: [a, b], args, over: raw === undefined ? {} : { isRaw: raw } }, (x) => x.resolve([]), g.choose("session", ["s", undefined]));
  g.ensure("its text", e.queryText === a + "$1" + b);
  g.ensure("its parameters", e.params === (args === null || args === "text" || args[0] === 1n ? "[]" : JSON.stringify(args)));
  g.ensure("its row mode", e.rowMode === (raw === "values" ? "values" : raw === true ? "raw" : ""));
});
contract("a query records its rows and what describes them", {}, (g) => {
  const v = g.string("value"), n = 12, rows = g.choose("rows", [[{ id: n, name: v }, { id: null, name: "x" }], [[n, v]], []]), [count, command]: any[] = g.choose("count and command", [[n, v], [null, null], [undefined, undefined], ["2", 3]]);
  const columns = g.choose("columns", [undefined, [{ name: v, type: 25, table: 7, number: 1, parser: () => 1 }, { name: "id" }, null]]), statement = g.choose("statement", [undefined, { string: v, types: [25], name: "s1", columns: 1 }, {}]);
  const e = query(g, { args: [] }, (x) => x.resolve(rowsOf([...rows], { count, command, columns, statement })));
  g.eq("the result", e.result, cut(JSON.stringify({ rows, count: typeof count === "number" ? count : null, command: typeof command === "string" ? command : null, columns: columns === undefined ? [] : [{ name: v, type: 25, table: 7, number: 1 }, { name: "id", type: 0, table: 0, number: 0 }, { name: "", type: 0, table: 0, number: 0 }], statement: statement === undefined ? null : statement.name === "s1" ? { string: v, types: [25], name: "s1" } : { string: "", types: [], name: "" } })));
  g.ensure("no error", !("errorJson" in e));
});
contract("several statements record one result each", { bounded: "2 statements" }, (g) => {
  const v = g.string("value"), one = (rows, command) => rowsOf(rows, { command, count: rows.length }), plain = g.bool("rows that are lists");
  const e = query(g, { args: [] }, (x) => x.resolve(plain ? rowsOf([[v], [v]], { command: "SELECT", count: 2 }) : [one([{ v }], "SELECT"), one([], "INSERT")]));
  const none = { columns: [], statement: null };
  g.eq("the results", e.result, cut(JSON.stringify(plain ? { rows: [[v], [v]], count: 2, command: "SELECT", ...none } : [{ rows: [{ v }], count: 1, command: "SELECT", ...none }, { rows: [], count: 0, command: "INSERT", ...none }])));
});
contract("a result that has no text is left out, and none is kept", {}, (g) => {
  const circular: any = {}; circular.self = circular;
  const r = g.choose("result", [[circular], [1n], undefined, null]), e = query(g, { args: [] }, (x) => x.resolve(r));
  g.ensure("no result without text", (r === null || r === undefined) ? JSON.parse(e.result.body).rows.length === 0 : e.result === undefined);
  g.ensure("no error", e.errorJson === undefined);
});
contract("a failed query records its error, which can be read back", {}, (g) => {
  const message = g.string("message"), code = g.string("code"), n = g.int("position"), name = g.choose("name", ["PostgresError", "Error"]), kind = g.choose("kind", ["error", "text", "bare"]);
  const err: any = kind === "text" ? message : kind === "bare" ? undefined : Object.assign(new Error(message), { code, position: n, detail: null, query: "select secret", parameters: ["secret"], args: [1], types: [2], name });
  const e = query(g, { args: [] }, (x) => x.reject(err));
  g.ensure("no result", e.result === undefined && typeof e.errorJson === "string");
  const back: any = deserializeCapturedError(e.errorJson, { unparseableMessage: "unreadable", fallbackMessage: "unknown" });
  g.ensure("an error of that message", back instanceof Error && back.message === (kind === "bare" ? "undefined" : message) && back.name === (kind === "error" ? name : "Error"));
  if (kind === "error") g.ensure("and those fields, without the debug fields", back.code === code && back.position === n && back.detail === null && !["query", "parameters", "args", "types"].some((k) => k in back));
});
contract("any text is read as some error", {}, (g) => {
  const text = g.choose("text", ["{", "", "null", "1", "[]", "\"x\"", "{}", "{\"message\":1,\"code\":\"c\"}", "{\"message\":\"m\",\"name\":2}"]);
  const e: any = deserializeCapturedError(text, { unparseableMessage: "unreadable", fallbackMessage: "unknown" });
  g.ensure("an error", e instanceof Error && e.name === "Error");
  g.ensure("with a message", e.message === (text === "{" || text === "" ? "unreadable" : text.includes("\"m\"") ? "m" : "unknown") && (text.includes("code") ? e.code === "c" : true));
});
