import { contract } from "vf";
import { redactCookiesAndHeadersInJson } from "repo:debug-workspace/src/generate-debug-workspace";
import { MARK, PAIRS, TOKENS, STORES, attribute, pairs } from "./lib";

const redact = (v, k, c) => redactCookiesAndHeadersInJson(v, k, c), isObject = (v) => v !== null && typeof v === "object" && !Array.isArray(v);
const NAMES = [...PAIRS, ...TOKENS, "state", "customRequestHeaders", "http.request.header.cookie", "http.response.header.set-cookie", "http.request.method", "name", "value", "headers2", "localStorage"];
const field = (child, k, v, c) => (TOKENS.includes(k) && typeof v === "string" ? MARK : attribute(k) && Array.isArray(v) ? v.map(() => MARK) : child(v, k, c));
const reference = (v, k, c) => (Array.isArray(v) ? v.map((x) => (k === "customRequestHeaders" ? (isObject(x) && isObject(x.value) && "value" in x.value ? { ...x, value: { ...x.value, value: MARK } } : reference(x)) : pairs(k, c) && isObject(x) && "value" in x ? { ...x, value: MARK } : reference(x))) : isObject(v) ? Object.fromEntries(Object.entries(v).map(([n, x]) => [n, field(reference, n, x, k)])) : v);
// any outcome of the recursion, by what it is called with
const child = (g) => (v, k, c) => (g.isSymbolic() ? g.uf("child", "json", v, k ?? "", k === "state" ? c ?? "" : "") : reference(v, k, c));
// fields named __proto__ are not data to JavaScript; what becomes of them is left open
const plain = (g, v) => { if (!g.isSymbolic()) g.assume(!JSON.stringify(v).includes("__proto__")); };
contract("every field of an object is redacted under its own name", { bounded: "objects of two fields, of the listed names" }, (g) => {
  const k = g.choose("name", NAMES), first = g.bool("first"), v = g.json("value"), o = g.json("other"), value = first ? { [k]: v, "and": o } : { "and": o, [k]: v }, key = g.choose("key", [undefined, "localStorage", "sessionStorage", "indexedDb", "headers"]), sub = child(g); plain(g, value);
  const out = g.induct(redactCookiesAndHeadersInJson, sub, () => redact(value, key)), after = Object.entries(out), got = out[k];
  g.ensure("its fields", after.length === 2 && after[first ? 0 : 1][0] === k && after[first ? 1 : 0][0] === "and");
  if (TOKENS.includes(k) && typeof v === "string") g.ensure("a token is not kept", got === MARK);
  else if (attribute(k) && Array.isArray(v)) { const j = g.int("j", 0); g.ensure("as many", got.length === v.length); g.assume(j < v.length); g.ensure("no header is kept", got[j] === MARK); }
  else g.eq("value", got, sub(v, k, key));
  g.eq("beside it", out.and, sub(o, "and", key));
});
contract("every element of a list is redacted as the list's name says", {}, (g) => {
  const key = g.choose("key", [undefined, ...NAMES]), container = g.choose("in", [undefined, ...STORES, "indexedDb"]), value = g.json("value", ["arr"]), sub = child(g); plain(g, value);
  const out = g.induct(redactCookiesAndHeadersInJson, sub, () => redact(value, key, container));
  g.ensure("length", out.length === value.length); const i = g.int("i", 0); g.assume(i < value.length);
  const x = value[i], got = out[i];
  if (key === "customRequestHeaders") { g.assume(!isObject(x)); g.eq("what is no pair is redacted itself", got, sub(x)); return; }
  if (pairs(key, container)) { g.assume(x === null || typeof x !== "object"); g.eq("what is no pair is redacted itself", got, sub(x)); return; }
  g.eq("element", got, sub(x));
});
const pair = (g, n) => { const kind = g.choose(n, ["name", "key", "rich", "empty", "number", "nested"]), value = g.string(n + " value", ["s3cret", ""]), name = g.string(n + " name", ["auth"]); return kind === "empty" ? { name } : kind === "key" ? { key: name, value } : kind === "rich" ? { name, value, domain: "d", path: "/", httpOnly: true } : kind === "number" ? { name, value: 5 } : kind === "nested" ? { name, value: { a: [value] } } : { name, value }; };
const masked = (x) => ("value" in x ? { ...x, value: MARK } : x);
contract("every pair of such a list, and nothing else of it", { bounded: "two pairs" }, (g) => {
  const key = g.choose("key", [...PAIRS, "state", "others"]), container = key === "state" ? g.choose("in", STORES) : undefined, value = [pair(g, "one"), pair(g, "two")], out = redact(value, key, container);
  g.eq("masked", JSON.stringify(out), JSON.stringify(key === "others" ? value : value.map(masked)));
});
contract("a header to be sent is masked where its text is", { bounded: "the listed headers" }, (g) => {
  const s = g.string("secret", ["s3cret"]), name = g.string("name", ["Authorization"]), kind = g.choose("kind", ["static", "dynamic", "without", "text", "null"]), item = { name, value: kind === "static" ? { type: "static", value: s } : kind === "dynamic" ? { type: "dynamic" } : kind === "text" ? "x" : kind === "null" ? null : undefined, requestTargets: { type: "all" } }, first = g.bool("first");
  if (kind === "without") delete item.value;
  const out = redact({ replayExecutionOptions: { customRequestHeaders: first ? [item] : [{ name: "a", value: { type: "static", value: "b" } }, item] } });
  g.eq("masked", JSON.stringify(out.replayExecutionOptions.customRequestHeaders[first ? 0 : 1]), JSON.stringify(kind === "static" ? { ...item, value: { type: "static", value: MARK } } : item));
});
contract("wherever it is", { bounded: "the listed places" }, (g) => {
  const s = g.string("secret", ["s3cret"]), other = g.string("other", ["kept"]), list = [{ name: "n", value: s }], have = [{ name: "n", value: MARK }], at = g.choose("at", ["har", "har in a list", "deep", "storage", "flat storage", "span", "snapshot", "timeline", "beside"]);
  const place = (l) => ({ har: { pollyHAR: { a: { log: { entries: [{ request: { url: other, headers: l }, response: { status: 200, headers: l } }] } } } }, "har in a list": [[{ request: { headers: l, cookies: l }, other }]], deep: { a: [{ b: { c: [[[{ cookies: l }]]] } }], other }, storage: { randomEvents: { localStorage: { state: l, other }, sessionStorage: { state: l }, indexedDb: { state: [{ key: other, value: other }] } } }, "flat storage": { o: { localStorageEntries: l, sessionStorageEntries: l, indexedDbEntries: [{ value: other }] } }, span: { backendSpans: [{ attributes: { "http.request.header.cookie": [l[0].value], "http.response.header.x-a": [l[0].value, l[0].value], "http.request.method": other, "url.full": other } }] }, snapshot: [{ data: { requestHeaders: l, responseHeaders: l, url: other } }], timeline: [{ kind: "pollyReplay", data: { pollyRequest: { request: { headers: l }, response: { headers: l } }, matchedRequest: null } }], beside: { session: { recordingToken: l[0].value, id: other }, recording_token: l[0].value, headers: { cookie: other }, cookies: null, state: [{ value: other }] } })[at];
  g.eq("redacted, and the rest kept", JSON.stringify(redact(place(list))), JSON.stringify(place(have)));
});
contract("the list a file is", {}, (g) => {
  const s = g.string("secret", ["s3cret"]), value = [{ name: "n", value: s, domain: null }]; g.eq("masked when it is said to be one", JSON.stringify(redact(value, "cookies")), JSON.stringify([{ name: "n", value: MARK, domain: null }])); g.eq("else kept", JSON.stringify(redact(value)), JSON.stringify(value));
});
contract("other values are kept, and what is given is not changed", {}, (g) => {
  const value = g.json("value", ["null", "bool", "num", "str"]); g.ensure("kept", redact(value, g.choose("key", [undefined, "value", "headers"])) === value);
  const s = g.string("s", ["x"]), given = { cookies: [{ name: "a", value: s }], recording_token: s }, text = JSON.stringify(given); redact(given); g.eq("as it was", JSON.stringify(given), text);
});
