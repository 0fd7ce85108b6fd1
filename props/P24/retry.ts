import { contract } from "vf";
import { executeWithRetry, computeRetryDelayMs, getRetryAfterMs, defaultShouldRetry } from "repo:common/src/http-retry.utils";

const CODES = ["ECONNRESET", "ETIMEDOUT", "ECONNREFUSED", "ENOTFOUND", "UND_ERR_CONNECT_TIMEOUT", "UND_ERR_HEADERS_TIMEOUT", "UND_ERR_SOCKET", "ERR_SSL_PACKET_LENGTH_TOO_LONG", "ERR_SSL_WRONG_VERSION_NUMBER"];
const timers = (g) => { const waits = []; g.setGlobal("setTimeout", (f, ms) => { waits.push(ms); Promise.resolve().then(f); return 0; }); return waits; };

contract("an operation is attempted again only after a failure that may be retried", { bounded: "up to 4 retries" }, async (g) => {
  const waits = timers(g), max = g.choose("retries", [0, 1, 2, 4]), calls = [], asked = [];
  const r = await g.attemptAsync(() => executeWithRetry(async () => { const k = calls.length; calls.push(k); if (g.bool("fails" + k)) throw { message: "m" + k, n: k }; return { value: k }; }, { maxRetries: max, retryDelay: g.int("delay", 0, 60000), maxRetryDelay: g.int("most", 0, 60000), shouldRetry: (e) => { asked.push(e.n); return g.bool("retry" + e.n); } }));
  let at = 0; while (at < max && g.bool("fails" + at) && g.bool("retry" + at)) at++;
  g.ensure("as many attempts as failures allow, never more than one more than the retries", calls.length === at + 1 && calls.length <= max + 1);
  g.ensure("a wait before each further attempt", waits.length === at);
  g.ensure("the first success is the result", g.bool("fails" + at) || (r.ok && r.value.value === at));
  g.ensure("else the last failure", !g.bool("fails" + at) || (!r.ok && r.error.n === at));
});
contract("without options three retries, and a success needs none", {}, async (g) => {
  const waits = timers(g); let n = 0; const fails = g.choose("fails", [0, 3, 4]), status = g.int("status", 500, 599);
  const r = await g.attemptAsync(() => executeWithRetry(async () => { n++; if (n <= fails) throw { response: { status } }; return n; }));
  g.ensure("four attempts at most", n === (fails === 0 ? 1 : 4) && r.ok === (fails < 4));
  g.ensure("at most half a minute between them", waits.length === n - 1 && waits.every((w) => w >= 0 && w <= 30000));
});
contract("the wait", {}, (g) => {
  const attempt = g.choose("attempt", [0, 1, 2, 3, 7]), retryDelay = g.num("delay", 0, 100000), maxRetryDelay = g.num("most", 0, 100000), x = g.num("random", 0, 1), after = g.choose("after", [true, false]) ? g.num("retry-after", 0, 1000000) : null;
  const d = computeRetryDelayMs(attempt, { retryDelay, maxRetryDelay, retryAfterMs: after }, () => x);
  const back = Math.min(retryDelay * [1, 2, 4, 8, 0, 0, 0, 128][attempt], maxRetryDelay);
  g.ensure("never longer than the maximum and never negative", d >= 0 && d <= maxRetryDelay);
  g.ensure("not before the server asks, unless that is longer than the maximum", after === null || d >= Math.min(after, maxRetryDelay));
  g.ensure("spread by at most a second after a server's answer", after === null || d <= after + 1000);
  g.ensure("otherwise between half and all of the doubling delay", after !== null || (d >= back / 2 && d <= back));
});
contract("what the server asks for", {}, (g) => {
  const now = g.int("now", 0, 4000000000000), kind = g.choose("kind", ["none", "number", "list", "capital", "text", "no headers", "no response", "null"]), s = g.int("seconds", -10, 100000), text = g.string("text", ["soon", "10 minutes"]);
  g.assume(!/^[\s0-9+\-.eExXoObBa-fA-F]*$/.test(text) && !text.includes("Infinity"));
  const h = { none: {}, number: { "retry-after": String(s) }, list: { "retry-after": [String(s), "5"] }, capital: { "Retry-After": s }, text: { "retry-after": "in a while" }, "no headers": undefined, "no response": undefined, null: null }[kind];
  const r = getRetryAfterMs(kind === "null" ? null : kind === "no response" ? {} : { response: { headers: h } }, now);
  if (kind === "number" || kind === "list" || kind === "capital") g.ensure("seconds, never negative", r === (s > 0 ? s * 1000 : 0));
  else g.ensure("nothing", r === null);
});
contract("a date the server asks for", {}, (g) => {
  const now = g.int("now", 0, 4000000000000), at = g.choose("at", ["Thu, 19 Nov 2026 10:00:00 GMT", "Fri, 01 Jan 2038 00:00:01 GMT"]), t = Date.parse(at);
  const r = getRetryAfterMs({ response: { headers: { "retry-after": at } } }, now);
  g.ensure("until then, never negative", r === (t > now ? t - now : 0));
});
contract("the date is compared with the clock", {}, (g) => {
  const now = g.int("now", 0, 4000000000000), D = Date; g.setGlobal("Date", class extends D { static now() { return now; } });
  const r = getRetryAfterMs({ response: { headers: { "retry-after": "Thu, 19 Nov 2026 10:00:00 GMT" } } }), t = D.parse("Thu, 19 Nov 2026 10:00:00 GMT");
  g.ensure("until then", r === (t > now ? t - now : 0));
});
contract("which failures may be retried", {}, (g) => {
  const name = g.string("name", ["AbortError", "Error", "TypeError"]), code = g.opt("code", () => g.string("code", [...CODES, "EPERM"])), cause = g.opt("cause", () => g.string("cause", [...CODES, "EACCES"])), deep = g.bool("deep"), status = g.opt("status", () => g.int("status", 100, 999));
  const inner = cause === undefined ? undefined : { code: cause }, e: any = { name, code, response: status === undefined ? undefined : { status } };
  if (inner !== undefined) e.cause = deep ? { cause: inner } : inner;
  const c = cause ? cause : code;
  g.ensure("aborted, a transient network failure (the innermost cause counts), 429 or 5xx", defaultShouldRetry(e) === (name === "AbortError" || (c !== undefined && CODES.includes(c)) || status === 429 || (status !== undefined && status >= 500)));
});
contract("a failure that causes itself ends", {}, (g) => {
  const e: any = { name: "Error", code: g.string("code", ["ECONNRESET"]) }; e.cause = g.bool("deep") ? { cause: e } : e;
  g.ensure("its code counts", defaultShouldRetry(e) === CODES.includes(e.code));
});
