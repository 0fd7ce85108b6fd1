import { contract } from "vf";
import { retryTransientUploadErrors, isTransientUploadError, UploadError } from "repo:client/src/utils/retry-transient-upload-errors";

contract("an upload is repeated only after a transient failure", { bounded: "up to 5 attempts" }, async (g) => {
  const max = g.choose("attempts", [undefined, 1, 2, 4]), n = max ?? 5, calls = [], waits = [], seen = [], base = g.int("base", 0, 100000);
  const code = (k) => (g.bool("transient" + k) ? "ECONNRESET" : "ENOENT"), errors = [];
  const r = await g.attemptAsync(() => retryTransientUploadErrors(async () => { const k = calls.length; calls.push(k); if (g.bool("fails" + k)) { const e = { code: code(k), k }; errors.push(e); throw e; } return { k }; }, { ...(max === undefined ? {} : { maxAttempts: max }), baseDelayMs: base, onRetry: (a, e) => { seen.push([a, e]); }, sleep: async (ms) => { waits.push(ms); } }));
  let at = 0; while (at < n - 1 && g.bool("fails" + at) && g.bool("transient" + at)) at++;
  g.ensure("as many attempts as failures allow", calls.length === at + 1);
  g.ensure("the first success is the result", g.bool("fails" + at) || (r.ok && r.value.k === at));
  g.ensure("else the last failure", !g.bool("fails" + at) || (!r.ok && r.error === errors[at]));
  g.ensure("each repetition is announced", seen.length === at && seen.every(([a, e], i) => a === i + 1 && e === errors[i]));
  g.ensure("and waited for, at most half a minute", waits.length === at && waits.every((w) => w >= 0 && w <= 30000));
  g.ensure("the wait doubles", waits.every((w, i) => w === 30000 || (w <= base * [1, 2, 4, 8][i] * 1.5 && w >= base * [1, 2, 4, 8][i] * 0.5 - 1)));
});
contract("which upload failures are transient", {}, (g) => {
  const status = g.int("status", 0, 999);
  g.ensure("429, 500, 502, 503 and 504", isTransientUploadError(new UploadError(status, "x")) === [429, 500, 502, 503, 504].includes(status));
});
contract("which network failures are transient", {}, (g) => {
  const code = g.any("code", ["undef", "null", "str", "num", "bool"]), CODES = ["ECONNRESET", "ETIMEDOUT", "ECONNABORTED", "EAI_AGAIN", "EPIPE"], e = g.choose("shape", [true, false]) ? { code } : code;
  g.ensure("the listed codes", isTransientUploadError(e) === (e !== code && typeof code === "string" && CODES.includes(code)));
});
contract("a failed upload says how it was answered", {}, (g) => {
  const status = g.int("status", 0, 999), body = g.string("body"), e = new UploadError(status, body);
  g.ensure("status and answer", e.statusCode === status && e.responseBody === body && e instanceof Error && e.message.includes(String(status)) && e.message.includes(body));
});
