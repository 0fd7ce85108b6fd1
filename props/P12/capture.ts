import { contract } from "vf";
import { readBodyWithCap, readRequestBodyWithCap } from "repo:backend-recorder-workerd/src/body-capture";
import { redactRequestBody } from "repo:backend-recorder-workerd/src/redact-body";

const MAX = 262144;
const chunk = (text) => ({ text, byteLength: text.length, subarray: (a, b) => chunk(text.slice(a, b)) });
const decoder = (g) => g.setGlobal("TextDecoder", class { decode(c) { return c === undefined ? "" : c.text; } });
const big = "0123456789abcdef".repeat(8192);
const source = (g, n) => {
  decoder(g);
  const texts = [];
  for (let i = 0; i < n; i++) texts.push(g.isSymbolic() ? g.string("chunk" + i) : g.choose("chunk" + i, ["", "a", big, big + big, big + big + "x", g.string("c" + i)]));
  const end = g.choose("end", ["done", "stalls", "fails"]);
  let at = 0, cancelled = 0;
  const reader = {
    read: () => { if (at < texts.length) { const value = chunk(texts[at]); at++; return Promise.resolve({ done: false, value }); } return end === "done" ? Promise.resolve({ done: true, value: undefined }) : end === "stalls" ? new Promise(() => {}) : Promise.reject(new Error("reset")); },
    cancel: () => { cancelled++; return g.bool("cancel fails") ? Promise.reject(new Error("no")) : Promise.resolve(); },
  };
  return { texts, end, stream: { getReader: () => reader }, cancelled: () => cancelled };
};
const rule = async (g, n) => {
  const s = source(g, n);
  let total = 0;
  for (const t of s.texts) { g.assume(t.length > 0 || total < MAX); total = total + t.length; }
  const r = await g.attemptAsync(() => readBodyWithCap(s.stream));
  g.ensure("the stream is released", s.cancelled() === 1 && g.timersPending() === 0);
  if (!r.ok) { g.ensure("fails only with the stream", s.end === "fails"); return; }
  const whole = s.texts.join("");
  g.ensure("text up to the cap", r.value.body === (total > MAX ? whole.slice(0, MAX) : whole));
  g.ensure("truncated exactly when something is missing", r.value.truncated === (total > MAX || s.end === "stalls"));
};
contract("no body", {}, async (g) => { g.ensure("nothing", (await readBodyWithCap(null)) === undefined && (await readRequestBodyWithCap(null)) === undefined); });
contract("an empty stream", {}, async (g) => { await rule(g, 0); });
contract("one chunk", { bounded: "1 chunk" }, async (g) => { await rule(g, 1); });
contract("two chunks", { bounded: "2 chunks" }, async (g) => { await rule(g, 2); });
contract("a request body is redacted after the capture", {}, async (g) => {
  const s = source(g, 1);
  g.assume(s.end === "done" && s.texts[0].length < 1000);
  const red = (t) => (g.isSymbolic() ? g.uf("redacted", "string", t) : redactRequestBody(t));
  const out = await g.replace(redactRequestBody, red, () => readRequestBodyWithCap(s.stream));
  g.ensure("redacted", out.body === red(s.texts[0]) && out.truncated === false);
});
