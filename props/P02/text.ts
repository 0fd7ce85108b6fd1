import { contract } from "vf";
import { asterixOut } from "repo:redaction/src/generic/asterix-out";
import { redactEmail } from "repo:redaction/src/generic/redact-email";
import { redactUrl } from "repo:redaction/src/generic/redact-url";
import { redactString } from "repo:redaction/src/generic/redact-string";

contract("asterixOut masks every character but spaces", {}, (g) => {
  const s = g.string("s");
  const out = asterixOut(s);
  g.ensure("length is kept", out.length === s.length);
  const i = g.int("i", 0);
  g.assume(i < s.length);
  g.ensure("position", s[i] === " " ? out[i] === " " : out[i] === "*");
});
contract("asterixOut without whitespace", {}, (g) => {
  const s = g.string("s");
  const out = asterixOut(s, { preserveWhitespace: false });
  g.ensure("length is kept", out.length === s.length);
  const i = g.int("i", 0);
  g.assume(i < s.length);
  g.ensure("position", out[i] === "*" || out[i] === "\n" || out[i] === "\r" || out[i] === "\u2028" || out[i] === "\u2029");
});
contract("address redaction keeps only the shape and common domain endings", {}, (g) => {
  const s = g.string("s", ["a@b.com", "x.y@z.io", "com@com.com", "a.b.c@net.org.ai", "@.", "a@b.comm"]);
  const out = redactEmail(s);
  const want = s.split("@").map((l) => l.split(".").map((c) => (c === "com" || c === "net" || c === "org" || c === "io" || c === "ai" ? c : c.replace(/./g, "-"))).join(".")).join("@");
  g.eq("masks components", out, want);
});
const ISO = /^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}\.\d{3}Z$/;
const NUMERIC = /^[$£€¥#]?[\d \-_./]+[%]?$/;
const EG = ["2020-01-02T03:04:05.678Z", "12-34 56", "$9.99", "100%", "#7/8", "John Smith", "http://a.b/c?d=e", "https://a.b", "a@b.com", "plain", "x.y@z.io"];
contract("text that is neither an address nor a URL", {}, (g) => {
  const s = g.string("s", EG);
  g.assume(!s.includes("@") && !s.startsWith("http://") && !s.startsWith("https://"));
  const out = redactString(s);
  if (ISO.test(s)) { g.ensure("timestamps become the epoch", out === "1970-01-01T00:00:00.000Z"); return; }
  g.ensure("length is kept", out.length === s.length);
  const i = g.int("i", 0);
  g.assume(i < s.length);
  if (NUMERIC.test(s)) g.ensure("digits become zero and nothing else changes", "0123456789".includes(s[i]) ? out[i] === "0" : out[i] === s[i]);
  else g.ensure("letters and signs become stars", s[i] === " " ? out[i] === " " : out[i] === "*");
});
contract("addresses are masked as addresses", {}, (g) => {
  const s = g.string("s", EG);
  g.assume(s.includes("@"));
  g.eq("same as the address redactor", redactString(s), redactEmail(s));
});
contract("web addresses are masked as URLs", {}, (g) => {
  const s = g.string("s", EG);
  g.assume(!s.includes("@") && (s.startsWith("http://") || s.startsWith("https://")));
  g.ensure("same as the URL redactor", g.replace(redactUrl, (u) => g.uf("redactUrl", "string", u), () => redactString(s) === redactUrl(s)));
});
