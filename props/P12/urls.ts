import { contract } from "vf";
import { redactUrlCredentials } from "repo:backend-recorder-workerd/src/spans/url-redaction";
import { headersToRecord } from "repo:backend-recorder-workerd/src/outbound-capture";

const KEYS = ["sig", "Signature", "AWSAccessKeyId", "X-Goog-Signature"];
const rule = (g, u) => {
  const had = KEYS.map((k) => u.searchParams.getAll(k)), host = u.host, path = u.pathname, hash = u.hash, user = u.username, pass = u.password, href = u.href;
  const out = redactUrlCredentials(u);
  for (let i = 0; i < KEYS.length; i++) {
    const now = out.searchParams.getAll(KEYS[i]);
    if (had[i].length === 0) g.ensure("no signature appears", now.length === 0);
    else g.ensure("no signature survives", now.every((v) => v === "REDACTED" || v === ""));
  }
  g.ensure("no user information survives", user === "" && pass === "" ? out.username === "" && out.password === "" : out.username === "REDACTED" && out.password === "REDACTED");
  g.ensure("the resource is the same", out.protocol === u.protocol && out.host === host && out.pathname === path && out.hash === hash);
  g.ensure("the original is kept", u.href === href && out !== u);
  return out;
};
const EG = ["https://h/p?sig=abc&x=1", "https://u:p@h/?Signature=a&Signature=b", "https://h/?sig=&sig=secret", "https://user@h:8443/a#f", "postgres://u:p@h/db"];
contract("addresses without a query", {}, (g) => {
  const s = g.string("s", EG);
  const r = g.attempt(() => new URL(s));
  g.assume(r.ok && r.value.search === "" && r.value.host !== "");
  rule(g, r.value);
});
contract("addresses with a query", { bounded: "2 query parameters" }, (g) => {
  const n = g.choose("n", [1, 2]), ks = [], vs = [];
  for (let i = 0; i < n; i++) { ks.push(g.choose("key" + i, [...KEYS, "other"])); vs.push(g.string("value" + i, ["", "secret"])); }
  const u = new URL("https://h/p#f");
  for (let i = 0; i < n; i++) u.searchParams.append(ks[i], vs[i]);
  const out = rule(g, u);
  const others = vs.filter((v, i) => ks[i] === "other");
  g.eq("other parameters are kept", out.searchParams.getAll("other"), others);
});
contract("only the allowed headers are recorded", {}, (g) => {
  const name = g.string("name", ["authorization", "Content-Type", "cookie", "x-api-key", "x-meticulous-session-id"]), value = g.string("value", ["v", "application/json"]);
  g.assume(/^[A-Za-z][A-Za-z-]*$/.test(name) && /^[a-z][a-z/]*[a-z]$/.test(value));
  const out = headersToRecord(new Headers([[name, value]]));
  const n = name.toLowerCase(), allowed = n === "content-type" || n === "x-meticulous-session-id";
  g.eq("recorded", out, allowed ? { [n]: [value] } : {});
});
