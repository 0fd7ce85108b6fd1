import { contract } from "vf";
import { redactRequestBody, redactValue, STR_REDACTED } from "repo:backend-recorder-workerd/src/redact-body";

const KEYS = ["token", "Access_Token", "client-secret", "PASSWORD", "api_key", "tokens", "name", "id-token", "_", "privatekey", "authorization", "refreshToken", "credential", "secret"];
const SECRET = ["accesstoken", "apikey", "authorization", "clientsecret", "credential", "idtoken", "password", "privatekey", "refreshtoken", "secret", "token"];
const secret = (k) => SECRET.includes(k.toLowerCase().split("_").join("").split("-").join(""));
// any outcome of the recursion
const child = (g) => (v) => (g.isSymbolic() ? g.uf("child", "json", v) : reference(v));
const reference = (v) => (Array.isArray(v) ? v.map(reference) : v !== null && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, e]) => [k, secret(k) ? STR_REDACTED : reference(e)])) : v);
contract("every field of an object: masked when its name is secret, else redacted itself", {}, (g) => {
  const value = g.dict("fields", (e) => e.json("value"), KEYS);
  const sub = child(g);
  const out = g.induct(redactValue, sub, () => redactValue(value));
  const before = Object.entries(value), after = Object.entries(out);
  g.ensure("number of fields", after.length === before.length);
  const i = g.int("i", 0);
  g.assume(i < before.length);
  g.ensure("key", after[i][0] === before[i][0]);
  g.eq("value", after[i][1], secret(before[i][0]) ? STR_REDACTED : sub(before[i][1]));
});
contract("every element of a list is redacted itself", {}, (g) => {
  const value = g.json("value", ["arr"]);
  const sub = child(g);
  const out = g.induct(redactValue, sub, () => redactValue(value));
  g.ensure("length", out.length === value.length);
  const i = g.int("i", 0);
  g.assume(i < value.length);
  g.eq("element", out[i], sub(value[i]));
});
contract("other values are kept", {}, (g) => {
  const value = g.json("value", ["null", "bool", "num", "str"]);
  g.ensure("kept", redactValue(value) === value);
});
contract("a recorded body is the redacted data, or the text itself when it is not JSON", {}, (g) => {
  const text = g.string("text", ['{"token":"x"}', "[{}]", "1", "", "a=b", '{"token":', '"t"']);
  let ok = true, data;
  try { data = JSON.parse(text); } catch { ok = false; }
  const sub = child(g);
  const out = g.replace(redactValue, sub, () => redactRequestBody(text));
  if (ok && text.length > 0) g.eq("serialised redacted data", out, JSON.stringify(sub(data)));
  else g.ensure("not JSON: the same text", out === text);
});
contract("a secret field by any spelling", {}, (g) => {
  const name = g.choose("name", SECRET), seps = g.choose("sep", ["", "_", "-", "__"]), at = g.choose("at", [0, 1, 3, 5, 8, 13]), up = g.bool("upper"), v = g.string("v");
  const k = name.slice(0, at) + seps + name.slice(at);
  g.eq("gone", redactValue({ a: [{ [up ? k.toUpperCase() : k]: v }], keep: v }), { a: [{ [up ? k.toUpperCase() : k]: STR_REDACTED }], keep: v });
});
