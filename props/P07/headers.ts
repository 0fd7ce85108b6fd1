import { contract } from "vf";
import { redactCookies } from "repo:redaction/src/network-requests/redact-cookies";
import { dropRequestHeader } from "repo:redaction/src/network-requests/drop-request-header";

const HN = ["Cookie", "COOKIE", "set-cookie", "Set-Cookie", "Authorization", "X-A", "cookie2"];
const CV = ["a=1; b=2", "SID=x=y;a", " sid = 1 ;B=2", "b", "=x", "sid=1;sid=2", "session_id=3", ""];
const NAMES = ["sid", "SID", "Session_ID", "b"];
const headers = (g) => g.array("headers", () => ({ name: g.string("name", HN), value: g.string("value", CV) }));
const spec = (value, names) => value.split(";").map((c) => c.trim()).map((c) => {
  const at = c.indexOf("=");
  const name = at < 0 ? null : c.slice(0, at).trim();
  return name !== null && names.some((n) => n.toLowerCase() === name.toLowerCase()) ? name + "=******" : c;
}).join("; ");
const masked = (g, kind) => {
  const names = g.array("names", () => g.string("cookie", NAMES));
  const m = redactCookies(names);
  const input = { url: "u", headers: headers(g), extra: g.int("extra") };
  const out = kind === "request" ? m.transformNetworkRequest(input) : m.transformNetworkResponse(input);
  g.ensure("rest is kept", out.url === "u" && out.extra === input.extra && out.headers.length === input.headers.length);
  const i = g.int("i", 0);
  g.assume(i < input.headers.length);
  const h = input.headers[i];
  g.ensure("name is kept", out.headers[i].name === h.name);
  g.eq("value", out.headers[i].value, h.name.toLowerCase() === (kind === "request" ? "cookie" : "set-cookie") ? spec(h.value, names) : h.value);
};
contract("named cookies are masked in every request header", {}, (g) => masked(g, "request"));
contract("named cookies are masked in every response header", {}, (g) => masked(g, "response"));
contract("a dropped header is gone and the others are kept in order", {}, (g) => {
  const name = g.string("dropped", ["authorization", "Cookie", "x-a"]);
  const m = dropRequestHeader(name);
  const input = { url: "u", headers: headers(g), extra: g.int("extra") };
  const out = m.transformNetworkRequest(input);
  g.ensure("rest is kept", out.url === "u" && out.extra === input.extra);
  g.eq("headers", out.headers, input.headers.filter((h) => h.name.toLowerCase() !== name.toLowerCase()));
});
contract("cookie and header redaction is not applied again at replay time", {}, (g) => {
  g.ensure("cookies", redactCookies(["a"]).applyRequestTransformationAtReplayTime === false);
  g.ensure("header", dropRequestHeader("a").applyRequestTransformationAtReplayTime === false);
});
