import { contract } from "vf";
import { redactUrl } from "repo:redaction/src/generic/redact-url";

const masked = (s) => /^[ *]*$/.test(s);
const shape = (out, proto) => {
  const rest = out.slice(proto.length);
  return out.startsWith(proto) && /^\/\/(\**(:\**)?@)?redacted\.com(:[0-9]+)?(\/redacted|\/)*(#redactedHash)?$/.test(rest);
};
const shapeQ = (out, proto) => {
  const rest = out.slice(proto.length);
  return out.startsWith(proto) && /^\/\/(\**(:\**)?@)?redacted\.com(:[0-9]+)?(\/redacted|\/)*(\?[^#]*)?(#redactedHash)?$/.test(rest);
};
const EG = ["http://a.com/p?x=1", "https://user:pw@host.example:8080/a/b/?q=1&r=2#frag", "http://h?email=a@b.c", "ws://h/x/?a", "foo://h/p?q=2#z", "ftp://u@h/?b=1"];
const parse = (s) => { try { return new URL(s); } catch { return null; } };
contract("url without a query", {}, (g) => {
  const s = g.string("s", EG);
  const u = parse(s);
  g.assume(u === null || u.search === "");
  const out = redactUrl(s);
  if (u === null) { g.ensure("text that is no URL is masked", masked(out) && out.length === s.length); return; }
  g.ensure("only the scheme, the port and the shape survive", (masked(out) && out.length === s.length) || shape(out, u.protocol));
});
contract("url with a query", { bound: 2 }, (g) => {
  const s = g.string("s", EG);
  const u = parse(s);
  g.assume(u !== null && u.search !== "" && u.searchParams.size <= 2);
  const out = redactUrl(s);
  g.ensure("only the scheme, the port, the query and the shape survive", (masked(out) && out.length === s.length) || shapeQ(out, u.protocol));
});
contract("original query parameters are removed", { known: true }, (g) => {
  const out = redactUrl("http://h/?a=secret");
  g.ensure("the value of a parameter is gone", !out.includes("secret"));
});
