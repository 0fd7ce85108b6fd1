import { contract } from "vf";
import { transformJsonResponse } from "repo:redaction/src/network-responses/transform-json-response";

const TEXT = ['{"a":1}', "[1,2]", "null", "not json", "", '"x"', "12"];
const parse = (t) => { try { return { ok: true, v: JSON.parse(t) }; } catch { return { ok: false }; } };
contract("a response in scope carries exactly the transformed data", {}, (g) => {
  const text = g.opt("text", () => g.string("t", TEXT));
  const skip = g.oneOf("skip", [true, false, undefined]);
  const scoped = g.bool("scoped");
  const url = g.string("url", ["https://h/api/x", "https://h/other"]);
  const response = { status: g.int("status"), headers: [], content: { text, mimeType: g.string("mime") } };
  const metadata = { request: { url }, extra: g.int("extra") };
  const kept = g.bool("kept");
  const replacement = { masked: g.string("masked") };
  let calls = 0, seen = null, got = null;
  const m = transformJsonResponse({ ...(scoped ? { urlRegExp: /\/api\// } : {}), ...(skip === undefined ? {} : { skipRedactionIfNotValidJSON: skip }), transform: (d, md) => { calls++; seen = md; got = d; return kept ? d : replacement; } });
  const out = m.transformNetworkResponse(response, metadata);
  const p = parse(text ?? "");
  if (scoped && !url.includes("/api/")) { g.ensure("out of scope is untouched", out === response && calls === 0); return; }
  if (!p.ok) {
    g.ensure("no data is passed on", calls === 0);
    if (skip === false) g.eq("invalid text is masked", out, { status: response.status, headers: [], content: { text: "<REDACTED>", mimeType: response.content.mimeType } });
    else g.ensure("invalid text is left when it may be skipped", out === response);
    return;
  }
  g.ensure("called once, with the response", calls === 1 && seen.response === response && seen.request.url === url && seen.extra === metadata.extra);
  if (kept) g.ensure("unchanged data leaves the response", out === response);
  else {
    g.ensure("text is the serialised replacement", out.content.text === JSON.stringify(replacement));
    g.ensure("the rest is kept", out.status === response.status && out.content.mimeType === response.content.mimeType);
  }
  g.ensure("the original response is not changed", response.content.text === text);
});
contract("earlier responses do not affect later ones", {}, (g) => {
  const flags = g.choose("flags", ["", "g", "y", "gi"]);
  const re = new RegExp("/api/", flags);
  const m = transformJsonResponse({ urlRegExp: re, transform: () => "masked" });
  const r = { content: { text: "1" } };
  const url1 = g.string("first", ["/api/x", "x/api/", "/api/api/"]), url2 = g.string("second", ["/api/x", "x/api/", "/Api/"]);
  m.transformNetworkResponse(r, { request: { url: url1 } });
  m.transformNetworkResponse(r, { request: { url: url1 } });
  const out = m.transformNetworkResponse(r, { request: { url: url2 } });
  g.ensure("same as on its own", (out.content.text === '"masked"') === new RegExp("/api/", flags).test(url2));
});
