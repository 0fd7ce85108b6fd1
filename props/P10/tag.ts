import { contract } from "vf";
import { buildScriptTag, escapeAttributeValue } from "repo:recorder-plugin/src/core/snippet";
import { resolveOptions } from "repo:recorder-plugin/src/core/options";
import { shouldInject } from "repo:recorder-plugin/src/core/should-inject";

const EV = ['a"b', "x>y", "<script>", "'&\"", "tok", "&amp;"];
const attr = (s) => s.split("&").join("&amp;").split('"').join("&quot;").split("'").join("&#39;").split("<").join("&lt;").split(">").join("&gt;");
contract("escaping leaves nothing that ends an attribute or a tag", {}, (g) => {
  const s = g.string("s", EV);
  const out = escapeAttributeValue(s);
  g.ensure("no delimiter", !/["'<>]/.test(out));
  g.eq("each delimiter becomes its entity", out, attr(s));
});
contract("any attribute name and value", {}, (g) => {
  const token = g.string("token", EV), snippetUrl = g.string("url", EV), isProduction = g.bool("production");
  const name = g.string("name", ["data-x", "async", "x y", "onload=a", 'a"', "1a", ":b", ""]), value = g.choose("value kind", [0, 1, 2, 3, 4]);
  const v = value === 0 ? g.string("value", EV) : value === 1 ? true : value === 2 ? false : value === 3 ? null : undefined;
  g.assume(!["data-recording-token", "data-is-production-environment", "src", "__proto__"].includes(name));
  const tag = buildScriptTag({ recordingToken: token, snippetUrl, attributes: { [name]: v } }, { isProduction });
  const shown = /^[A-Za-z_:][-A-Za-z0-9_.:]*$/.test(name) && v !== false && v !== null && v !== undefined;
  g.eq("tag", tag, '<script data-recording-token="' + attr(token) + '" data-is-production-environment="' + (isProduction ? "true" : "false") + '" src="' + attr(snippetUrl) + '"' + (shown ? (v === true ? " " + name : " " + name + '="' + attr(v) + '"') : "") + "></script>");
});
contract("attributes override the defaults", {}, (g) => {
  const token = g.string("token", EV), snippetUrl = g.string("url", EV), isProduction = g.bool("production"), v = g.string("v", EV), w = g.string("w", EV), off = g.oneOf("off", [false, null, undefined]);
  g.eq("replaced", buildScriptTag({ recordingToken: token, snippetUrl, attributes: { src: v, "data-recording-token": w, "data-is-production-environment": off } }, { isProduction }), '<script data-recording-token="' + attr(w) + '" src="' + attr(v) + '"></script>');
  g.eq("several", buildScriptTag({ recordingToken: token, snippetUrl, attributes: { "data-x": v, flag: true, gone: off, "not a name": "z", "x onload": "y", z: w } }, { isProduction }),
    '<script data-recording-token="' + attr(token) + '" data-is-production-environment="' + (isProduction ? "true" : "false") + '" src="' + attr(snippetUrl) + '" data-x="' + attr(v) + '" flag z="' + attr(w) + '"></script>');
});
contract("options", {}, (g) => {
  const token = g.opt("token", () => g.string("t")), enabled = g.oneOf("enabled", [undefined, "always", "never", "development"]), given = g.bool("given");
  const inject = g.oneOf("inject", [undefined, "auto", "replace"]);
  const r = g.attempt(() => resolveOptions(given ? { recordingToken: token, enabled, inject, attributes: g.oneOf("attributes", [undefined, { async: true }]) } : undefined));
  const needed = !given || enabled !== "never";
  if (needed && (!given || token === undefined || token === "")) { g.ensure("a missing token is refused", !r.ok); return; }
  g.ensure("accepted", r.ok);
  g.ensure("token", r.value.recordingToken === (token ?? ""));
  g.ensure("enabled in development by default", r.value.enabled === (enabled ?? "development") && r.value.inject === (inject ?? "auto"));
  g.ensure("defaults", r.value.placeholderAttribute === "data-meticulous" && r.value.snippetUrl === "https://snippet.meticulous.ai/v1/meticulous.js" && typeof r.value.attributes === "object");
});
contract("when to inject", {}, (g) => {
  const isProduction = g.bool("production"), answer = g.oneOf("answer", [true, false, undefined, 1, "yes"]);
  g.ensure("always", shouldInject("always", { isProduction }) === true);
  g.ensure("never", shouldInject("never", { isProduction }) === false);
  g.ensure("development", shouldInject("development", { isProduction }) === !isProduction);
  let seen = null; const ctx = { isProduction, framework: "vite" };
  g.ensure("function", shouldInject((c) => { seen = c; return answer; }, ctx) === (answer === true) && seen === ctx);
});
