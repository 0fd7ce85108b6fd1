import { contract } from "vf";
import { injectIntoHtml } from "repo:recorder-plugin/src/core/inject-html";

const HTML = ["<html><head></head></html>", "<HEAD class='x'><title>a</title></HEAD>", "<header></header><head>", "no html", "<head><script data-meticulous></script><head>", "<script data-meticulous src=\"x\">  </script>", "<script data-meticulous-x></script><head >", "<script></script>"];
const head = /<head(?![-\w])[^>]*>/i;
const inserted = (g, html, tag, out) => {
  const at = out.indexOf(tag, 0);
  const m = head.exec(html);
  const p = m.index + m[0].length;
  g.ensure("directly after the first head tag", out === html.slice(0, p) + tag + html.slice(p));
};
contract("automatic mode inserts once, directly inside the head", {}, (g) => {
  const html = g.string("html", HTML), tag = g.string("tag", ["<script src=\"$&\"></script>", "<script $1></script>"]);
  const r = injectIntoHtml(html, tag, "auto", "data-meticulous");
  if (head.test(html)) { g.ensure("injected without warning", r.injected === true && r.warning === undefined); inserted(g, html, tag, r.html); }
  else g.ensure("no head: unchanged, with a warning", r.html === html && r.injected === false && typeof r.warning === "string" && r.warning.length > 0);
});
const placeholder = /<script\b[^>]*\bdata-meticulous(?![-\w])[^>]*>(?:\s*<\/script>)?/i;
contract("replace mode replaces the first placeholder by the tag itself", {}, (g) => {
  const html = g.string("html", HTML), tag = g.string("tag", ["<script src=\"$&\"></script>", "<script $1></script>"]);
  const r = injectIntoHtml(html, tag, "replace", "data-meticulous");
  const m = placeholder.exec(html);
  if (m) {
    g.ensure("injected without warning", r.injected === true && r.warning === undefined);
    g.ensure("the placeholder becomes the tag", r.html === html.slice(0, m.index) + tag + html.slice(m.index + m[0].length));
  } else if (head.test(html)) { g.ensure("falls back to the head with a warning", r.injected === true && typeof r.warning === "string"); inserted(g, html, tag, r.html); }
  else g.ensure("neither: unchanged, with a warning", r.html === html && r.injected === false && typeof r.warning === "string" && r.warning.length > 0);
});
