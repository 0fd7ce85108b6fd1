import { contract } from "vf";
import { registry } from "node:module";
import { unpluginFactory } from "repo:recorder-plugin/src/index";
import createRsbuildPlugin from "repo:recorder-plugin/src/rsbuild";
import nuxtModule from "repo:recorder-plugin/src/nuxt";
import { injectIntoHtml } from "repo:recorder-plugin/src/core/inject-html";
import { applyInjection, isAlreadyInjected } from "repo:recorder-plugin/src/core/rspack-html-hooks";
import { resolveOptions } from "repo:recorder-plugin/src/core/options";
import { buildScriptTag } from "repo:recorder-plugin/src/core/snippet";

const HTML = ["<html><head></head></html>", "<html><head><title>a</title></head></html>", "<html>", "no html", "<html><head><script data-meticulous></script></head>"];
const setup = (g) => {
  const enabled = g.choose("enabled", [undefined, "always", "never", "development"]);
  const raw = { recordingToken: g.string("token", ["tok", "a\"b"]), enabled, inject: enabled === undefined ? "auto" : g.choose("inject", ["auto", "replace"]) };
  g.assume(raw.recordingToken !== "");
  return raw;
};
const on = (enabled, isProduction) => enabled === "always" || (enabled !== "never" && !isProduction);
const expected = (raw, html, isProduction) => { const o = resolveOptions(raw); return on(raw.enabled, isProduction) ? injectIntoHtml(html, buildScriptTag(o, { isProduction }), o.inject, o.placeholderAttribute).html : html; };
const quiet = (g) => g.setGlobal("console", { warn: () => {}, log: () => {}, error: () => {} });

contract("vite: injected unless it is a production build or switched off", {}, (g) => {
  quiet(g);
  const raw = setup(g), html = g.string("html", HTML), command = g.choose("command", ["build", "serve"]), mode = g.string("mode", ["production", "development", "staging"]);
  const plugin = unpluginFactory(raw, {});
  plugin.vite.config({}, { command, mode });
  const out = plugin.vite.transformIndexHtml.handler(html);
  g.eq("html", out, expected(raw, html, command === "build" && mode === "production"));
});
contract("rsbuild: injected once unless in production mode or switched off", {}, (g) => {
  quiet(g);
  const raw = setup(g), html = g.string("html", HTML), mode = g.string("mode", ["production", "development", "none"]);
  let hook = null;
  createRsbuildPlugin(raw).setup({ modifyHTML: (f) => { hook = f; } });
  const first = hook(html, { compiler: { options: { mode } } });
  const isProduction = mode === "production", o = resolveOptions(raw), tag = buildScriptTag(o, { isProduction });
  g.eq("html", first, on(raw.enabled, isProduction) && !isAlreadyInjected(html, o, tag) ? expected(raw, html, isProduction) : html);
});
contract("what was injected is recognised", {}, (g) => {
  const raw = setup(g), html = g.string("html", HTML), o = resolveOptions(raw), tag = buildScriptTag(o, { isProduction: g.bool("production") });
  const r = injectIntoHtml(html, tag, o.inject, o.placeholderAttribute);
  g.assume(r.injected);
  g.ensure("recognised", isAlreadyInjected(r.html, o, tag) === true);
});
contract("nuxt: the script is put first, unless in production or switched off", {}, (g) => {
  const raw = setup(g), dev = g.bool("dev"), name = g.choose("name", ["data-x", "async"]), v = g.choose("value kind", ["text", true, false, null, undefined]), value = v === "text" ? g.string("value") : v;
  const before = { src: "other.js" }, nuxt = { options: { dev, builder: g.choose("builder", ["@nuxt/webpack-builder", "@nuxt/vite-builder"]), app: g.choose("head", [{}, { head: {} }, { head: { script: [before] } }]) } };
  const had = nuxt.options.app.head?.script?.length ?? 0;
  nuxtModule.setup({ ...raw, attributes: { [name]: value } }, nuxt);
  const script = nuxt.options.app.head?.script ?? [];
  if (!on(raw.enabled, !dev)) { g.ensure("nothing added", script.length === had); return; }
  g.ensure("one more", script.length === had + 1 && (had === 0 || script[1] === before));
  const want = { src: "https://snippet.meticulous.ai/v1/meticulous.js", "data-recording-token": raw.recordingToken, "data-is-production-environment": dev ? "false" : "true" };
  if (v !== false && v !== null && v !== undefined) want[name] = value;
  g.eq("entry", script[0], want);
});

const bundler = () => {
  let taps = [];
  const updates = [];
  const compilation = { hooks: { processAssets: { tap: (o, f) => { taps.push({ stage: o.stage, f }); } } }, updateAsset: (n, s) => { updates.push({ n, s }); } };
  const lib = { Compilation: { PROCESS_ASSETS_STAGE_REPORT: 5000, PROCESS_ASSETS_STAGE_ADDITIONS: -100 }, sources: { RawSource: class { constructor(v) { this.v = v; } source() { return this.v; } } } };
  let oncomp = null;
  const compiler = { options: {}, hooks: { compilation: { tap: (n, f) => { oncomp = f; } } }, rspack: lib, webpack: lib };
  const run = (assets) => { for (const t of taps) t.f(assets); };
  return { compiler, compilation, updates, start: () => { if (oncomp !== null) oncomp(compilation); }, run };
};
const assetsRule = (g, kind) => {
  quiet(g);
  registry.modules = {};
  const raw = setup(g), html = g.string("html", HTML), mode = g.string("mode", ["production", "development", "none"]), file = g.string("file", ["index.html", "a.js", "x/y.html"]);
  const b = bundler();
  b.compiler.options.mode = mode;
  unpluginFactory(raw, {})[kind](b.compiler);
  b.start();
  b.run({ [file]: { source: () => html } });
  const isProduction = mode === "production", o = resolveOptions(raw), tag = buildScriptTag(o, { isProduction });
  const due = file.endsWith(".html") && /<html\b/i.test(html) && !(kind === "rspack" && isAlreadyInjected(html, o, tag));
  const want = due ? expected(raw, html, isProduction) : html;
  if (want === html) g.ensure("left alone", b.updates.length === 0);
  else { g.ensure("one update of that file", b.updates.length === 1 && b.updates[0].n === file); g.eq("html", b.updates[0].s.source(), want); }
};
contract("webpack without an html plugin: html assets are injected", {}, (g) => { assetsRule(g, "webpack"); });
contract("rspack: html assets are injected once", {}, (g) => { assetsRule(g, "rspack"); });
const hookRule = (g, kind, id, wrap) => {
  quiet(g);
  let handler = null, emitted = null;
  const hooks = { beforeEmit: { tapAsync: (n, f) => { handler = f; } } };
  registry.modules = { [id]: wrap(kind === "webpack" ? { getHooks: () => hooks } : { getCompilationHooks: () => hooks }) };
  const raw = setup(g), html = g.string("html", HTML), mode = g.string("mode", ["production", "development", "none"]);
  const b = bundler();
  b.compiler.options.mode = mode;
  unpluginFactory(raw, {})[kind](b.compiler);
  b.start();
  const isProduction = mode === "production", o = resolveOptions(raw), tag = buildScriptTag(o, { isProduction });
  if (!on(raw.enabled, isProduction)) { g.ensure("no hook", handler === null); return; }
  let err = 1;
  handler({ html, outputName: "index.html", keep: 7 }, (e, d) => { err = e; emitted = d; });
  g.ensure("no error", err === null && emitted.outputName === "index.html" && emitted.keep === 7);
  g.eq("html", emitted.html, kind === "rspack" && isAlreadyInjected(html, o, tag) ? html : expected(raw, html, isProduction));
};
contract("webpack with html-webpack-plugin: the page is injected", {}, (g) => { hookRule(g, "webpack", "html-webpack-plugin", (p) => p); });
contract("rspack with an html plugin: the page is injected once", {}, (g) => {
  hookRule(g, "rspack", g.choose("module", ["@rspack/core", "html-rspack-plugin", "@rsbuild/core/compiled/html-rspack-plugin"]), g.choose("export", [(p) => p, (p) => ({ default: p }), (p) => ({ HtmlRspackPlugin: p })]));
});
