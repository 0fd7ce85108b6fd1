import { contract } from "vf";
import { tryLoadAndStartRecorder, loadAndStartRecorder } from "repo:recorder-loader/src/loader";
import { page, recorder, RECORDER } from "./lib";

const NAMES = { recordingToken: "METICULOUS_RECORDING_TOKEN", uploadIntervalMs: "METICULOUS_UPLOAD_INTERVAL_MS", snapshotLinkedStylesheets: "METICULOUS_SNAPSHOT_LINKED_STYLESHEETS", commitHash: "METICULOUS_APP_COMMIT_HASH", forceRecording: "METICULOUS_FORCE_RECORDING", isProduction: "METICULOUS_IS_PRODUCTION_ENVIRONMENT", responseSanitizers: "METICULOUS_NETWORK_RESPONSE_SANITIZERS", middleware: "METICULOUS_RECORDER_MIDDLEWARE_V1", disableErrorReporting: "METICULOUS_DISABLE_ERROR_REPORTING", disableTrackerId: "METICULOUS_DISABLE_TRACKER_ID", maxPayloadSize: "METICULOUS_MAX_PAYLOAD_SIZE" };
const NOOP = "a stop that does nothing";
const stops = async (g, r) => { let p; const s = await g.attemptAsync(() => (p = r.stopRecording())); return s.ok && s.value === undefined && typeof p.then === "function"; };

contract("the page goes on, whatever becomes of the recorder", {}, async (g) => {
  const p = page(g), how = g.choose("recorder", RECORDER), ends = g.choose("script", ["loads", "fails", "never", "is refused"]), limit = g.int("limit", 1, 100000), given = g.bool("limit given"), by = given ? limit : 2000, late = g.bool("late");
  const r = recorder(p, how); p.refuses = ends === "is refused";
  const w = p.watch(tryLoadAndStartRecorder({ recordingToken: "t", ...(given ? { maxMsToBlockFor: limit } : {}) })); await g.turn();
  g.ensure("one script, asked for at once", p.scripts.length === (p.refuses ? 0 : 1));
  g.ensure("waited for", w.state === (p.refuses ? "done" : "open"));
  await p.pass(by - 1); g.ensure("for as long as was said", w.state === (p.refuses ? "done" : "open"));
  if (late) { await p.pass(1); g.ensure("and no longer", w.state === "done"); }
  if (ends === "loads") r.arrives();
  if (ends === "loads" || ends === "fails") await p.ends(ends);
  await p.pass(1);
  g.ensure("then it goes on", w.state === "done");
  const begins = ends === "loads" && !late, on = begins && how === "starts";
  g.ensure("started once, or not after the page went on", r.started === (begins && how !== "is not there" && how !== "has no start" && how !== "start is no function" ? 1 : 0));
  g.ensure("what failed is said", on ? p.said.length === 0 : !(p.refuses || (!late && ends !== "never")) || p.said.length > 0);
  g.ensure("it can be stopped", await stops(g, w.value));
  g.ensure("what was started is stopped", r.stopped === (on ? 1 : 0));
  g.ensure("nothing is left unhandled", (await g.turn()) === 0);
});
contract("without a limit the page waits", {}, async (g) => {
  const p = page(g), limit = g.choose("limit", [0, -1]), ends = g.choose("script", ["loads", "fails"]), r = recorder(p, "starts");
  const w = p.watch(tryLoadAndStartRecorder({ recordingToken: "t", maxMsToBlockFor: limit })); await p.pass(1e9);
  g.ensure("as long as it takes", w.state === "open");
  if (ends === "loads") r.arrives(); await p.ends(ends);
  g.ensure("then goes on", w.state === "done" && r.started === (ends === "loads" ? 1 : 0) && (await stops(g, w.value)) && r.stopped === r.started);
});
contract("the one that fails says so, and no later than it should", {}, async (g) => {
  const p = page(g), how = g.choose("recorder", RECORDER), ends = g.choose("script", ["loads", "fails", "never"]), r = recorder(p, how);
  const w = p.watch(loadAndStartRecorder({ recordingToken: "t" })); await g.turn(); if (ends === "loads") r.arrives(); if (ends !== "never") await p.ends(ends);
  const on = ends === "loads" && how === "starts", open = ends === "never";
  g.ensure("an error, or the recorder", w.state === (open ? "open" : on ? "done" : "failed") && (w.state !== "failed" || w.error instanceof Error)); await p.pass(2000);
  g.ensure("or nothing in time", open ? w.state === "done" && (await stops(g, w.value)) : true);
  g.ensure("nothing is left unhandled", (await g.turn()) === 0);
});
contract("nothing is recorded of a test", {}, async (g) => {
  const test = g.choose("page", ["a test", "not a test", "no Meticulous"]), p = page(g, test === "no Meticulous" ? {} : { Meticulous: { isRunningAsTest: test === "a test" } }), is = test === "a test";
  const w = p.watch(tryLoadAndStartRecorder({ recordingToken: "t", commitHash: "c", forceRecording: true })); await g.turn();
  g.ensure("no script, and no wait", p.scripts.length === (is ? 0 : 1) && w.state === (is ? "done" : "open"));
  g.ensure("the page is as it was", !is || Object.keys(p.window).every((k) => p.own.includes(k)));
  g.ensure("and nothing to stop", !is || (await stops(g, w.value)));
});
contract("the recorder is told what was set, and nothing else", {}, async (g) => {
  const p = page(g), texts = { recordingToken: g.string("token", ["tok"]), commitHash: g.string("commit", ["", "abc"]) }, n = g.int("n", 0, 1e9), m = g.int("m", 0, 1e9), b = g.bool("b"), list = g.choose("list", [[], [{ a: 1 }], [{ a: 1 }, { b: 2 }]]);
  const all = { ...texts, uploadIntervalMs: n, snapshotLinkedStylesheets: b, forceRecording: b, isProduction: b, responseSanitizers: list, middleware: list, disableErrorReporting: b, disableTrackerId: b, maxPayloadSize: m };
  const which = g.choose("set", Object.keys(all)), but = g.bool("all but it"), options = { recordingToken: texts.recordingToken };
  for (const k of Object.keys(all)) if (k === "recordingToken" || (k === which) !== but) options[k] = all[k];
  let seen = null; const r = recorder(p, "starts", () => { seen = { ...p.window }; });
  const w = p.watch(tryLoadAndStartRecorder(options)); await g.turn(); r.arrives(); await p.ends("loads");
  g.ensure("it started", w.state === "done" && r.started === 1 && seen !== null);
  for (const k of Object.keys(NAMES)) { const set = k in options && !(Array.isArray(options[k]) && options[k].length === 0); g.ensure("by its name", set ? seen[NAMES[k]] === options[k] : seen[NAMES[k]] === undefined); }
  const mine = Object.keys(options).filter((k) => !(Array.isArray(options[k]) && options[k].length === 0)).map((k) => NAMES[k]);
  g.ensure("nothing else of the page is touched", Object.keys(seen).every((k) => p.own.includes(k) || k === "__meticulous" || mine.includes(k)));
});
contract("an old name of the token still does", {}, async (g) => {
  const p = page(g), projectId = g.string("project", ["old"]), token = g.choose("token", [undefined, "new"]), r = recorder(p, "starts");
  const w = p.watch(tryLoadAndStartRecorder({ projectId, ...(token === undefined ? {} : { recordingToken: token }) })); await g.turn(); r.arrives(); await p.ends("loads");
  g.eq("the token", p.window.METICULOUS_RECORDING_TOKEN, token ?? projectId); g.ensure("it started", w.state === "done" && r.started === 1);
});
contract("the script is the one asked for", {}, async (g) => {
  const p = page(g), version = g.choose("version", [undefined, "2.300.0", "1.0.0-beta.1"]), base = g.choose("base", [undefined, "", "https://snippet.test", "http://localhost:3000/", "not a URL"]), integrity = g.choose("integrity", [undefined, "", "sha384-x"]), nonce = g.choose("nonce", [undefined, "n1"]);
  const r = recorder(p, "starts"), w = p.watch(tryLoadAndStartRecorder({ recordingToken: "t", version, snippetsBaseUrl: base, integrity, nonce })); await g.turn();
  const bad = base === "not a URL" || (integrity && version === undefined);
  g.ensure("what cannot be checked is not loaded, and the page goes on", p.scripts.length === (bad ? 0 : 1) && w.state === (bad ? "done" : "open") && p.said.length > 0 === !!bad);
  if (bad) { g.ensure("with nothing to stop", (await stops(g, w.value)) && (await g.turn()) === 0); return; }
  const s = p.scripts[0];
  g.eq("from there", s.src, (base ? base.replace(/\/$/, "") : "https://snippet.meticulous.ai") + (version === undefined ? "/v1" : "/record/v/" + version) + "/meticulous-manual-init.js");
  g.ensure("a script", s.tag === "script" && (s.type === undefined || s.type === "text/javascript"));
  g.ensure("checked, where that was asked for", integrity ? s.integrity === integrity && s.crossOrigin === "anonymous" : !s.integrity && !s.crossOrigin);
  g.ensure("allowed by its nonce", s.nonce === nonce);
});
contract("a recorder that is gone cannot be stopped, and says so", {}, async (g) => {
  const p = page(g), gone = g.bool("gone"), r = recorder(p, "starts"), w = p.watch(tryLoadAndStartRecorder({ recordingToken: "t" })); await g.turn(); r.arrives(); await p.ends("loads");
  if (gone) p.window.__meticulous = g.choose("left", [undefined, {}]);
  const s = await g.attemptAsync(() => w.value.stopRecording());
  g.ensure("stopped, or an error", s.ok === !gone && r.stopped === (gone ? 0 : 1));
});
