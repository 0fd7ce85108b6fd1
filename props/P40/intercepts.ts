import { contract } from "vf";
import { tryInstallMeticulousIntercepts } from "repo:recorder-loader/src/install-meticulous-intercepts";
import { stopIntercepting } from "repo:recorder-loader/src/early-network-recorder";
import { page, recorder } from "./lib";

const early = (p, how) => { const e = { disposed: 0 }; const dispose = async () => { e.disposed++; await undefined; if (how === "fails") throw new Error("broken"); }; e.arrives = () => { if (how === "has no dispose") p.window.__meticulous = { earlyNetworkRecorder: {} }; else if (how !== "is not there") p.window.__meticulous = { earlyNetworkRecorder: { dispose } }; }; return e; };
contract("the page goes on, whatever becomes of the interception", {}, async (g) => {
  const p = page(g), ends = g.choose("script", ["loads", "fails", "never", "is refused"]), limit = g.int("limit", 1, 100000), given = g.bool("limit given"), by = given ? limit : 2000, late = g.bool("late"), e = early(p, g.choose("interceptor", ["works", "is not there", "has no dispose"]));
  p.refuses = ends === "is refused";
  const w = p.watch(tryInstallMeticulousIntercepts(given ? { maxMsToBlockFor: limit } : {})); await g.turn();
  g.ensure("one script, waited for", p.scripts.length === (p.refuses ? 0 : 1) && w.state === (p.refuses ? "done" : "open"));
  await p.pass(by - 1); g.ensure("for as long as was said", w.state === (p.refuses ? "done" : "open"));
  if (late) { await p.pass(1); g.ensure("and no longer", w.state === "done"); }
  if (ends === "loads") e.arrives(); if (ends === "loads" || ends === "fails") { await p.ends(ends); g.ensure("nor longer than it takes", w.state === "done"); }
  await p.pass(1); g.ensure("then it goes on", w.state === "done" && (p.refuses || (ends === "fails" && !late) ? p.said.length > 0 : ends !== "loads" || p.said.length === 0));
  g.ensure("and nothing was dropped yet", e.disposed === 0);
  const s = await g.attemptAsync(() => w.value.stopIntercepting()); g.ensure("it can be stopped", s.ok);
  const again = await g.attemptAsync(() => w.value.stopIntercepting()); g.ensure("once", again.ok && e.disposed === (ends === "loads" && p.window.__meticulous?.earlyNetworkRecorder?.dispose ? 1 : 0));
  g.ensure("nothing is left unhandled", (await g.turn()) === 0);
});
contract("without a limit the page waits for it", {}, async (g) => {
  const p = page(g), limit = g.choose("limit", [0, -1]), ends = g.choose("script", ["loads", "fails"]), w = p.watch(tryInstallMeticulousIntercepts({ maxMsToBlockFor: limit })); await p.pass(1e9);
  g.ensure("as long as it takes", w.state === "open"); await p.ends(ends); g.ensure("then goes on", w.state === "done");
});
contract("what was stopped before it came is stopped when it comes", {}, async (g) => {
  const p = page(g), e = early(p, g.choose("interceptor", ["works", "fails", "is not there", "has no dispose"])), stopped = g.bool("stopped"), w = p.watch(tryInstallMeticulousIntercepts({ maxMsToBlockFor: 500 })); await g.turn(); await p.pass(500);
  g.ensure("the page went on", w.state === "done");
  if (stopped) { const s = await g.attemptAsync(() => w.value.stopIntercepting()); g.ensure("asked", s.ok); }
  e.arrives(); await p.ends("loads"); g.ensure("nothing is left unhandled", (await g.turn()) === 0);
  g.ensure("dropped, if it was asked for", e.disposed === (stopped && p.window.__meticulous?.earlyNetworkRecorder?.dispose ? 1 : 0));
});
contract("the interception is the one asked for", {}, async (g) => {
  const p = page(g), version = g.choose("version", [undefined, "2.300.0"]); p.watch(tryInstallMeticulousIntercepts(version === undefined ? {} : { version })); await g.turn();
  g.eq("from there", p.scripts[0].src, "https://snippet.meticulous.ai/record/" + (version === undefined ? "v1" : "v/" + version) + "/network-recorder.bundle.js");
});
contract("recording starts from it", {}, async (g) => {
  const p = page(g), w = p.watch(tryInstallMeticulousIntercepts({})); await g.turn(); await p.ends("loads");
  const r = recorder(p, "starts"), s = p.watch(w.value.startRecordingSession({ recordingToken: "t2" })); await g.turn(); p.scripts.shift(); r.arrives(); await p.ends("loads");
  g.ensure("as it does by itself", s.state === "done" && r.started === 1 && p.window.METICULOUS_RECORDING_TOKEN === "t2");
});
contract("an interception by a tag can be stopped too", {}, async (g) => {
  const p = page(g), how = g.choose("interceptor", ["works", "is not there", "has no dispose"]), e = early(p, how); e.arrives(); const s = await g.attemptAsync(() => stopIntercepting()); g.ensure("stopped, where there is one", s.ok && e.disposed === (how === "works" ? 1 : 0));
});
