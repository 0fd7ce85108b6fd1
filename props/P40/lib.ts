// A page: its scripts, as they were added; its clock; what it said. A script comes to its end when the contract says so.
export const page = (g, before = {}) => {
  const p = { scripts: [], said: [], timers: [], now: 0 };
  p.window = { ...before, clearTimeout: (id) => { for (const t of p.timers) if (t.id === id) t.gone = true; }, setTimeout: (f, ms) => { const id = p.timers.length + 1; p.timers.push({ id, f, at: p.now + ms, gone: false }); return id; } };
  p.own = Object.keys(p.window);
  const add = (e) => { if (p.refuses) throw new TypeError("This document requires 'TrustedScript' assignment."); p.scripts.push(e); return e; };
  g.setGlobal("window", p.window); g.setGlobal("setTimeout", p.window.setTimeout); g.setGlobal("clearTimeout", p.window.clearTimeout);
  g.setGlobal("document", { createElement: (tag) => ({ tag }), head: { appendChild: add, append: (...es) => { for (const e of es) add(e); } } });
  g.setGlobal("console", { log() {}, info() {}, debug() {}, warn() {}, error(e) { p.said.push(e); } });
  // time passes: what was to be done by then is done
  p.pass = async (ms) => { p.now += ms; for (const t of p.timers) if (!t.gone && t.at <= p.now) { t.gone = true; t.f(); } await g.turn(); };
  p.ends = async (how) => { const s = p.scripts[0]; if (how === "loads") s.onload({}); else s.onerror({}); await g.turn(); };
  // what became of a promise
  p.watch = (promise) => { const r = { state: "open", value: undefined, error: undefined }; promise.then((v) => { r.state = "done"; r.value = v; }, (e) => { r.state = "failed"; r.error = e; }); return r; };
  return p;
};
export const RECORDER = ["starts", "throws", "throws a text", "has no start", "start is no function", "is not there"];
// the recorder that the script brings
export const recorder = (p, how, onStart = () => {}) => {
  const r = { started: 0, stopped: 0 };
  const initialiseRecorder = () => { r.started++; onStart(); if (how === "throws") throw new Error("broken"); if (how === "throws a text") throw "broken"; };
  const stopRecording = () => { r.stopped++; };
  r.arrives = () => { if (how !== "is not there") p.window.__meticulous = how === "has no start" ? {} : how === "start is no function" ? { initialiseRecorder: 1 } : { initialiseRecorder, stopRecording }; };
  return r;
};
