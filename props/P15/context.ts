import { contract } from "vf";
import { runWithMeticulous } from "repo:backend-recorder-workerd/src/with-meticulous";
import { requestCaptureContext } from "repo:backend-recorder-workerd/src/context";
import { parseVirtualTimeMs } from "repo:backend-recorder-workerd/src/protocol";
import { decoder, quiet } from "../P14/lib";

const ORIGIN = "http://localhost:9";
contract("a request is replayed exactly when a local sidecar knows its session", {}, async (g) => {
  quiet(g); if (g.isSymbolic()) decoder(g);
  const how = g.choose("sidecar", ["found", "anchored", "not found", "404", "500", "unreachable", "not json"]);
  const real = new Response("real"), calls = [];
  g.setGlobal("fetch", (...args) => {
    calls.push(args);
    if (!String(args[0] instanceof Request ? args[0].url : args[0]).startsWith(ORIGIN + "/")) return Promise.resolve(real);
    if (how === "unreachable") return Promise.reject(new Error("refused"));
    if (!args[0].startsWith(ORIGIN + "/v1/replay/session?sessionId=")) return Promise.resolve(new Response('{"outcome":"no-mock"}'));
    return Promise.resolve(how === "404" || how === "500" ? new Response("no", { status: Number(how) }) : new Response(how === "not json" ? "<html>" : how === "not found" ? '{"found":false}' : how === "found" ? '{"found":true}' : '{"found":true,"clockAnchorMs":1234}'));
  });
  const url = g.choose("url header", [undefined, ORIGIN, ORIGIN + "/", "http://evil.com", "https://localhost:9", "http://localhost:9/x"]), sid = g.choose("session header", [undefined, "s1"]), rid = g.choose("replay header", [undefined, "p1"]), vt = g.choose("time header", [undefined, "12.5", "-1"]);
  const headers = {};
  if (url !== undefined) headers["x-meticulous-backend-replay-sidecar-url"] = url;
  if (sid !== undefined) headers["x-meticulous-session-id"] = sid;
  if (rid !== undefined) headers["x-meticulous-replay-id"] = rid;
  if (vt !== undefined) headers["x-meticulous-virtual-time"] = vt;
  let seen, runs = 0, inner;
  const res = new Response("page");
  const out = await g.attemptAsync(() => runWithMeticulous({ request: new Request("https://app/x", { headers }), env: {}, ctx: { waitUntil: () => undefined }, invokeHandler: async () => { runs++; seen = requestCaptureContext.getStore(); try { inner = await fetch("https://api/a"); } catch (e) { inner = "failed"; } return res; } }, undefined));
  g.ensure("the handler runs once and its response passes", runs === 1 && out.ok && out.value === res && res.bodyUsed === false);
  const asked = (url === ORIGIN || url === ORIGIN + "/") && sid !== undefined && rid !== undefined;
  if (asked && (how === "found" || how === "anchored")) {
    g.ensure("replayed", seen !== undefined && seen.mode === "replay" && seen.sidecarUrl === ORIGIN && seen.frontendSessionId === sid && seen.replayId === rid && seen.clockAnchorMs === (how === "anchored" ? 1234 : undefined) && seen.virtualTimeMs === (vt === "12.5" ? 12.5 : undefined));
    g.ensure("nothing real is called", inner === "failed" && calls.every((c) => typeof c[0] === "string" && c[0].startsWith(ORIGIN + "/")));
    g.ensure("marked as replayed", res.headers.get("x-meticulous-workerd-shim-version") !== null);
  } else {
    g.ensure("not replayed", seen === undefined && inner === real);
    g.ensure("no other host is asked", calls.length === (asked ? 2 : 1));
  }
});
contract("only a finite time that is not negative is a replay time", {}, (g) => {
  const t = g.string("t", ["12.5", "-1", "0", "Infinity", "NaN", "1e3", "", "abc", " 7 "]);
  const out = parseVirtualTimeMs(t), n = Number(t);
  g.ensure("time", out === (t !== "" && Number.isFinite(n) && n >= 0 ? n : undefined));
  g.ensure("none", parseVirtualTimeMs(null) === undefined && parseVirtualTimeMs(undefined) === undefined);
});
