import { contract } from "vf";
import { commands } from "child_process";
import { disk } from "fs";
import { generateDebugWorkspace } from "repo:debug-workspace/src/generate-debug-workspace";
import { still, context, put, read, leaks, WS, MARK } from "./lib";

const S = "s3cret", list = [{ name: "n", value: S }], text = (f) => disk.text(WS + "/" + f);
const timeline = [{ kind: "pollyReplay", virtualTimeStart: 1, virtualTimeEnd: 2, data: { url: "https://a.io/x", request: { method: "GET", url: "https://a.io/x", headers: list, cookies: list }, response: { status: 200, headers: list } } }, { kind: "passedThroughNetworkRequest", virtualTimeStart: 3, data: { request: { headers: list }, message: "kept" } }];
const FILES = { "cookies.json": list, "timeline.json": timeline, "launchBrowserAndReplayParams.json": { session: { recordingToken: S }, replayExecutionOptions: { extraCookies: list, customRequestHeaders: [{ name: "a", value: { type: "static", value: S } }] } }, "custom-checks-snapshots/network-requests.json": [{ requestHeaders: list, responseHeaders: list }], "logs.concise.txt": "Cookie: " + S + "\n", "logs.deterministic.txt": "a\nAuthorization: " + S + "\nwith Bearer " + S + "\n", "logs.ndjson": JSON.stringify({ type: "console", virtualTime: 1, message: "Cookie: " + S }) + "\n" };
contract("the whole workspace holds none", { bounded: "two replays of a diff with the listed files, and a session" }, async (g) => {
  still(g); const D = Date; g.setGlobal("Date", class extends D { static now() { return 0; } getTime() { return 0; } toISOString() { return "2026-01-01T00:00:00.000Z"; } }); const two = g.bool("with a base"), ndjson = g.bool("timeline.ndjson given"), differ = g.bool("they differ"), roles = two ? [["head", "r1"], ["base", "r2"]] : [["head", "r1"]];
  for (const [role, r] of roles) { for (const f of Object.keys(FILES)) put("replays/" + role + "/" + r + "/" + f, differ && role === "base" && typeof FILES[f] === "string" ? FILES[f] + FILES[f] : FILES[f]); if (ndjson) put("replays/" + role + "/" + r + "/timeline.ndjson", timeline.map((e) => JSON.stringify(e)).join("\n")); }
  put("sessions/s1/data.json", { recording_token: S, cookies: list, userEvents: { event_log: [] }, pollyHAR: { pollyHAR: { a: { log: { entries: [{ request: { method: "GET", url: "https://a.io", headers: list, cookies: list }, response: { status: 200, headers: list, content: {} } }] } } } } });
  disk.put("/templates/CLAUDE.md", "kept"); commands.answer = (cmd, o) => { const failed = (stdout) => ({ stdout, stderr: "", error: Object.assign(new Error("exit 1"), { stdout }) }); if (o.argv[0] !== "diff") return failed(""); const [a, b] = o.argv.slice(-2), x = disk.text(a), y = disk.text(b); return x === y ? { stdout: "", stderr: "", error: null } : failed("--- " + a + "\n+++ " + b + "\n-" + x.split("\n").join("\n-") + "\n+" + y.split("\n").join("\n+") + "\n"); };
  const ctx = context({ sessionIds: ["s1"], replayIds: roles.map((r) => r[1]), replayDiffs: two ? [{ id: "d1", headReplayId: "r1", baseReplayId: "r2", sessionId: "s1", numScreenshotDiffs: 0 }] : [] });
  const r = await g.attemptAsync(() => generateDebugWorkspace({ client: { get: async () => ({ data: null }) }, debugContext: ctx, workspaceDir: WS, additionalTemplatesDir: "/templates" }));
  g.ensure("it is made", r.ok); g.ensure("and holds none", leaks([S]).length === 0);
  g.ensure("but what there was besides", read("replays/head/r1/timeline.json").includes("https://a.io/x") && read("replays/head/r1/logs.deterministic.txt").startsWith("a\n"));
});
