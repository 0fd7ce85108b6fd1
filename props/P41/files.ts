import { contract } from "vf";
import { disk } from "fs";
import { redactCookiesAndHeaders, generateFilteredLogs } from "repo:debug-workspace/src/generate-debug-workspace";
import { still, context, put, read, leaks, WS, MARK } from "./lib";

const S = "s3cr3t-", list = (s) => [{ name: "n", value: s, domain: null }];
// the files of a replay that are known to hold secrets, with one in each
const FILES = { "cookies.json": (s) => list(s), "launchBrowserAndReplayParams.json": (s) => ({ session: { recordingToken: s }, replayExecutionOptions: { extraCookies: list(s), customRequestHeaders: [{ name: "a", value: { type: "static", value: s } }] } }), "timeline.json": (s) => [{ kind: "pollyReplay", data: { request: { headers: list(s) } } }], "custom-checks-snapshots/network-requests.json": (s) => [{ data: { requestHeaders: list(s) } }] };
contract("every file of every replay and session that is known to hold secrets", { bounded: "the listed files, of two replays and two sessions" }, (g) => {
  still(g); const role = g.choose("role", ["head", "base", "other"]), file = g.choose("file", [...Object.keys(FILES), "timeline.ndjson", "session"]), secret = S + "1", two = g.bool("two");
  const text = file === "timeline.ndjson" ? JSON.stringify(FILES["timeline.json"](secret)[0]) + "\n" + JSON.stringify({ kind: "x" }) + "\n\n" + JSON.stringify(FILES["timeline.json"](secret)[0]) + "\n" : file === "session" ? JSON.stringify({ cookies: list(secret), recording_token: secret, hostname: "h" }) : JSON.stringify(FILES[file](secret));
  const places = (file === "session" ? ["sessions/s1/data.json", "sessions/s2/data.json"] : ["replays/" + role + "/r1/" + file, "replays/" + role + "/r2/" + file]).slice(0, two ? 2 : 1); for (const p of places) put(p, text); put("replays/" + role + "/r1/other.json", JSON.stringify({ headers: "kept" }));
  redactCookiesAndHeaders(context({ sessionIds: ["s1", "s2", "s3"], replayIds: ["r1", "r2"] }), WS);
  g.ensure("holds none after", leaks([S]).length === 0);
  g.ensure("but says where one was", places.every((p) => read(p).includes(MARK)));
  const want = file === "timeline.ndjson" ? null : JSON.stringify(JSON.parse(text.split(secret).join(MARK)));
  g.ensure("and all else", places.every((p) => (want === null ? read(p).split("\n").filter((l) => l !== "").map((l) => JSON.stringify(JSON.parse(l))).join("\n") === text.split(secret).join(MARK).split("\n").filter((l) => l !== "").join("\n") : JSON.stringify(JSON.parse(read(p))) === want)));
  g.ensure("other files are as they were", read("replays/" + role + "/r1/other.json") === JSON.stringify({ headers: "kept" }));
});
contract("a file that cannot be read does not keep the others from it", { bounded: "the listed files" }, (g) => {
  const said = still(g), broken = g.choose("broken", ["cookies.json", "timeline.json", "timeline.ndjson", "launchBrowserAndReplayParams.json"]); put("replays/base/r0/" + broken, '{"a":'); for (const f of Object.keys(FILES)) put("replays/head/r1/" + f, FILES[f](S + f)); put("sessions/s1/data.json", { cookies: list(S) });
  for (const f of Object.keys(FILES)) if (f !== broken) put("replays/base/r0/" + f, FILES[f](S + f));
  const r = g.attempt(() => redactCookiesAndHeaders(context({ sessionIds: ["s1"] }), WS)); g.ensure("they are redacted", r.ok && leaks([S]).length === 0); g.ensure("and it is said", said.some((x) => x.includes(broken)));
});
contract("a line that cannot be read does not keep the others from it", { bounded: "three lines" }, (g) => {
  still(g); const good = JSON.stringify({ kind: "pollyReplay", data: { headers: list(S) } }), at = g.choose("broken", [0, 1, 2, 3]), bad = g.choose("line", ['{"kind":"pollyReplay","data":{"headers":[{"name":"Cookie","value":"' + S, "x"]), lines = [good, good, good]; if (at < 3) lines[at] = bad; put("replays/head/r1/timeline.ndjson", lines.join("\n") + "\n");
  redactCookiesAndHeaders(context(), WS); g.ensure("no line keeps one", leaks([S]).length === 0);
  const out = read("replays/head/r1/timeline.ndjson").split("\n"); g.ensure("the others are there", lines.every((l, i) => l !== good || out.includes(JSON.stringify({ kind: "pollyReplay", data: { headers: list(MARK) } }))));
});
contract("nothing to redact is no error", {}, (g) => { still(g); const r = g.attempt(() => { redactCookiesAndHeaders(context({ sessionIds: ["s1"], replayIds: ["r1"] }), WS); generateFilteredLogs(WS); }); g.ensure("none", r.ok && disk.files.size === 0); });
