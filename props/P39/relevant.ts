import { contract } from "vf";
import { relevantSessionsCommand } from "repo:cli/src/commands/local/relevant-sessions.command";
import { logged } from "loglevel";
import { git, H, B } from "./lib";
import { world } from "../P35/lib";

const ASK = "local-changes/relevant-sessions", TEXT = "diff --git a/src/f.ts b/src/f.ts\n--- a/src/f.ts\n+++ b/src/f.ts\n@@ -4,0 +5,2 @@\n+a\n+b\n@@ -9,2 +12,0 @@\n-c\n-d\n";
contract("what is asked about is the local work, line by line", { bounded: "the listed settings" }, async (g) => {
  const since = g.choose("since", [undefined, "c".repeat(40)]), least = g.choose("at least", [undefined, 3]), more = g.bool("superfluous"), maybe = g.bool("maybe"), refused = g.choose("answer", ["sessions", "not found"]) === "not found", s = { branch: g.choose("branch", ["feature", "main", null]), head: H, sym: "main", bases: g.choose("branches", [{ "origin/main": B }, {}]), diff: g.choose("diff", ["", TEXT, null]) };
  const w = world(g, (p) => (p === "projects/token-info" ? { data: { id: "p1" } } : refused ? { status: 404, data: { message: "no base run" } } : { data: { testCases: [{ sessionId: "s-main", relevanceToPR: "is-relevant", title: "t" }, { sessionId: "s-maybe", relevanceToPR: "maybe-relevant" }] } })), exits = [];
  g.setGlobal("process", { env: {}, versions: { node: "22" }, argv: [], stderr: { isTTY: false, write() { return true; } }, stdout: { isTTY: false, write() { return true; } }, stdin: { isTTY: false }, exit: (c) => { exits.push(c); throw new Error("exit"); } });
  const r = git(s); await g.attemptAsync(() => relevantSessionsCommand.handler({ apiToken: "tok", startingPointSha: since, minimumTimesToCoverEachLine: least, includeSuperfluousSessions: more, showMaybeRelevant: maybe, outputDir: "/w/out" }));
  const asked = w.asked(ASK), from = s.branch === null ? null : s.branch === "main" ? H : s.bases["origin/main"] ?? null;
  if (from === null || s.diff === null) { g.ensure("nothing is guessed", exits[0] !== 0 && asked.length === 0); return; }
  g.ensure("asked once, of this project", exits[0] === 0 && asked.length === 1 && asked[0].body.projectId === "p1" && asked[0].body.baseCommitSha === from && asked[0].body.minimumTimesToCoverEachLine === least && asked[0].body.loadSuperfluousTestCases === more);
  g.eq("about the lines edited", JSON.stringify(asked[0].body.editedFilesWithLines), s.diff === "" ? "[]" : JSON.stringify([{ filePath: "/src/f.ts", editedRanges: [[4, 5], [9, 10]] }]));
  g.ensure("since then, uncommitted work too", r.diffs.length === 1 && r.diffs[0].filter((x) => !x.startsWith("-")).join() === (since ?? from));
  const told = logged.map((x) => x.map(String).join(" ")).join("\n"); g.ensure("those that matter are told", refused ? told.includes("no base run") : told.includes("s-main") && told.includes("s-maybe") === maybe);
});
