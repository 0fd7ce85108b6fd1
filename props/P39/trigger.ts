import { contract } from "vf";
import { triggerTestRunCommand, parseMaxDurationSecondsArg } from "repo:cli/src/commands/agent/trigger-test-run.command";
import { git, H, B, S } from "./lib";
import { world } from "../P35/lib";

const DIFF = "agent/upload-build/git-diff", RUN = "agent/trigger-test-run", TEXT = "diff --git a/f b/f\n+x \n";
const start = (g, s) => {
  const w = world(g, (p) => (p === "test-runs/t1" ? { data: { id: "t1", status: "Failure" } } : p === DIFF ? { data: { uploadUrl: "https://s3.test/diff", deploymentId: "d9" } } : { data: { testRun: { id: "t1", url: "https://app/t1" }, commitSha: H } })), exits = [], said = [];
  g.setGlobal("process", { env: {}, versions: { node: "22" }, argv: [], stderr: { isTTY: false, write() { return true; } }, stdout: { isTTY: false, write() { return true; } }, stdin: { isTTY: false }, exit: (c) => { exits.push(c); throw new Error("exit"); } });
  g.setGlobal("console", { log(x) { said.push(x); }, error() {}, warn() {}, info() {}, debug() {}, trace() {} });
  return { w, r: git(s), exits, said };
};
const SESSIONS = { none: [undefined, undefined], two: [" s1, s2", ["s1", "s2"]], empty: ["", null], blank: [" , ,", null], twice: ["s1,s2,s1", null] };
contract("a triggered run is of that commit, against that base, with that diff", { bounded: "the listed commands" }, async (g) => {
  const what = g.choose("of", ["deployment", "commit", "HEAD", "both"]), baseSha = g.choose("base", [undefined, "d".repeat(40)]), given = g.choose("diff", [undefined, "given \n"]), [sessionIds, ids] = SESSIONS[g.choose("sessions", Object.keys(SESSIONS))], dryRun = g.bool("dry"), json = g.bool("json"), wait = sessionIds === undefined && !dryRun && g.bool("wait"); g.assume(!json || sessionIds === undefined); g.assume(!dryRun || given === undefined);
  const s = { branch: g.choose("branch", ["feature", "main"]), head: H, sym: "main", bases: { "origin/main": B }, dirty: g.choose("changes", [false, true]), untracked: [], stash: S, diff: g.choose("is", ["", TEXT]) };
  const { w, r, exits, said } = start(g, s), deploymentId = what === "deployment" || what === "both" ? "d1" : undefined, commitSha = what === "commit" || what === "both" ? "c".repeat(40) : undefined;
  await g.attemptAsync(() => triggerTestRunCommand.handler({ apiToken: "tok", deploymentId, commitSha, baseSha, gitDiffOutput: given, sessionIds, dontWaitForTestRunToComplete: !wait, json, dryRun }));
  const run = w.asked(RUN), up = w.asked(DIFF), put = w.puts(), commit = commitSha ?? (deploymentId ? undefined : H), head = commit ?? (s.dirty ? S : H), from = baseSha ?? (s.branch === "main" ? H : B), diff = given ?? s.diff;
  const refused = what === "both" || ids === null || (what === "HEAD" && s.dirty) || (given !== undefined && baseSha === undefined), nothing = commit !== undefined && from === head && diff === "" && ids === undefined;
  g.ensure("what makes no sense is refused, before anything", !refused || (exits[0] !== 0 && w.log.length === 0));
  g.ensure("nothing is run for nothing, or to look", refused || !(nothing || dryRun) || (exits[0] === 0 && w.log.length === 0));
  g.ensure("what is read stays readable", refused || !(nothing || dryRun) || !json || said.some((x) => x.includes('"testRunId": null')));
  if (refused || nothing || dryRun) return;
  g.ensure("one run, of that", exits[0] === 0 && run.length === 1 && run[0].body.baseSha === from && (diff !== "" ? run[0].body.deploymentId === "d9" : run[0].body.deploymentId === deploymentId && run[0].body.commitSha === commit));
  g.ensure("its diff before it, whole", diff === "" ? up.length === 0 && put.length === 0 : up.length === 1 && up[0].body.baseSha === from && up[0].body.deploymentId === deploymentId && up[0].body.commitSha === commit && put.length === 1 && put[0].text === diff && w.log.indexOf(put[0]) < w.log.indexOf(run[0]));
  g.ensure("between those two", given !== undefined ? r.diffs.length === 0 : r.diffs.length === 1 && r.diffs[0].filter((x) => !x.startsWith("-")).join() === from + "," + head);
  g.ensure("those sessions", JSON.stringify(run[0].body.sessionIds) === JSON.stringify(ids) && run[0].body.maxDurationSeconds === undefined);
  g.ensure("it is told, and how it ended where that was waited for", said.some((x) => String(x).includes("t1") && (!json || JSON.stringify(JSON.parse(x)) === JSON.stringify({ testRunId: "t1", status: wait ? "Failure" : null }))) && (w.asked("test-runs/t1").length > 0) === wait);
});
contract("a limit is a whole number of seconds, none, or an error", {}, async (g) => {
  const raw = g.choose("raw", [undefined, "none", " NONE ", "60", " 7 ", "0", "-5", "1.5", "x", "", " ", "1e3", "NaN", "Infinity", "5s"]), most = raw === undefined ? undefined : raw.trim().toLowerCase() === "none" ? null : Number(raw), good = most === undefined || most === null || (Number.isInteger(most) && most > 0), pinned = g.bool("sessions named");
  const one = g.attempt(() => parseMaxDurationSecondsArg(raw)); g.ensure("that, or an error", one.ok === good && (!good || one.value === most));
  const { w, exits } = start(g, { branch: "feature", head: H, sym: "main", bases: { "origin/main": B }, dirty: false, untracked: [], diff: TEXT });
  await g.attemptAsync(() => triggerTestRunCommand.handler({ apiToken: "tok", commitSha: H, baseSha: B, sessionIds: pinned ? "s1" : undefined, maxDurationSeconds: raw, ...(pinned ? { project: "o/p" } : {}), dontWaitForTestRunToComplete: true, json: false }));
  const run = w.asked(RUN), ok = good && (most === undefined || pinned);
  g.ensure("sent as it is, or not run", ok ? exits[0] === 0 && run.length === 1 && run[0].body.maxDurationSeconds === most && w.log.every((e) => e.put !== undefined || e.query.project === (pinned ? "o/p" : undefined)) : exits[0] !== 0 && w.log.length === 0);
});
