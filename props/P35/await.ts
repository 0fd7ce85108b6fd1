import { contract } from "vf";
import { commands } from "child_process";
import { awaitTestRunCompletion, ensureTestRunFinished, assertTestRunComplete, resolveTestRunForCommitOrThrow, tryResolveTestRunForCommit, isTestRunInProgress, isTestRunComplete, isTestRunFailed, isTestRunPartial } from "repo:cli/src/utils/resolve-test-run-from-commit";
import { CliUserError } from "repo:cli/src/utils/cli-user-error";
import { waitForBaseRunCompletion } from "repo:cli/src/commands/agent/complete-base-run.command";
import { parseMaxDurationSecondsArg } from "repo:cli/src/commands/agent/trigger-test-run.command";
import { buildClient } from "repo:client/src/client";
import { world, quiet } from "./lib";

const RUNNING = ["PreProcessing", "Scheduled", "Running", "PostProcessing"], ALL = [...RUNNING, "Success", "Failure", "Partial", "Skipped", "Aborted", "ExecutionError"], BAD = ["Aborted", "ExecutionError"];
contract("a status is still running, usable, failed, partial or skipped", {}, async (g) => {
  const s = g.choose("status", ALL), e = await g.attemptAsync(async () => assertTestRunComplete("t1", s, g.bool("named") ? { resultName: "diffs" } : {}));
  g.ensure("exactly one of them", isTestRunInProgress(s) === RUNNING.includes(s) && isTestRunComplete(s) === ["Success", "Failure"].includes(s) && isTestRunFailed(s) === BAD.includes(s) && isTestRunPartial(s) === (s === "Partial"));
  g.ensure("results only of a usable one", e.ok === isTestRunComplete(s) && (e.ok || (e.error instanceof CliUserError && e.error.message.includes("t1"))));
});
contract("waiting ends when the run does, or after ten minutes", { bounded: "the listed histories" }, async (g) => {
  const last = g.choose("ends as", ["Success", "Failure", "Partial", "Skipped", "Aborted", "ExecutionError"]), after = g.choose("after", [0, 1, 59, 60, 61]), while_ = g.choose("while", RUNNING), how = g.choose("how", ["plain", "throws", "does not throw"]); g.assume(after < 2 || while_ === "Running");
  const w = world(g, (_p, _e, k) => ({ data: { id: "t1", status: k < after ? while_ : last } })), r = await g.attemptAsync(() => awaitTestRunCompletion(buildClient("tok", quiet), "t1", ...(how === "plain" ? [] : [{ throwOnFailure: how === "throws" }])));
  const late = after > 60, bad = BAD.includes(last) && how !== "does not throw";
  g.ensure("its status, or an error that names it", late || bad ? !r.ok && r.error instanceof CliUserError && r.error.message.includes("t1") : r.ok && r.value === last);
  g.ensure("it was asked about with pauses", w.asked("test-runs/t1").length === (late ? 61 : after + 1) && w.waits.every((m) => m >= 1000));
});
contract("not waiting waits for nothing", {}, async (g) => {
  const s = g.choose("status", ALL), now = g.choose("later", ["Success", "Aborted"]), lax = g.bool("lax"), w = world(g, () => ({ data: { id: "t1", status: now } })), r = await g.attemptAsync(() => ensureTestRunFinished(buildClient("tok", quiet), "t1", s, { dontWait: true, ...(lax ? { throwOnFailure: false } : {}) }));
  g.ensure("nothing, when it still runs", !RUNNING.includes(s) || (r.ok && r.value === null && w.log.length === 0));
  g.ensure("else how it ended", RUNNING.includes(s) || (now === "Aborted" && !lax ? !r.ok : r.ok && r.value === now));
  g.ensure("no pause", w.waits.length === 0);
});
contract("waiting for a run asks how it ended", {}, async (g) => {
  const s = g.choose("status", ["Running", "Success"]), n = g.choose("after", [0, 2]), w = world(g, (_p, _e, k) => ({ data: { id: "t1", status: k < n ? "Running" : "Failure" } })), r = await g.attemptAsync(() => ensureTestRunFinished(buildClient("tok", quiet), "t1", s, { dontWait: false }));
  g.ensure("at its end", r.ok && r.value === "Failure" && w.log.length === n + 1);
});
contract("a commit's run is looked up as it was named", {}, async (g) => {
  const named = g.bool("named"), git = g.choose("git", ["sha", "none"]), found = g.choose("found", ["run", "none", "no status", "fails"]), project = g.choose("project", [undefined, "org/p"]), quietly = g.bool("quietly");
  commands.answer = (c) => (git === "none" ? { stdout: "", stderr: "", error: new Error("Command failed: " + c) } : { stdout: c.includes("rev-parse") ? "head1\n" : "", stderr: "", error: null });
  const w = world(g, (p) => (p === "agent/test-runs" ? (found === "fails" ? { status: 403, data: {} } : { data: found === "run" ? { testRunId: "t1", status: "Running" } : found === "none" ? { testRunId: null, status: null } : { testRunId: "t1", status: null } }) : p === "agent/project" ? { data: { source: "default", slug: "org/mine" } } : {}));
  g.setGlobal("console", { error() {}, log() {}, warn() {}, info() {} });
  const r = await g.attemptAsync(() => (quietly ? tryResolveTestRunForCommit : resolveTestRunForCommitOrThrow)(buildClient("tok", quiet), named ? "c1" : undefined, project)), sha = named ? "c1" : git === "sha" ? "head1" : undefined, asked = w.asked("agent/test-runs");
  g.ensure("by that commit, or the one checked out", asked.length === (sha === undefined ? 0 : 1) && (sha === undefined || (asked[0].query.commitSha === sha && asked[0].query.project === project)));
  g.ensure("the run there is", sha === undefined || found !== "run" || (r.ok && r.value.testRunId === "t1" && r.value.status === "Running"));
  g.ensure("else none", (sha !== undefined && found === "run") || (quietly ? r.ok && r.value === null : !r.ok && (found === "fails" && sha !== undefined ? !(r.error instanceof CliUserError) : r.error instanceof CliUserError && (sha === undefined || r.error.message.includes(sha)))));
});
contract("a base run is waited for until it can give no more", { bounded: "the listed histories" }, async (g) => {
  const lost = g.choose("lost", [0, 1]), done = g.choose("done", [1, 2, 3]), at = g.choose("from", [1, 4]), settles = g.choose("settles", [1, 3, 7, 99]), end = g.choose("ends", ["Success", "Failure"]), dies = g.choose("dies", ["no", "Aborted", "Skipped"]); g.assume(dies === "no" || (done === 3 && at === 1));
  const results = (k) => ["a", "b", "c"].slice(0, k + 1 >= at ? done : 1).map((sessionId) => ({ sessionId })), status = (k) => (dies !== "no" && k >= 1 ? dies : k + 1 >= settles ? end : "Partial");
  let reads = 0;
  const w = world(g, (p) => { if (p.endsWith("complete-base-run")) return { data: { status: status(reads - 1), unexecutedSessionCount: 3 - results(reads - 1).length, unobtainableSessionCount: lost, sessionsScheduled: 0 } }; const k = reads++; return { data: { id: "t1", status: status(k), configData: { testCases: ["a", "b", "c", "a"].map((sessionId) => ({ sessionId })) }, resultData: { results: results(k) } } }; });
  g.setGlobal("console", { error() {}, log() {}, warn() {}, info() {} });
  const r = await g.attemptAsync(() => waitForBaseRunCompletion(buildClient("tok", quiet), "t1", { status: "Partial", unexecutedSessionCount: 2, unobtainableSessionCount: lost })), enough = 3 - done <= lost, until = Math.max(at, settles), first = enough && until <= 60 ? until : dies !== "no" ? 2 : 61;
  const fails = dies !== "no" && !(enough && until < 2);
  g.ensure("a run that died is an error", fails === !r.ok && (r.ok || r.error instanceof CliUserError));
  g.ensure("asked while more can come, for ten minutes", fails || reads === Math.min(first, 60));
  g.ensure("what it has is the result", fails || (r.value.status === status(reads - 1) && r.value.unexecutedSessionCount === 3 - results(reads - 1).length && r.value.unobtainableSessionCount === lost));
  g.ensure("now and then it is asked to go on", fails || w.asked("agent/test-runs/t1/complete-base-run").length === Math.floor(reads / 6));
});
contract("a limit is a positive number of seconds, or none", {}, async (g) => {
  const raw = g.choose("raw", [undefined, "none", " NONE ", "1", "300", " 45 ", "0", "-1", "1.5", "ten", "", "5s", "Infinity", "NaN"]), r = await g.attemptAsync(async () => parseMaxDurationSecondsArg(raw));
  g.ensure("as written", raw === undefined ? r.ok && r.value === undefined : raw.trim().toLowerCase() === "none" ? r.ok && r.value === null : ["1", "300", " 45 "].includes(raw) ? r.ok && r.value === Number(raw) : !r.ok && r.error instanceof CliUserError);
});
