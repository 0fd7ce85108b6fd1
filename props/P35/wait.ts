import { contract } from "vf";
import { findTestRunForCustomChecks, findTestRunByCommitForCustomChecks } from "repo:custom-checks/src/wait-for-test-run";
import { buildClient } from "repo:client/src/client";
import { world, quiet } from "./lib";

const RUNNING = ["PreProcessing", "Scheduled", "Running", "PostProcessing"], NONE = ["Skipped", "Aborted", "ExecutionError"], over = (s) => !RUNNING.includes(s);
const call = (w, o) => findTestRunForCustomChecks({ client: buildClient("tok", quiet), testRunId: "t1", pollIntervalMs: 1000, ...o });
contract("the run is waited for until it is over, and no longer than was said", { bounded: "the listed histories" }, async (g) => {
  const last = g.choose("ends as", ["Success", "Failure", "Partial", "Skipped", "Aborted", "ExecutionError"]), after = g.choose("after", [0, 1, 3, 4, 5]), while_ = g.choose("while", RUNNING), most = g.choose("at most", [undefined, 3000]);
  const w = world(g, (p, e, k) => (p === "test-runs/t1" ? { data: { id: "t1", status: k < after ? while_ : last } } : p.endsWith("network-patching-result") ? { status: 404, data: {} } : {}));
  const r = await g.attemptAsync(() => call(w, most === undefined ? {} : { timeoutMs: most })), late = most !== undefined && after > 4;
  g.ensure("over is over, too late is an error", late ? !r.ok && r.error.message.includes("t1") && r.error.message.includes(while_) : r.ok && r.value.testRunId === "t1" && r.value.testRun.status === last);
  g.ensure("asked again with the pause given, while it runs", w.asked("test-runs/t1").length === (late ? 5 : after + 1) && w.waits.every((m) => m === 1000) && w.waits.length === (late ? 4 : after));
  g.ensure("a run with nothing to check is marked and waited on for nothing", late || !NONE.includes(last) || w.log.length === after + 1);
  g.ensure("one with results is marked, once", late || NONE.includes(last) || w.asked("test-runs/t1/expect-custom-checks").length === 1);
});
contract("a run that cannot be read is an error", {}, async (g) => {
  const st = g.choose("status", [400, 401, 403, 404]), w = world(g, () => ({ status: st, data: { message: "no" } }));
  const r = await g.attemptAsync(() => call(w, {}));
  g.ensure("and nothing is marked", !r.ok && r.error.response.status === st && w.log.length === 1);
});
// patching: what the service says in turn
const PATCH = { none: () => ({ status: 404, data: {} }), null: () => ({ data: null }), same: () => ({ data: { isNetworkPatchingInProgress: false, effectiveTestRunId: "t1" } }), merged: () => ({ data: { isNetworkPatchingInProgress: false, effectiveTestRunId: "m1" } }), busy: () => ({ data: { isNetworkPatchingInProgress: true, effectiveTestRunId: "m0" } }), error: () => ({ status: 400, data: {} }) };
contract("results are for the run people see", { bounded: "up to 4 answers of each kind" }, async (g) => {
  const first = g.choose("first", ["none", "null", "same", "merged", "busy", "error"]), then = g.choose("then", ["same", "merged", "none", "on and on"]), times = g.choose("times", [1, 2]), most = g.choose("at most", [3000, 60000]), skip = g.bool("no registration"), fetched = g.choose("merged run", ["at once", "later", "never"]);
  const settles = (k) => (first !== "busy" && first !== "error" ? first : k < times || then === "on and on" ? first : then), isLate = then === "on and on" && (first === "busy" || first === "error");
  const w = world(g, (p, e, k) => (p === "test-runs/t1" ? { data: { id: "t1", status: "Success", from: "original" } } : p === "test-runs/t1/network-patching-result" ? PATCH[settles(k)]() : p.startsWith("test-runs/m") && !p.includes("expect") ? (fetched === "at once" || (fetched === "later" && k > 0) ? { data: { id: p.slice("test-runs/".length), status: "Success", from: "merged" } } : { status: 400, data: {} }) : {}));
  g.assume(most === 3000 || (!isLate && fetched !== "never"));
  const r = await call(w, { timeoutMs: most, ...(skip ? { skipRegisteringExpectedCustomChecks: true } : {}) }), last = isLate ? first : settles(times), id = last === "merged" ? "m1" : last === "busy" ? "m0" : "t1", seen = id !== "t1" && fetched !== "never" && !(fetched === "later" && isLate);
  g.ensure("the merged run if there is one and it can be had, else the run asked for", fetched === "later" && isLate && id !== "t1" ? r.testRunId === id || r.testRunId === "t1" : r.testRunId === (seen ? id : "t1") && r.testRun.id === r.testRunId && r.testRun.from === (seen ? "merged" : "original"));
  g.ensure("that one, and only that one, is marked, unless not wanted", JSON.stringify(w.log.filter((e) => e.path.includes("expect")).map((e) => e.path)) === JSON.stringify(skip ? [] : ["test-runs/" + r.testRunId + "/expect-custom-checks"]));
  g.ensure("the wait ends", w.now - 1700000000000 <= most + 2000);
});
const base = (id) => ({ configData: { arguments: { baseTestRunId: id } } });
contract("its base is over too, or cannot be waited for", { bounded: "up to 5 answers" }, async (g) => {
  const kind = g.choose("base", ["b1", "t1", "", "none", "odd", "null"]), on = g.choose("at first", ["running", "failing", "mixed"]), after = g.choose("after", [0, 2, 9]), then = g.choose("then", ["Success", "ExecutionError", "Partial", "gone", "forbidden"]);
  const conf = kind === "none" ? {} : kind === "odd" ? { configData: { arguments: { baseTestRunId: 7 } } } : kind === "null" ? { configData: { arguments: null } } : base(kind), waits = kind === "b1"; g.assume(waits || (after === 0 && then === "Success" && on === "running"));
  const w = world(g, (p, e, k) => (p === "test-runs/t1" ? { data: { id: "t1", status: "Failure", ...conf } } : p === "test-runs/b1" ? (k < after ? (on === "running" || (on === "mixed" && k % 2 === 1) ? { data: { id: "b1", status: "Running" } } : { status: 400, data: {} }) : then === "gone" ? { status: 404, data: {} } : then === "forbidden" ? { status: 403, data: {} } : { data: { id: "b1", status: then } }) : p.endsWith("patching-result") ? { data: null } : {}));
  const r = await call(w, { timeoutMs: 4000 });
  g.ensure("the run is the result all the same", r.testRunId === "t1" && r.testRun.status === "Failure");
  g.ensure("the base is asked for until it is over or will never be, within the time", w.asked("test-runs/b1").length === (!waits ? 0 : Math.min(after, 5) + 1) && w.log.filter((e) => e.path !== "test-runs/b1").length === 3);
  g.ensure("marked before that wait", !waits || w.log.findIndex((e) => e.path.includes("expect")) < w.log.findIndex((e) => e.path === "test-runs/b1"));
});
contract("marking is tried, and may fail", {}, async (g) => {
  const how = g.choose("how", [404, 400, 403]), w = world(g, (p) => (p.includes("expect") ? { status: how, data: {} } : p.endsWith("patching-result") ? { data: null } : { data: { id: "t1", status: "Success" } }));
  const r = await call(w, {});
  g.ensure("the run is the result", r.testRunId === "t1" && w.log.filter((e) => e.path.includes("expect")).length === 1);
});
contract("the latest run of a commit is the one waited for", {}, async (g) => {
  const has = g.choose("has", ["run", "none", "null", "fails"]), skip = g.bool("no registration"), w = world(g, (p, e, k) => (p === "test-runs/cache" ? (has === "run" ? { data: { id: "t1", status: "Running" } } : has === "null" ? { data: null } : { status: has === "none" ? 404 : 403, data: {} }) : p.endsWith("patching-result") ? { data: null } : p === "test-runs/t1" ? { data: { id: "t1", status: k === 0 ? "Running" : "Success" } } : {}));
  const r = await g.attemptAsync(() => findTestRunByCommitForCustomChecks({ client: buildClient("tok", quiet), commitSha: "abc", pollIntervalMs: 700, ...(skip ? { skipRegisteringExpectedCustomChecks: true } : {}) }));
  g.ensure("the commit asked about", w.log[0].path === "test-runs/cache" && w.log[0].query.commitSha === "abc");
  g.ensure("its run, over", has !== "run" || (r.ok && r.value.testRunId === "t1" && r.value.testRun.status === "Success" && w.waits[0] === 700 && w.waits.length === 1 && w.log.some((e) => e.path.includes("expect")) !== skip));
  g.ensure("no run is an error that names the commit", has === "run" || (!r.ok && w.log.length === 1 && (has === "fails" || r.error.message.includes("abc"))));
});
