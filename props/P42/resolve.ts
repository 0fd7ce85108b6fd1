import { contract } from "vf";
import { resolveDebugContext } from "repo:debug-workspace/src/resolve-debug-context";

class Exit extends Error {}
const still = (g) => { g.setGlobal("console", { log() {}, info() {}, warn() {}, error() {}, debug() {} }); const p = { env: {}, code: undefined, exit(c) { p.code = c; throw new Exit("exit"); } }; g.setGlobal("process", p); return p; };
const gone = () => { throw Object.assign(new Error("Request failed with status code 404"), { response: { status: 404 }, isFetchError: true }); };
const client = (answer) => { const c = { asked: [], get: async (path) => { c.asked.push(path); await undefined; return { data: answer(path) }; } }; return c; };
const ask = (c, o) => resolveDebugContext({ client: c, replayDiffId: undefined, replayIds: [], sessionId: undefined, screenshot: undefined, ...o });
contract("of a diff, its two replays, each as what it is", {}, async (g) => {
  still(g); const head = g.string("head", ["r1"]), base = g.choose("base is", ["another", "the same"]) === "another" ? g.string("base", ["r2"]) : head, of = g.opt("session", () => g.string("session of it", ["s1"])), given = g.opt("given", () => g.string("session given", ["s2"])), run = g.choose("run", ["none", "known", "without a base", "gone"]), sha = g.opt("commit", () => g.string("sha", ["abc"])), count = g.choose("screenshots", [undefined, 0, 2]), screenshot = g.opt("screenshot", () => g.string("a screenshot", ["a.png"]));
  g.assume(of !== "" && given !== ""); const diff = { headReplay: { id: head, sessionId: of, commitSha: sha, meticulousSha: "m1" }, baseReplay: { id: base, meticulousSha: "m2", commitSha: "not this" }, project: { id: "p1", name: "p", organization: { name: "o" } }, ...(run === "none" ? {} : { testRun: { id: "t1", status: "Failure" } }), data: count === undefined ? undefined : { screenshotDiffResults: count === 0 ? [] : [{}, {}] } };
  const c = client((p) => (p === "replay-diffs/d1" ? diff : p === "test-runs/t1" ? (run === "gone" ? gone() : { executionSha: "e1", configData: run === "known" ? { arguments: { baseCommitSha: "b1" } } : {} }) : gone())), r = await ask(c, { replayDiffId: "d1", sessionId: given, screenshot });
  const session = of ?? given, d = r.replayDiffs[0];
  g.ensure("the diff", r.replayDiffs.length === 1 && d.id === "d1" && d.headReplayId === head && d.baseReplayId === base && d.sessionId === session && d.numScreenshotDiffs === (count ?? 0));
  g.ensure("its replays, each once", head === base ? r.replayIds.length === 1 && r.replayIds[0] === head : r.replayIds.length === 2 && r.replayIds[0] === head && r.replayIds[1] === base);
  g.ensure("its session, if there is one", session === undefined ? r.sessionIds.length === 0 : r.sessionIds.length === 1 && r.sessionIds[0] === session);
  g.ensure("the commits of each", r.commitSha === sha && r.meticulousSha === "m1" && r.baseMeticulousSha === "m2" && r.baseCommitSha === (run === "known" ? "b1" : undefined));
  g.ensure("the run", r.testRunId === (run === "none" ? undefined : "t1") && r.testRunStatus === (run === "none" ? undefined : "Failure") && r.projectId === "p1" && r.orgAndProject === "o/p" && r.screenshot === screenshot);
});
contract("of replays, those there are", { bounded: "up to three replays" }, async (g) => {
  const p = still(g), n = g.int("replays", 1, 3), ids = ["r1", "r2", "r3"].filter((_, i) => i < n), there = ids.map((x) => g.bool(x + " is there")), session = (x) => sessions[ids.indexOf(x)], sessions = ids.map((x) => g.choose(x + " session", [undefined, "s1", "s2"])), given = g.choose("given", [undefined, "s1", "s9"]);
  const c = client((path) => { const x = path.slice("replays/".length); return ids.includes(x) && there[ids.indexOf(x)] ? { id: x, sessionId: session(x), projectId: "p-" + x, commitSha: "c-" + x, meticulousSha: "m-" + x } : gone(); });
  const r = await g.attemptAsync(() => ask(c, { replayIds: ids, sessionId: given })), found = ids.filter((_, i) => there[i]), differ = found.length === 2 && session(found[0]) !== undefined && session(found[1]) !== undefined && session(found[0]) !== session(found[1]);
  if (found.length === 0 || differ) { g.ensure("refused", !r.ok && p.code === 1); return; }
  const want = [...new Set([...found.map(session), given].filter((s) => s !== undefined))];
  g.ensure("as they were given", r.ok && JSON.stringify(r.value.replayIds) === JSON.stringify(found) && r.value.replayDiffs.length === 0);
  g.ensure("with their sessions", JSON.stringify([...r.value.sessionIds].sort()) === JSON.stringify(want.sort()));
  g.ensure("the first is what is looked at", r.value.commitSha === "c-" + found[0] && r.value.meticulousSha === "m-" + found[0] && r.value.projectId === "p-" + found[0] && r.value.baseMeticulousSha === (found.length > 1 ? "m-" + found[1] : undefined));
});
contract("what is not there, or cannot be asked, is an error", {}, async (g) => {
  const p = still(g), how = g.choose("how", ["no diff", "service down", "diff and down"]), c = client(() => { if (how === "no diff") gone(); throw new Error("down"); });
  const r = await g.attemptAsync(() => ask(c, how === "service down" ? { replayIds: ["r1", "r2"] } : { replayDiffId: "d1" })); g.ensure("an error", !r.ok); g.ensure("of its kind", how === "no diff" ? p.code === 1 : p.code === undefined);
});
