import { contract } from "vf";
import { disk } from "fs";
import { fetchDomDiffs } from "repo:debug-workspace/src/fetch-dom-diffs";

const still = (g) => g.setGlobal("console", { log() {}, info() {}, warn() {}, error() {}, debug() {} }), AT = "/ws/debug-data/dom-diffs/";
const diffOf = (id) => ({ id, headReplayId: "h-" + id, baseReplayId: "b-" + id, sessionId: "s1", numScreenshotDiffs: 1 }), label = (id) => "h-" + id + "-vs-b-" + id;
const world = (diffs) => { for (const id of Object.keys(diffs)) if (diffs[id] !== undefined) disk.put("/ws/debug-data/diffs/" + id + ".json", typeof diffs[id] === "string" ? diffs[id] : JSON.stringify({ data: { screenshotDiffResults: diffs[id] } })); disk.put("/ws/debug-data/x", "kept"); return { replayDiffs: Object.keys(diffs).map(diffOf), replayIds: [], sessionIds: [] }; };
const NAMES = ["final-state", "screenshot-after-event-00003"], IDS = [{ type: "end-state" }, { type: "after-event", eventNumber: 3 }], BACK = ["end-state", "after-event-3"], NONE = ["no-diff", "missing-base", "missing-head", "missing-base-and-head"];
contract("the differences of each screenshot, whole", { bounded: "two screenshots" }, async (g) => {
  still(g); const outcomes = IDS.map((_, i) => g.choose("outcome " + String(i), i === 0 ? ["diff", "flake", "different-size", "new kind", ...NONE] : ["diff", "no-diff"])), first = g.string("hunk", ["-a\n+b"]), hunks = g.choose("hunks", [0, 1, 2]), full = g.choose("full", ["there", "fails"]), fails = g.choose("fails", [-1, 0]), asked = [];
  const ctx = world({ d1: IDS.map((identifier, i) => ({ identifier, outcome: outcomes[i] })) });
  const r = await g.attemptAsync(() => fetchDomDiffs({ client: {}, debugContext: ctx, workspaceDir: "/ws", maxConcurrency: 1, fetchScreenshotDiff: async (_c, id, name, context) => { asked.push([id, name]); await undefined; if (fails >= 0 && BACK[fails] === name) throw new Error("down"); if (context === "full" && full === "fails") throw new Error("down"); const all = [name + first, "@" + name].slice(0, hunks).map((x) => ({ content: (context === "full" ? "full " : "") + x })); return { diffs: all, totalDiffs: all.length }; } }));
  g.ensure("never an error", r.ok);
  IDS.forEach((_, i) => {
    const has = !NONE.includes(outcomes[i]) && hunks > 0 && fails !== i, body = (p) => [BACK[i] + first, "@" + BACK[i]].slice(0, hunks).map((x) => p + x).join("\n\n"), e = r.value[label("d1") + "/" + NAMES[i]], file = AT + label("d1") + "-" + NAMES[i];
    g.ensure("known by its replays and name", (e !== undefined) === has);
    g.ensure("its differences", disk.text(file + ".diff") === (has ? body("") : undefined)); g.ensure("and with all around them", disk.text(file + ".full.diff") === (has && full === "there" ? body("full ") : undefined));
    if (has) g.ensure("where they are said to be", e.diffPath === "dom-diffs/" + label("d1") + "-" + NAMES[i] + ".diff" && e.fullDiffPath === (full === "there" ? "dom-diffs/" + label("d1") + "-" + NAMES[i] + ".full.diff" : null) && e.totalHunks === hunks);
    g.ensure("asked of the service only if there may be any", asked.some((a) => a[0] === "d1" && a[1] === BACK[i]) === !NONE.includes(outcomes[i]));
  });
});
contract("a diff that cannot be read does not keep the others", { bounded: "three diffs" }, async (g) => {
  still(g); const bad = g.choose("bad", ["d1", "d2", "d3", "none"]), how = g.choose("how", [undefined, "{", "{}", "null", '{"data":{}}', '{"data":{"screenshotDiffResults":[]}}']), one = [{ identifier: IDS[0], outcome: "diff" }], diffs = { d1: one, d2: one, d3: one }; if (bad !== "none") diffs[bad] = how;
  const r = await g.attemptAsync(() => fetchDomDiffs({ client: {}, debugContext: world(diffs), workspaceDir: "/ws", fetchScreenshotDiff: async (_c, id) => ({ diffs: [{ content: id }], totalDiffs: 1 }) })); g.ensure("never an error", r.ok);
  for (const id of ["d1", "d2", "d3"]) g.ensure("each has its own", disk.text(AT + label(id) + "-final-state.diff") === (id === bad ? undefined : id));
});
contract("nothing is written but there", {}, async (g) => {
  still(g); const reason = g.choose("reason", ["../../../../x", "a/b", "..\\x", "ok"]), id = g.choose("id", ["d1", "../d1", "a/../../d1"]), ctx = world({ d1: [{ identifier: { type: "auxiliary", eventNumber: 1, sequenceNumber: 1, reason }, outcome: "diff" }] }); ctx.replayDiffs = [{ ...ctx.replayDiffs[0], headReplayId: id }]; const before = [...disk.files.keys()];
  const r = await g.attemptAsync(() => fetchDomDiffs({ client: {}, debugContext: ctx, workspaceDir: "/ws", fetchScreenshotDiff: async () => ({ diffs: [{ content: "x" }], totalDiffs: 1 }) }));
  g.ensure("nothing", r.ok && [...disk.files.keys()].every((p) => before.includes(p) || (p.startsWith(AT) && !p.slice(AT.length).includes("/"))));
});
contract("without diffs nothing is asked or written", {}, async (g) => { still(g); const asked = []; const r = await fetchDomDiffs({ client: {}, debugContext: world({}), workspaceDir: "/ws", fetchScreenshotDiff: async () => { asked.push(1); return { diffs: [], totalDiffs: 0 }; } }); g.ensure("nothing", asked.length === 0 && Object.keys(r).length === 0 && disk.files.size === 1); });
