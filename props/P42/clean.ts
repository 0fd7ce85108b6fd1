import { contract } from "vf";
import { commands } from "child_process";
import { disk } from "fs";
import { asked } from "inquirer";
import { cleanWorkspaces } from "repo:cli/src/commands/debug/clean-workspaces";
import { createProjectWorktree, removeProjectWorktree } from "repo:cli/src/commands/debug/project-worktree";
import { getDebugSessionsDir } from "repo:debug-workspace/src/debug-constants";

const still = (g) => { g.setGlobal("process", { env: {}, cwd: () => "/cwd" }); g.setGlobal("console", { log() {}, info() {}, warn() {}, error() {}, debug() {} }); };
const NAMES = ["debug-1", "debug-10", "x y"];
const world = (g) => {
  still(g); const at = getDebugSessionsDir(), n = g.int("workspaces", 0, 3), names = NAMES.filter((_, i) => i < n);
  for (const w of names) { disk.put(at + "/" + w + "/debug-data/a.json", "1"); disk.put(at + "/" + w + "/project-repo/b", "2"); }
  disk.put(at + "/note.txt", "kept"); disk.put(at + "-other/x", "kept"); disk.put("/cwd/debug-1/x", "kept"); disk.put(at.slice(0, at.lastIndexOf("/")) + "/config.json", "kept");
  const others = [...disk.files.keys()].filter((p) => !names.some((w) => p.startsWith(at + "/" + w + "/")));
  return { at, names, left: () => names.filter((w) => [...disk.files.keys()].some((p) => p.startsWith(at + "/" + w + "/"))), safe: () => others.every((p) => disk.files.has(p)) };
};
contract("all of them, and nothing else", {}, async (g) => {
  const w = world(g), told = [], stuck = g.int("cannot be removed", -1, 2); disk.fails = (op, p) => op === "rm" && stuck >= 0 && stuck < w.names.length && (p + "/").startsWith(w.at + "/" + w.names[stuck] + "/");
  const r = await g.attemptAsync(() => cleanWorkspaces({ all: true, beforeDelete: (d) => { told.push([d, w.left().some((x) => d === w.at + "/" + x)]); } }));
  g.ensure("removed, but what cannot be", r.ok && JSON.stringify(w.left()) === JSON.stringify(w.names.filter((_, i) => i === stuck))); g.ensure("all else is there", w.safe()); g.ensure("unasked", asked.list.length === 0);
  g.ensure("each was told of while it was there", JSON.stringify(told.map((t) => t[0]).sort()) === JSON.stringify(w.names.map((x) => w.at + "/" + x).sort()) && told.every((t) => t[1]));
});
contract("only those chosen", {}, async (g) => {
  const w = world(g), action = g.choose("action", ["all", "select", "cancel"]), confirm = g.bool("confirmed"), pick = w.names.map((_, i) => g.bool("chosen " + String(i)));
  asked.answer = (q) => (q.type === "confirm" ? confirm : q.type === "checkbox" ? q.choices.map((c) => c.value).filter((v) => w.names.some((x, i) => pick[i] && v === w.at + "/" + x)) : action);
  const r = await g.attemptAsync(() => cleanWorkspaces({}));
  const gone = w.names.filter((_, i) => (action === "all" ? confirm : action === "select" && pick[i]));
  g.ensure("they are gone, the others are not", r.ok && JSON.stringify(w.left()) === JSON.stringify(w.names.filter((x) => !gone.includes(x)))); g.ensure("all else is there", w.safe());
  g.ensure("nothing is asked when there is nothing to remove", w.names.length > 0 || asked.list.length === 0);
});
contract("without a folder there is nothing to do", {}, async (g) => { still(g); disk.put("/cwd/a", "kept"); const r = await g.attemptAsync(() => cleanWorkspaces({ all: g.bool("all") })); g.ensure("nothing", r.ok && disk.files.size === 1 && asked.list.length === 0); });
contract("the worktree of a workspace is removed with it, and no other", {}, (g) => {
  still(g); const there = g.bool("there"), inside = g.bool("in a repository"), fails = g.bool("git fails"); if (there) disk.put("/ws/project-repo/x", "1"); disk.put("/ws/other/x", "kept");
  commands.answer = (cmd) => { const bad = { stdout: "", stderr: "", error: new Error("exit 128") }; return cmd.includes("rev-parse") ? (inside ? { stdout: "/repo\n", stderr: "", error: null } : bad) : fails ? bad : { stdout: "", stderr: "", error: null }; };
  const r = g.attempt(() => removeProjectWorktree("/ws")), list = commands.list.filter((c) => c.includes("worktree"));
  g.ensure("never an error", r.ok); g.ensure("asked of git, once", there && inside ? list.length === 1 && list[0].startsWith("git worktree remove") && list[0].includes("/ws/project-repo") : list.length === 0); g.ensure("the rest is there", disk.files.has("/ws/other/x"));
});
contract("the code is that of the replay, beside its data", {}, (g) => {
  still(g); const sha = g.choose("commit", [undefined, "abc1234def", "0f"]), inside = g.bool("in a repository"), fetched = g.bool("it can be fetched"), made = g.bool("it can be checked out"), dirs = [];
  commands.answer = (cmd, o) => { const bad = { stdout: "", stderr: "", error: new Error("exit 128") }, ok = { stdout: "", stderr: "", error: null }; if (cmd.includes("rev-parse")) return inside ? { ...ok, stdout: "/repo\n" } : bad; dirs.push(o.cwd); return cmd.includes("fetch") ? (fetched ? ok : bad) : made ? ok : bad; };
  const r = g.attempt(() => createProjectWorktree({ debugContext: { commitSha: sha }, workspaceDir: "/ws" })), add = commands.list.filter((c) => c.includes("worktree add")), go = sha !== undefined && inside;
  g.ensure("never an error", r.ok); g.ensure("the folder, when there is one", r.value === (go && made ? "/ws/project-repo" : undefined));
  g.ensure("of that commit, of this repository", go ? add.length === 1 && add[0].includes("/ws/project-repo") && add[0].split(" ").includes(sha) && dirs.every((d) => d === "/repo") : add.length === 0);
});
