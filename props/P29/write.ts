import { contract } from "vf";
import { resolveSafeWritePath, mkdirSafeSync, writeFileSafeSync, copyFileSafeSync, normalizeRelativeRepoPath, isPathInsideRoot, assertWorkspaceInsideProject, isRealDirectoryInsideProject, resolveRealProjectRoot } from "repo:cli/src/commands/onboard/safe-repo-fs";
import { disk, world, place, shot, outside, attempt, refused, isLink, STATES, ROOT } from "./lib";

// [path asked for, where it leads inside the project (null: refused whatever the project holds)]
const PATHS = [["a", "a"], ["a/b", "a/b"], ["a/b/c", "a/b/c"], ["./a/b", "a/b"], ["a//b", "a/b"], ["a/./b/", "a/b"], ["in/../a/b", "a/b"], ["a/../b", "b"], ["..a/b", "..a/b"], ["a..", "a.."], [".a/..b/c", ".a/..b/c"],
  ["..", null], ["../o/x", null], ["../p2/x", null], ["../p/../o/x", null], ["a/../../o/x", null], ["a/b/../../../o", null], ["in/../..", null], ["/w/o/x", null], ["/w/p/a", null], ["", null], [".", null], ["..\\o\\x", null], ["a\\..\\..\\x", null], ["./../o/x", null]];
const how = (g) => g.choose("operation", ["resolve", "write", "mkdir", "copy"]);
const act = (op, root, rel, data) => attempt(() => (op === "resolve" ? resolveSafeWritePath(root, rel) : op === "write" ? writeFileSafeSync(root, rel, data) : op === "mkdir" ? mkdirSafeSync(root, rel) : copyFileSafeSync(root, rel, "/src/t")));

contract("a path out of the project is refused and nothing is written", { bounded: "the listed paths" }, (g) => {
  world(); const root = g.choose("root", [ROOT, "/w/l"]), [rel, to] = g.choose("path", PATHS), op = how(g), data = g.string("data"); g.assume(to === null);
  const before = shot(), r = act(op, root, rel, data);
  g.ensure("refused", refused(r));
  g.ensure("nothing is written", shot() === before);
});
contract("a path without links is written, there and nowhere else", { bounded: "the listed paths and trees" }, (g) => {
  world(); const root = g.choose("root", [ROOT, "/w/l"]), [rel, to] = g.choose("path", PATHS), op = how(g), data = g.string("data"); g.assume(to !== null);
  const s = g.choose("its first part", ["missing", "dir"]), parts = to.split("/"), at = ROOT + "/" + to, leaf = parts.length === 1; place(ROOT + "/" + parts[0], s);
  const there = g.bool("there already"); if (there && op !== "mkdir" && !(leaf && s === "dir")) disk.put(at, "old");
  const mine = (p) => p === at || at.startsWith(p + "/"), before = shot(mine), all = shot(), r = act(op, root, rel, data);
  g.ensure("nothing else changes", shot(mine) === before);
  if (leaf && s === "dir" && (op === "write" || op === "copy")) g.ensure("a directory is not overwritten", !r.ok && shot() === all);
  else {
    g.ensure("accepted, where it leads", r.ok && r.value === at);
    if (op === "resolve") g.ensure("nothing is written", shot() === all);
    else if (op === "mkdir") g.ensure("a directory", disk.dirs.has(at));
    else g.ensure("its text", disk.text(at) === (op === "copy" ? "template" : data));
  }
});
contract("nothing is written through a link, nor beneath a file", { bounded: "the listed trees" }, (g) => {
  world(); const root = g.choose("root", [ROOT, "/w/l"]), depth = g.choose("depth", [0, 1, 2]), s = g.choose("there", STATES.filter((x) => x !== "missing" && x !== "dir")), below = g.choose("below", ["", "/x", "/x/y", "/d/f"]), op = how(g), data = g.string("data");
  const rel = ["a", "a/b", "a/b/c"][depth]; if (depth > 0) disk.put(ROOT + "/a/keep", "kept"); if (depth > 1) disk.put(ROOT + "/a/b/keep", "kept"); place(ROOT + "/" + rel, s);
  const before = shot(), r = act(op, root, rel + below, data);
  if (s === "file" && below === "") { if (op === "mkdir") g.ensure("a file is no directory", !r.ok && shot() === before); else g.ensure("a file is replaced", r.ok && (op === "resolve" || disk.text(ROOT + "/" + rel) === (op === "copy" ? "template" : data))); }
  else {
    g.ensure("refused", s === "file" ? !r.ok : refused(r));
    g.ensure("nothing is written", shot() === before);
  }
});
contract("a link planted while the directories are made is refused", { bounded: "the listed targets" }, (g) => {
  world(); const to = g.choose("to", ["/w/o", "/w/o/f", "/w/o/new", "/w/p/in"]), at = g.choose("at", ["/w/p/a/b/c", "/w/p/a/b"]), op = g.choose("operation", ["write", "copy", "mkdir"]), data = g.string("data");
  disk.fails = (o, p) => { if (o === "mkdir" && (p === "/w/p/a/b" || p === "/w/p/a/b/c") && !disk.links.has(at)) disk.link(at, to); return false; };
  const before = outside(), r = act(op, ROOT, "a/b/c", data);
  g.ensure("refused", !r.ok);
  g.ensure("nothing is written elsewhere", op === "mkdir" || outside() === before);
});
contract("a path is inside exactly when it is the root or beneath it", { bounded: "the listed paths" }, (g) => {
  const root = g.choose("root", ["/w/p", "/", "/w/p/"]), p = g.choose("path", ["/w/p", "/w/p/a", "/w/p/a/b", "/w/p2", "/w/p2/a", "/w", "/", "/w/p/../o", "/w/p/..a", "/w/p/../p/a", "/o/w/p", "/w/px/..", "/w/p/..."]);
  const norm = { "/w/p/../o": "/w/o", "/w/p/../p/a": "/w/p/a", "/w/px/..": "/w" }[p] ?? p;
  g.ensure("so", isPathInsideRoot(root, p) === (root === "/" || norm === "/w/p" || norm.startsWith("/w/p/")));
});
contract("the root is where its path leads", { bounded: "the listed roots" }, (g) => {
  world(); disk.link("/w/gone", "/w/nothing"); const p = g.choose("root", ["/w/p", "/w/l", "/w/p/", "/w/p/in/..", "/w/nothing", "/w/gone", "/w/l/in"]), r = attempt(() => resolveRealProjectRoot(p));
  const to = { "/w/p": ROOT, "/w/l": ROOT, "/w/p/": ROOT, "/w/p/in/..": ROOT, "/w/l/in": ROOT + "/in" }[p];
  if (to === undefined) g.ensure("none", refused(r)); else g.ensure("its own path", r.ok && r.value === to);
});
contract("a workspace is the project's own directory", { bounded: "the listed workspaces" }, (g) => {
  world(); disk.put("/w/p/ws/f", ""); disk.link("/w/p/out", "/w/o"); disk.link("/w/p/ln", "/w/p/ws"); disk.link("/w/p/no", "/w/none"); disk.link("/w/in", "/w/p/ws");
  const root = g.choose("root", [ROOT, "/w/l"]), p = g.choose("workspace", ["/w/p/ws", "/w/l/ws", "/w/p/out", "/w/p/out/d", "/w/p/ln", "/w/p/no", "/w/p/none", "/w/o", "/w/p2", "/w/p/../o", "/w", "/w/in"]), r = attempt(() => assertWorkspaceInsideProject(root, p));
  if (p === "/w/p/ws" || p === "/w/l/ws") g.ensure("accepted as what it is", r.ok && r.value === "/w/p/ws"); else g.ensure("refused", refused(r));
});
contract("an app's directory is real and inside", { bounded: "the listed directories" }, (g) => {
  world(); disk.put("/w/p/ws/f", ""); disk.link("/w/p/out", "/w/o"); disk.link("/w/p/ln", "/w/p/ws"); disk.link("/w/p/no", "/w/none");
  const root = g.choose("root", [ROOT, "/w/l"]), p = g.choose("directory", ["/w/p/ws", "/w/l/ws", "/w/p", "/w/p/out", "/w/p/out/d", "/w/p/ln", "/w/p/no", "/w/p/none", "/w/p/ws/f", "/w/o", "/w/p2", "/w/p/../o", "/w"]);
  g.ensure("so", isRealDirectoryInsideProject(root, p) === (p === "/w/p/ws" || p === "/w/l/ws" || p === "/w/p"));
});
