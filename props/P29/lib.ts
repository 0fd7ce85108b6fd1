import { disk } from "fs";
import { CliUserError } from "repo:cli/src/utils/cli-user-error";

export { disk };
export const ROOT = "/w/p", OUT = "/w/o";
// a project at /w/p (also reached as /w/l), and around it files and directories that are none of its own
export const world = () => {
  disk.put("/w/o/f", "outside"); disk.put("/w/o/d/f", "outside too"); disk.put("/w/p2/f", "a neighbour"); disk.put("/src/t", "template");
  disk.put("/w/p/in/f", "inside"); disk.link("/w/l", "/w/p");
};
// what stands at a path of the project: nothing, a directory, a file, or a link somewhere
export const STATES = ["missing", "dir", "file", "outside", "inside", "dangling", "to a file", "neighbour", "loop"];
const LINKS = { outside: "/w/o", inside: "/w/p/in", dangling: "/w/o/new", "to a file": "/w/o/f", neighbour: "/w/p2" };
export const isLink = (s) => s in LINKS || s === "loop";
export const place = (p, s) => {
  if (s === "dir") disk.put(p + "/keep", "kept"); else if (s === "file") disk.put(p, "old"); else if (s === "loop") disk.link(p, p); else if (s in LINKS) disk.link(p, LINKS[s]);
};
// everything on the disk, but for the paths left out
export const shot = (but = (_p) => false) => [...[...disk.files].map(([p, f]) => [p, f.text]), ...[...disk.dirs].map((p) => [p, "/"]), ...[...disk.links].map(([p, t]) => [p, "-> " + t])].filter(([p]) => !but(p)).map(([p, t]) => p + " " + t).sort().join("\n");
export const inside = (p) => p === ROOT || p.startsWith(ROOT + "/");
export const outside = () => shot(inside);
export const attempt = (f) => { try { return { ok: true, value: f() }; } catch (e) { return { ok: false, value: e }; } };
export const refused = (r) => !r.ok && r.value instanceof CliUserError && r.value.exitCode !== 0;
