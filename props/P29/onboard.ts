import { contract } from "vf";
import { prepareSafeSkillsInstallTargets, assertSafeSkillsInstallTargets } from "repo:cli/src/commands/onboard/safe-repo-fs";
import { discoverFrontendApps, resolveSelectedAppAbsolutePath } from "repo:cli/src/commands/onboard/discover-apps";
import { disk, world, place, shot, outside, attempt, refused, STATES, ROOT } from "./lib";

const LINKED = STATES.filter((s) => s !== "missing" && s !== "dir" && s !== "file");
contract("the skills installer is let loose on real directories only", { bounded: "the listed trees" }, (g) => {
  world(); const when = g.choose("when", ["before", "after"]), agent = g.choose("agent", [".claude", ".agents", ".cursor"]), at = g.choose("at", ["", "/skills", "/skills/x", "/skills/x/y/z", "lock"]), s = g.choose("there", STATES.filter((x) => x !== "loop"));
  for (const a of [".claude", ".agents", ".cursor"]) if (a !== agent || at.includes("/skills/")) disk.put(ROOT + "/" + a + "/skills/real/SKILL.md", "a skill");
  place(at === "lock" ? ROOT + "/skills-lock.json" : ROOT + "/" + agent + at, s);
  const before = outside(), all = shot(), r = attempt(() => (when === "before" ? prepareSafeSkillsInstallTargets(ROOT) : assertSafeSkillsInstallTargets(ROOT)));
  g.ensure("nothing is written elsewhere", outside() === before);
  if (LINKED.includes(s)) g.ensure("a link is refused", refused(r));
  else if (s === "file" && (at === "" || (at === "/skills" && when === "before"))) g.ensure("a file is no directory", !r.ok);
  else if (!(s === "file" && at === "/skills")) {
    g.ensure("accepted", r.ok);
    if (when === "before") for (const a of [".claude", ".agents", ".cursor"]) g.ensure("its directories are there", disk.dirs.has(ROOT + "/" + a + "/skills")); else g.ensure("looked at only", shot() === all);
  }
});
const PKG = '{"name":"ui","dependencies":{"react":"1"},"scripts":{"dev":"vite"}}';
contract("only the project's own directories are offered as apps", { bounded: "the listed trees" }, (g) => {
  world(); const root = g.choose("root", [ROOT, "/w/l"]), at = g.choose("at", ["apps", "apps/web", "apps/web/ui", "packages/web"]), s = g.choose("there", ["app", "missing", "outside", "inside", "neighbour", "dangling"]), mono = g.bool("monorepo"), nested = g.bool("an app beneath");
  for (const d of ["/w/o", "/w/p2", "/w/p/in"]) { disk.put(d + "/package.json", PKG); disk.put(d + "/web/package.json", PKG); }
  disk.put(ROOT + "/apps/real/package.json", PKG.replace("ui", "real")); if (at === "apps") disk.dirs.delete(ROOT + "/apps");
  if (at === "apps") { for (const k of [...disk.files.keys(), ...disk.dirs]) if (k.startsWith(ROOT + "/apps")) { disk.files.delete(k); disk.dirs.delete(k); } }
  if (mono) disk.put(ROOT + "/turbo.json", "{}");
  if (s === "app") { disk.put(ROOT + "/" + at + "/package.json", PKG); if (nested) disk.put(ROOT + "/" + at + "/web/package.json", PKG); } else place(ROOT + "/" + at, s);
  const apps = discoverFrontendApps(root).map((a) => a.path), want = at === "apps" ? [] : ["apps/real"];
  if (s === "app") { if (at !== "apps") want.push(at); if (nested && at !== "apps/web/ui") want.push(at + "/web"); }
  g.ensure("those that are", [...apps].sort().join() === (want.length === 0 ? ["."] : want).sort().join());
});
contract("an app is opened only inside the project", { bounded: "the listed paths" }, (g) => {
  world(); disk.put("/w/p/a/b/f", ""); disk.link("/w/p/out", "/w/o"); disk.link("/w/p/ln", "/w/p/a"); disk.link("/w/p/no", "/w/none");
  const root = g.choose("root", [ROOT, "/w/l"]), p = g.choose("path", [".", "", "a", "a/b", "./a", "a/", "..", "../o", "../p/a", "a/../a", "a/../../o", "..\\o", "/w/o", "/w/p/a", "out", "out/d", "ln", "no", "none", "a/b/f"]), r = attempt(() => resolveSelectedAppAbsolutePath(root, p));
  const to = { ".": ROOT, "": ROOT, a: ROOT + "/a", "a/b": ROOT + "/a/b", "./a": ROOT + "/a", "a/": ROOT + "/a" }[p];
  if (to === undefined) g.ensure("refused", refused(r)); else g.ensure("there", r.ok && r.value === to);
});
