import { contract } from "vf";
import { materializeOnboardWorkspace, updateOnboardContext } from "repo:cli/src/commands/onboard/materialize-workspace";
import { CUSTOMER_AGENT_NAMES } from "repo:cli/src/commands/onboard/customer-agents";
import { CUSTOMER_DOC_FILES, CUSTOMER_DOC_DIRS } from "repo:cli/src/commands/onboard/customer-docs";
import { disk, world, place, shot, outside, inside, attempt, refused, STATES, ROOT } from "./lib";

const templates = (g) => {
  g.setGlobal("__dirname", "/cli");
  const t = "/cli/templates"; disk.put(t + "/CLAUDE.md", "# guide"); disk.put(t + "/settings.json", "{}");
  for (const a of CUSTOMER_AGENT_NAMES) disk.put(t + "/agents/" + a + ".md", "agent " + a);
  for (const d of CUSTOMER_DOC_FILES) disk.put(t + "/docs/" + d, "export const text = 1;");
  for (const d of CUSTOMER_DOC_DIRS) { disk.put(t + "/docs/" + d + "/one.ts", "one"); disk.put(t + "/docs/" + d + "/deep/two.ts", "two"); }
};
const WS = ".meticulous-onboard", C = WS + "/.claude";
contract("the workspace is made of the templates, and of nothing else", {}, (g) => {
  world(); templates(g); disk.put(ROOT + "/src/app.ts", "the app");
  const again = g.bool("again"), context: any = { orgAndProject: g.string("project", ["o/p"]), isMonorepo: g.bool("mono"), selectedAppPath: g.string("app") }, ours = (p) => p === ROOT + "/" + WS || p.startsWith(ROOT + "/" + WS + "/") || p === ROOT + "/.gitignore";
  if (again) { disk.put(ROOT + "/" + C + "/CLAUDE.md", "old"); disk.put(ROOT + "/" + C + "/onboard-context.json", "old"); }
  const before = shot(ours), at = materializeOnboardWorkspace({ projectRoot: ROOT, context });
  g.ensure("nothing else changes", shot(ours) === before);
  g.ensure("it is where it is said to be", at === ROOT + "/" + WS && disk.text(at + "/.gitignore") === "*\n");
  const t = "/cli/templates/", text = (p) => disk.text(ROOT + "/" + p);
  g.ensure("guide and settings", text(C + "/CLAUDE.md") === disk.text(t + "CLAUDE.md") && text(C + "/settings.json") === disk.text(t + "settings.json"));
  g.ensure("agents", CUSTOMER_AGENT_NAMES.every((a) => text(C + "/agents/" + a + ".md") === "agent " + a));
  g.ensure("docs", CUSTOMER_DOC_FILES.every((d) => text(C + "/docs/" + d) === disk.text(t + "docs/" + d)) && CUSTOMER_DOC_DIRS.every((d) => text(C + "/docs/" + d + "/one.ts") === "one" && text(C + "/docs/" + d + "/deep/two.ts") === "two"));
  g.eq("the context", JSON.parse(text(C + "/onboard-context.json")), context);
  g.ensure("twice", text(WS + "/onboard-context.json") === text(C + "/onboard-context.json"));
});
contract("a link where the workspace would be written is refused", { bounded: "the listed places" }, (g) => {
  world(); templates(g); const at = g.choose("at", [".gitignore", WS, WS + "/.gitignore", WS + "/onboard-context.json", C, C + "/CLAUDE.md", C + "/settings.json", C + "/onboard-context.json", C + "/agents", C + "/agents/" + CUSTOMER_AGENT_NAMES[0] + ".md", C + "/docs", C + "/docs/" + CUSTOMER_DOC_FILES[2], C + "/docs/how-to", C + "/docs/" + CUSTOMER_DOC_DIRS[0], C + "/docs/" + CUSTOMER_DOC_DIRS[0] + "/one.ts", C + "/docs/" + CUSTOMER_DOC_DIRS[0] + "/deep"]);
  place(ROOT + "/" + at, g.choose("there", ["outside", "to a file", "dangling"]));
  const before = outside(), r = attempt(() => materializeOnboardWorkspace({ projectRoot: ROOT, context: {} as any }));
  g.ensure("refused", refused(r));
  g.ensure("nothing is written elsewhere", outside() === before);
});
contract("what git ignores is added to, never lost", { bounded: "the listed contents" }, (g) => {
  world(); templates(g); const old = g.choose("old", [undefined, "", "node_modules\n", "node_modules", "a\r\nb\r\n", WS + "/\n", "a\n  " + WS + " \r\nb", "a" + WS + "/\n", "#" + WS + "\n", WS + "/x\n"]); if (old !== undefined) disk.put(ROOT + "/.gitignore", old);
  materializeOnboardWorkspace({ projectRoot: ROOT, context: {} as any });
  const text = disk.text(ROOT + "/.gitignore"), lines = (t) => t.split("\n").map((l) => l.trim()), has = (t) => lines(t).filter((l) => l === WS || l === WS + "/").length;
  g.ensure("what was there stays", text.startsWith(old ?? ""));
  g.ensure("the workspace is ignored, once", has(text) === 1);
  if (old !== undefined && has(old) === 1) g.ensure("already ignored: left alone", text === old);
});
contract("the context is rewritten in the project's own workspace only", {}, (g) => {
  world(); const context: any = { orgAndProject: g.string("project"), agentIntegrationPaths: [g.string("path")] }, at = g.choose("at", ["none", WS, C, WS + "/onboard-context.json", C + "/onboard-context.json"]), s = g.choose("there", ["outside", "to a file", "dangling"]), dir = g.choose("workspace", [ROOT + "/" + WS, "/w/o", "/w/p2", ROOT + "/none"]);
  if (at !== "none") place(ROOT + "/" + at, s); if (at !== WS) disk.put(ROOT + "/" + WS + "/f", "");
  const before = outside(), r = attempt(() => updateOnboardContext({ projectRoot: ROOT, workspaceDir: dir, context }));
  g.ensure("nothing is written elsewhere", outside() === before);
  if (at === "none" && dir === ROOT + "/" + WS) { g.ensure("accepted", r.ok); for (const p of [WS, C]) g.eq("the context", JSON.parse(disk.text(ROOT + "/" + p + "/onboard-context.json")), context); }
  else g.ensure("refused", refused(r));
});
