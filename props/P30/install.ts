import { contract } from "vf";
import { disk } from "fs";
import { commands } from "child_process";
import { installSkills, sanitizeSkillsInstallEnv, materializeTrustedSkillsCli, SKILLS_CLI_PACKAGE_SPEC } from "repo:cli/src/commands/onboard/setup-agent-integrations";

const NAMES = ["NODE_OPTIONS", "NODE_PATH", "npm_config_registry", "NPM_CONFIG_PREFIX", "Npm_Config_x", "HOME", "npm_package_name", "XNPM_CONFIG_A", "NODE_ENV"], DROPPED = NAMES.slice(0, 5);
contract("what could run a repository's code is not handed on", {}, (g) => {
  const env: any = {}, path = g.choose("path", ["PATH", "Path", "path"]); const who = g.choose("variables", ["all", "none", ...NAMES]); for (const n of NAMES) if (who === "all" || who === n) env[n] = g.string(n);
  const parts = g.choose("entries", [["/usr/bin"], ["/w/p/node_modules/.bin", "/usr/bin"], ["/usr/bin", "/w/p/node_modules/.bin/", "", "/bin"], ["node_modules/.bin"], ["", ""], ["/usr/bin", "p\\node_modules\\.bin", " /w/p/node_modules/.bin "], ["/node_modules/.bin/x", "/xnode_modules/.bin", "/node_modules"]]);
  if (g.bool("has path")) env[path] = parts.join(":");
  const before = { ...env }, r: any = sanitizeSkillsInstallEnv(env), kept = parts.filter((p) => ["/usr/bin", "/bin", "/node_modules/.bin/x", "/xnode_modules/.bin", "/node_modules"].includes(p));
  g.eq("the given one is left alone", env, before);
  for (const n of DROPPED) delete before[n];
  if (before[path] !== undefined) before[path] = kept.join(":");
  g.eq("only the rest", r, before);
});
const POISON = { NODE_OPTIONS: "--require /w/p/evil.js", NODE_PATH: "/w/p/node_modules", npm_config_registry: "http://evil", PATH: "/w/p/node_modules/.bin:/usr/bin", HOME: "/home" }, CLEAN = { PATH: "/usr/bin", HOME: "/home" };
const clean = (e) => e !== undefined && Object.keys(e).length === 2 && e.PATH === CLEAN.PATH && e.HOME === CLEAN.HOME;
const away = (p) => p !== "/w/p" && !p.startsWith("/w/p/");
contract("the installer comes from the registry and runs on clean ground", {}, (g) => {
  g.setGlobal("process", { env: POISON, execPath: "/usr/bin/node", cwd: () => "/w/p", platform: "linux" }); g.setGlobal("console", { log() {}, error() {}, warn() {} });
  disk.put("/w/p/node_modules/skills/bin/cli.mjs", "evil"); disk.put("/w/o/f", "");
  const npm = g.choose("npm", ["ok", "status", "error", "nothing there"]), status = g.int("status", 1, 255), run = g.choose("run", ["ok", "status", "error", "killed", "throws"]), plants = g.choose("plants", ["nothing", ".claude/skills/x", ".agents", "skills-lock.json", ".cursor/skills/a/b"]), calls: any[] = [];
  commands.sync = (file, args, o) => {
    calls.push({ file, args, o });
    if (calls.length === 1) { if (npm === "error") return { error: new Error("no npm"), status: null, stderr: "" }; if (npm === "status") return { status, stderr: "gone" }; if (npm === "ok") disk.put(o.cwd + "/node_modules/skills/bin/cli.mjs", "cli"); return { status: 0, stderr: "" }; }
    if (plants !== "nothing") { if (plants === ".agents") for (const d of [...disk.dirs]) if (d.startsWith("/w/p/.agents")) disk.dirs.delete(d); disk.link("/w/p/" + plants, "/w/o"); }
    if (run === "throws") throw new Error("cannot run"); return run === "error" ? { error: new Error("no node"), status: null } : run === "killed" ? { status: null, signal: "SIGKILL" } : { status: run === "ok" ? 0 : status };
  };
  let r, failed = null; try { r = installSkills("/w/p"); } catch (e) { failed = e; }
  const a = calls[0], b = calls[1], ran = npm === "ok", planted = ran && plants !== "nothing";
  g.ensure("fetched first, by npm", a !== undefined && a.file === "npm" && a.args[0] === "install" && a.args.includes(SKILLS_CLI_PACKAGE_SPEC) && a.args.includes("--ignore-scripts"));
  g.ensure("one exact version", /^skills@\d+\.\d+\.\d+$/.test(SKILLS_CLI_PACKAGE_SPEC));
  g.ensure("away from the repository", away(a.o.cwd) && a.args[a.args.indexOf("--prefix") + 1] === a.o.cwd && clean(a.o.env) && !a.o.shell);
  g.ensure("run once it is there", calls.length === (ran ? 2 : 1));
  if (ran) g.ensure("by this node, from where it was fetched", b.file === "/usr/bin/node" && b.args[0] === a.o.cwd + "/node_modules/skills/bin/cli.mjs" && b.o.cwd === "/w/p" && clean(b.o.env) && !b.o.shell);
  g.ensure("cleaned up", !disk.dirs.has(a.o.cwd) && disk.text(a.o.cwd + "/node_modules/skills/bin/cli.mjs") === undefined);
  if (planted) g.ensure("a link left behind is refused", failed !== null && failed.name === "CliUserError");
  else { g.ensure("no failure ends the onboarding", failed === null); g.ensure("installed exactly when it ran well", r === (ran && run === "ok")); }
});
contract("a command line interface that cannot be had leaves nothing behind", {}, (g) => {
  g.setGlobal("process", { env: POISON, execPath: "/usr/bin/node", cwd: () => "/w/p", platform: "linux" }); let at;
  const npm = g.choose("npm", ["ok", "status", "error", "nothing there"]), status = g.int("status", 1, 255);
  commands.sync = (file, args, o) => { at = o.cwd; if (npm === "error") return { error: new Error("no npm"), status: null }; if (npm === "status") return { status }; if (npm === "ok") disk.put(at + "/node_modules/skills/bin/cli.mjs", "cli"); return { status: 0 }; };
  let c, failed = null; try { c = materializeTrustedSkillsCli(); } catch (e) { failed = e; }
  g.ensure("had exactly when it is there", (failed === null) === (npm === "ok"));
  if (npm === "ok") { g.ensure("there", c.cliEntry === at + "/node_modules/skills/bin/cli.mjs"); c.cleanup(); }
  g.ensure("nothing left", !disk.dirs.has(at));
});
