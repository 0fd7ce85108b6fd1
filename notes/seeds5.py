import sys; sys.path.insert(0,'/verif/notes')
from plant import plant
O="cli/src/commands/onboard/"
A='import assert from "assert";\nimport fs from "fs";\nimport path from "path";\nimport os from "os";\n'
BOX='''const box = fs.realpathSync(fs.mkdtempSync(path.join(os.tmpdir(), "seed-"))); const root = path.join(box, "p"), out = path.join(box, "o"); fs.mkdirSync(root); fs.mkdirSync(out);
const tree = (d: string): string[] => fs.readdirSync(d).flatMap((n) => fs.statSync(path.join(d, n)).isDirectory() ? tree(path.join(d, n)) : [path.join(d, n)]).sort();
'''
END=''' })().finally(() => fs.rmSync(box, { recursive: true, force: true }));'''
plant("s59-broken-link","P29",[(O+"safe-repo-fs.ts","    const stat = tryLstat(next);\n    if (!stat) {","    const stat = tryLstat(next);\n    if (!stat || !existsSync(next)) {")],"a link whose target does not exist yet, at the end of the path","the file is written through it, outside the project",A+BOX+'''import { writeFileSafeSync } from "repo:cli/src/commands/onboard/safe-repo-fs";
export const done = (async () => { fs.symlinkSync(path.join(out, "new"), path.join(root, ".gitignore")); assert.throws(() => writeFileSafeSync(root, ".gitignore", "x")); assert.deepEqual(tree(out), []);'''+END)
plant("s60-neighbour","P29",[(O+"safe-repo-fs.ts","""  const relativeToRoot = relative(root, candidate);
  return (
    relativeToRoot === "" ||
    (!relativeToRoot.startsWith(`..${sep}`) &&
      relativeToRoot !== ".." &&
      !isAbsolute(relativeToRoot))
  );""","""  return resolve(candidate).startsWith(resolve(root));"""),(O+"safe-repo-fs.ts","  relative,\n  resolve,\n  sep,","  resolve,")],"a directory beside the project whose name starts with the project's","it is taken for one inside the project",A+BOX+'''import { assertWorkspaceInsideProject } from "repo:cli/src/commands/onboard/safe-repo-fs";
export const done = (async () => { fs.mkdirSync(root + "-old"); fs.mkdirSync(path.join(root, "w")); assert.equal(assertWorkspaceInsideProject(root, path.join(root, "w")), path.join(root, "w")); assert.throws(() => assertWorkspaceInsideProject(root, root + "-old"));'''+END)
plant("s61-deep-link","P29",[(O+"safe-repo-fs.ts","""    if (entry.isDirectory()) {
      assertNoSymlinksUnderDirectory(""","""    if (entry.isDirectory() && !relativeDisplay.includes("/skills/")) {
      assertNoSymlinksUnderDirectory(""")],"a link two directories beneath a skill","the skills installer may write through it",A+BOX+'''import { assertSafeSkillsInstallTargets } from "repo:cli/src/commands/onboard/safe-repo-fs";
export const done = (async () => { const d = path.join(root, ".cursor/skills/x/y"); fs.mkdirSync(d, { recursive: true }); assertSafeSkillsInstallTargets(root); fs.symlinkSync(out, path.join(d, "z")); assert.throws(() => assertSafeSkillsInstallTargets(root));'''+END)
MCP='''import { ensureProjectMcp, METICULOUS_MCP_URL } from "repo:cli/src/commands/onboard/setup-agent-integrations";
const codex = (text: string) => { const f = path.join(root, ".codex/config.toml"); fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, text); ensureProjectMcp(root); return fs.readFileSync(f, "utf8"); };
'''
plant("s62-long-escape","P30",[(O+"codex-mcp.ts","const width = escape === \"u\" ? 4 : 8;","const width = 4;")],"a quoted table name with an eight-digit escape","the repository's own server of that name stays",A+BOX+MCP+'''export const done = (async () => { const r = codex('["mcp_servers"."\\\\U0000004deticulous"]\\ncommand = "sh"\\n'); assert.ok(!r.includes("command"), r); assert.ok(r.includes(METICULOUS_MCP_URL));'''+END)
plant("s63-thrown","P30",[(O+"setup-agent-integrations.ts","""    console.log(chalk.dim(`  Retry: ${skillsInstallRetryHint(projectRoot)}`));
    assertSafeSkillsInstallTargets(projectRoot);
    return false;
  } finally {""","""    console.log(chalk.dim(`  Retry: ${skillsInstallRetryHint(projectRoot)}`));
    if (trustedCli) assertSafeSkillsInstallTargets(projectRoot);
    return false;
  } finally {"""),(O+"setup-agent-integrations.ts","""    assertSafeSkillsInstallTargets(projectRoot);
    return false;
  } finally {
    trustedCli?.cleanup();""","""    assertSafeSkillsInstallTargets(projectRoot);
    return false;
  } finally {
    if (result!?.status === 0) trustedCli?.cleanup();""")][1:],"a skills installer that fails","what was fetched is left in the temporary directory",A+BOX+'''import { installSkills } from "repo:cli/src/commands/onboard/setup-agent-integrations";
export const done = (async () => { const tmp = path.join(box, "tmp"), bin = path.join(box, "bin"); fs.mkdirSync(tmp); fs.mkdirSync(bin); process.env.TMPDIR = tmp; fs.writeFileSync(path.join(bin, "npm"), '#!/bin/bash\\nwhile [ "$1" != --prefix ]; do shift; done; mkdir -p $2/node_modules/skills/bin; echo "process.exit(3)" > $2/node_modules/skills/bin/cli.mjs\\n', { mode: 0o755 }); process.env.PATH = bin + ":" + process.env.PATH; assert.equal(installSkills(root), false); assert.deepEqual(fs.readdirSync(tmp), []);'''+END)
plant("s64-same-fields","P30",[(O+"setup-agent-integrations.ts","  return expectedKeys.every((key) => record[key] === expected[key]);","  return expectedKeys.every((key) => key === \"type\" || record[key] === expected[key]);")],"an entry with the official address but another type","it is taken for the official one and left",A+BOX+MCP+'''export const done = (async () => { const f = path.join(root, ".mcp.json"); fs.writeFileSync(f, JSON.stringify({ mcpServers: { Meticulous: { type: "sse", url: METICULOUS_MCP_URL } } })); ensureProjectMcp(root); assert.deepEqual(JSON.parse(fs.readFileSync(f, "utf8")).mcpServers.Meticulous, { type: "http", url: METICULOUS_MCP_URL });'''+END)
