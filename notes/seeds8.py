from plant import plant as plant0
import glob,shutil,os
def plant(id,*a):
    plant0(id,*a)
    d=f"/verif/seeded/{id}/"
    if os.path.isdir(d):
        for f in glob.glob("/verif/notes/stubs/*"): shutil.copy(f,d)
        open(d+"own.txt","w").write("the repository's own packages are bundled from their source\n")
A='import assert from "assert";\nimport fs from "fs";\nimport path from "path";\nimport os from "os";\nimport { execFileSync } from "child_process";\n'
W="backend-recorder-workerd/src/vite/"; M=W+"met-workerd-trace-mapping/"; U="common/src/commit-sha.utils.ts"; C="cli/src/commands/"
GIT=A+'''const box = fs.realpathSync(fs.mkdtempSync(path.join(os.tmpdir(), "seed-"))); Object.assign(process.env, { HOME: box, GIT_CONFIG_GLOBAL: "/dev/null", GIT_CONFIG_SYSTEM: "/dev/null", GIT_AUTHOR_NAME: "a", GIT_AUTHOR_EMAIL: "a@b", GIT_COMMITTER_NAME: "a", GIT_COMMITTER_EMAIL: "a@b" });
const git = (cwd: string, ...a: string[]) => execFileSync("git", a, { cwd, encoding: "utf-8", stdio: ["ignore", "pipe", "ignore"] }).trim();
const put = (cwd: string, f: string, t: string) => { fs.mkdirSync(path.dirname(path.join(cwd, f)), { recursive: true }); fs.writeFileSync(path.join(cwd, f), t); };
const commit = (cwd: string, f: string, t: string) => { put(cwd, f, t); git(cwd, "add", "-A"); git(cwd, "commit", "-qm", f + t); return git(cwd, "rev-parse", "HEAD"); };
const origin = path.join(box, "origin"), work = path.join(box, "work");
const begin = (branch = "main") => { fs.mkdirSync(origin); git(origin, "init", "-q", "-b", branch); const c = commit(origin, "f", "1\\n"); git(box, "clone", "-q", origin, work); return c; };
const end = () => { process.chdir("/"); fs.rmSync(box, { recursive: true }); };
'''
plant("s82-dropped-ids","P38",[(W+"index.ts","      nextId += result.lineRanges.length;\n      droppedMarkers += result.droppedMarkers;\n","      nextId += result.lineRanges.length - result.droppedMarkers;\n      droppedMarkers += result.droppedMarkers;\n")],"a module some positions of which are not in its map, and another after it","two modules' lines get the same ids",A+'import { meticulousCoverage } from "repo:'+W+'''index";
export const done = (() => { const p: any = meticulousCoverage({ onWarning() {} }); p.configResolved({ root: "/r" }); const code = "export function f() {\\n  a();\\n  b();\\n}\\n";
const ids = (ctx: any, name: string) => Number(/firstId:(\\d+)/.exec(p.transform.call(ctx, code, "/r/" + name, { ssr: true }).code)![1]);
const whole = { getCombinedSourcemap: () => ({ sources: ["x"], mappings: "AAAA;AACA;AACA;AACA" }) }, holes = { getCombinedSourcemap: () => ({ sources: ["x"], mappings: "AAAA;AACA" }) };
assert.deepEqual([ids(whole, "a.ts"), ids(holes, "b.ts"), ids(whole, "c.ts")], [0, 2, 3]); })();''')
plant("s83-back","P38",[(M+"binary-search.ts","      high = lastIndex;\n","      high = lastIndex - 1;\n")],"a position asked for after a later one covered by the same segment","it is taken for the segment before, and so for another line",A+'import { MetTraceMap } from "repo:'+M+'''trace-mapping";
export const done = (() => { const t = () => new MetTraceMap({ sources: ["x"], mappings: [[[0, 0, 0, 0], [4, 0, 1, 0], [20, 0, 2, 0]]] as any }); const a = t(); assert.deepEqual([5, 9, 20].map((c) => a.originalPositionFor(1, c)!.line), [2, 2, 3]);
const b = t(); assert.deepEqual([9, 5].map((c) => b.originalPositionFor(1, c)!.line), [2, 2]); })();''')
plant("s84-same-end","P38",[(W+"index.ts","      target.endsWith(`/${candidate}`)\n","      target.endsWith(candidate)\n")],"a map of several sources, one named like the end of the module's name","lines of another file count as the module's",A+'import { meticulousCoverage } from "repo:'+W+'''index";
export const done = (() => { const p: any = meticulousCoverage({ onWarning() {} }); p.configResolved({ root: "/r" }); const code = "export function f() {\\n  a();\\n  b();\\n}\\n";
const lines = (sources: string[]) => /lineRanges:\\[([^\\]]*)\\]/.exec(p.transform.call({ getCombinedSourcemap: () => ({ sources, mappings: ";ACAA;ADIA" }) }, code, "/r/my-page.ts", { ssr: true }).code)![1];
assert.equal(lines(["other.ts", "my-page.ts"]), "1,1"); assert.equal(lines(["page.ts", "my-page.ts"]), "1,1"); })();''')
plant("s85-in-order","P38",[(M+"vlq.ts","if (!sorted) sort(line);","if (!sorted && line.length > 2) sort(line);")] if False else [(M+"trace-mapping.ts","    if (segment.length === 1) {\n      return null;\n    }\n","    if (segment.length === 1) {\n      if (index === 0) {\n        return null;\n      }\n      return this.originalPositionFor(line, segments[index - 1][COLUMN]);\n    }\n")],"code a transform put into the middle of a line","it counts as the line of the code before it",A+'import { MetTraceMap } from "repo:'+M+'''trace-mapping";
export const done = (() => { const t = new MetTraceMap({ sources: ["x"], mappings: [[[0, 0, 4, 0], [6], [9, 0, 5, 0]]] as any }); assert.equal(t.originalPositionFor(1, 2)!.line, 5); assert.equal(t.originalPositionFor(1, 9)!.line, 6); assert.equal(t.originalPositionFor(1, 7), null); })();''')
plant("s86-main-first","P39",[(U,'''    ...(defaultBranch ? [defaultBranch] : []),
    "origin/main",
    "origin/master",
''','''    "origin/main",
    "origin/master",
    ...(defaultBranch ? [defaultBranch] : []),
''')],"a repository whose default branch is another one, and that has a main too","local work is compared with a commit long before it was begun",GIT+'import { getLocalBaseSha } from "repo:'+U[:-3]+'''";
export const done = (async () => { try { const old = begin("develop"); git(work, "checkout", "-q", "-b", "feature"); const one = commit(work, "g", "1"); assert.equal(await getLocalBaseSha({ cwd: work }), old);
git(origin, "branch", "main"); const c = commit(origin, "h", "2"); git(work, "pull", "-q", "--rebase", "origin", "develop"); assert.equal(await getLocalBaseSha({ cwd: work }), c); } finally { end(); } })();''')
plant("s87-elsewhere","P39",[(C+"ci/resolve-git-options.ts","  const uncommitted = await hasUncommittedChanges(gitOpts);","  const uncommitted = await hasUncommittedChanges();")],"a --repoDirectory other than the current one, with uncommitted changes","the uncommitted changes are left out of the diff",GIT+'import { resolveGitOptions } from "repo:'+C+'''ci/resolve-git-options";
export const done = (async () => { try { begin(); git(work, "checkout", "-q", "-b", "feature"); commit(work, "g", "1"); const diff = async () => (await resolveGitOptions({ repoDirectory: work } as any)).gitDiffOutput!;
process.chdir(work); put(work, "f", "2\\n"); assert.ok((await diff()).includes("+2")); process.chdir(box); assert.ok((await diff()).includes("+2")); } finally { end(); } })();''')
plant("s88-either","P39",[(C+"agent/build-git-options.ts","""  await assertNoUntrackedFiles(gitOpts);

  if (await hasUncommittedChanges(gitOpts)) {
    const stashSha = await getStashCreateSha(gitOpts);
    if (stashSha) {
""","""  if (!(await hasUncommittedChanges(gitOpts))) {
    await assertNoUntrackedFiles(gitOpts);
  } else {
    const stashSha = await getStashCreateSha(gitOpts);
    if (stashSha) {
""")],"untracked files next to changed ones","the build's commit leaves the untracked files out",GIT+'import { resolveBuildCommitSha } from "repo:'+C+'''agent/build-git-options";
export const done = (async () => { try { const c = begin(); process.chdir(work); assert.equal((await resolveBuildCommitSha({ commitSha: undefined })).commitSha, c); put(work, "new", "1"); await assert.rejects(resolveBuildCommitSha({ commitSha: undefined })); put(work, "f", "2\\n"); await assert.rejects(resolveBuildCommitSha({ commitSha: undefined })); } finally { end(); } })();''')
plant("s89-new-name","P39",[(C+"local/get-edited-files.utils.ts","      filePath: `/${oldName}`,","      filePath: `/${modifiedFile.to === \"/dev/null\" ? oldName : modifiedFile.to}`,")],"a file that was moved and edited","its lines are looked for under a name the base does not know",A+'import { parseGitDiffToEditedFiles } from "repo:'+C+'''local/get-edited-files.utils";
export const done = (() => { const d = (from: string, to: string) => "diff --git a/" + from + " b/" + to + "\\n--- a/" + from + "\\n+++ b/" + to + "\\n@@ -7 +7 @@\\n-a\\n+b\\n"; const f = (x: string) => parseGitDiffToEditedFiles(x).map((e) => e.filePath).join();
assert.equal(f(d("x.ts", "x.ts")), "/x.ts"); assert.equal(f(d("old.ts", "new.ts")), "/old.ts"); })();''')
plant("s90-stale","P39",[(U,'''  try {
    await execPromise("git fetch origin", cwd);
  } catch (error) {
    logger.warn(
      `Could not fetch from origin: ${error instanceof Error ? error.message : error}`,
    );
  }
''','''  execPromise("git fetch origin", cwd).catch((error: unknown) => {
    logger.warn(
      `Could not fetch from origin: ${error instanceof Error ? error.message : String(error)}`,
    );
  });
''')],"a default branch that has moved on since the last fetch","local work is compared with where the branch was, not where it is",GIT+'import { getLocalBaseSha } from "repo:'+U[:-3]+'''";
export const done = (async () => { try { const real = execFileSync("which", ["git"], { encoding: "utf-8" }).trim(); begin(); git(work, "checkout", "-q", "-b", "feature"); const c = commit(origin, "h", "2"); git(work, "pull", "-q", "--rebase", path.join(box, "origin"), "main"); git(work, "update-ref", "refs/remotes/origin/main", git(work, "rev-parse", c + "~1")); commit(work, "g", "1");
put(box, "bin/git", "#!/bin/sh\\n[ \\"$1\\" = fetch ] && sleep 1\\nexec " + real + " \\"$@\\"\\n"); fs.chmodSync(path.join(box, "bin/git"), 0o755); process.env.PATH = path.join(box, "bin") + ":" + process.env.PATH; assert.equal(await getLocalBaseSha({ cwd: work }), c); } finally { await new Promise((ok) => setTimeout(ok, 1500)); end(); } })();''')
