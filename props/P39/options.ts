import { contract } from "vf";
import { resolveBuildCommitSha, resolveHeadCommitShaForLookup, resolveComparisonOptions } from "repo:cli/src/commands/agent/build-git-options";
import { resolveGitOptions, hasGitContextForTestRunWait } from "repo:cli/src/commands/ci/resolve-git-options";
import { shouldSkipAsNothingToTest, shouldWarnOfHeadDrift } from "repo:cli/src/commands/agent/trigger-test-run.command";
import { CliUserError } from "repo:cli/src/utils/cli-user-error";
import { git, still, base, H, B, S } from "./lib";

const DIFFS = ["", "diff --git a/f b/f\n+x \n", null, "much"];
const repo = (g, words) => { const among = (name, all) => (words.includes(name) ? g.choose(name, all) : all[0]), u = among("untracked", [[], ["f"], "many", "elsewhere"]), d = among("diff", DIFFS); return { branch: g.choose("branch", ["feature", "main", null]), head: g.choose("head", [H, null]), sym: "main", bases: g.choose("branches", [{}, { "origin/main": B }]), dirty: g.choose("changes", [false, true, "much"]), untracked: u === "many" ? ["a", "b", "c"].map((n) => n.repeat(400000)) : u === "elsewhere" ? [] : u, above: u === "elsewhere" ? ["../f"] : [], stash: among("stash", [undefined, S, "fails"]), diff: d === "much" ? "+".repeat(2000000) : d }; };
const bad = (r) => !r.ok && r.error instanceof CliUserError;
contract("a build is of the commit given, of HEAD, or of what is there", { bounded: "the listed repositories" }, async (g) => {
  still(g); const s = repo(g, ["untracked", "stash"]), commitSha = g.choose("given", [undefined, "", "c".repeat(40)]), r = git(s), out = await g.attemptAsync(() => resolveBuildCommitSha({ commitSha }));
  const there = s.branch !== null, lost = there && (s.untracked.length + s.above.length > 0 || (s.dirty !== false && s.stash !== S)), none = !there || (s.dirty === false && s.head === null);
  if (commitSha) { g.ensure("the one given", out.ok && out.value.commitSha === commitSha && out.value.source === "provided" && r.calls.length === 0); return; }
  g.ensure("what cannot be kept is refused, not left out", !(lost || none) || !out.ok);
  g.ensure("and said", s.stash === "fails" || !(lost || none) || bad(out));
  g.ensure("else one of them", lost || none || (out.ok && out.value.commitSha === (s.dirty !== false ? S : H) && out.value.source === (s.dirty !== false ? "local-ephemeral" : "local")));
});
contract("a lookup is of HEAD, and of nothing else", { bounded: "the listed repositories" }, async (g) => {
  still(g); const s = repo(g, []); git(s); const out = await g.attemptAsync(() => resolveHeadCommitShaForLookup());
  if (s.branch === null || s.head === null || s.dirty !== false) g.ensure("refused", bad(out)); else g.ensure("HEAD", out.ok && out.value === H);
});
contract("a run is compared with the base, by the diff between the two", { bounded: "the listed repositories" }, async (g) => {
  still(g); const how = g.choose("given", ["nothing", "base", "empty base", "commit", "base and commit"]), extra = g.choose("given diff", [undefined, ""]), s = repo(g, how === "nothing" ? ["untracked", "stash", "diff"] : ["diff"]);
  const given = { baseSha: /^base/.test(how) ? "d".repeat(40) : how === "empty base" ? "" : undefined, gitDiffOutput: extra, commitSha: /commit/.test(how) ? "c".repeat(40) : undefined };
  const r = git(s), out = await g.attemptAsync(() => resolveComparisonOptions(given)), v = out.value;
  const from = given.baseSha === undefined ? base(s) : given.baseSha || null, live = !given.commitSha, ephemeral = live && s.dirty !== false && s.branch !== null, to = !live ? given.commitSha : s.branch === null ? null : ephemeral ? (s.stash === S ? S : null) : s.head;
  const refused = (live && s.branch !== null && s.untracked.length + s.above.length > 0) || from === null || to === null || s.diff === null || s.branch === null;
  if (refused) { g.ensure("nothing is guessed", !out.ok && (s.stash === "fails" || bad(out))); return; }
  g.ensure("from that base, to that commit", out.ok && v.baseSha === from && v.head === to && v.headIsEphemeral === ephemeral);
  g.ensure("their diff, whole", v.gitDiffOutput === s.diff && r.diffs.length === 1 && r.diffs[0].filter((x) => !x.startsWith("-")).join() === from + "," + to);
  g.ensure("of this directory", [...r.cwds].every((c) => c === "." || c === undefined));
});
contract("a diff that is given is given", {}, async (g) => {
  still(g); const given = { baseSha: g.choose("base", [undefined, "", "d".repeat(40)]), gitDiffOutput: "given \n", commitSha: g.choose("commit", [undefined, "c".repeat(40)]) }, r = git(repo(g, [])), out = await g.attemptAsync(() => resolveComparisonOptions(given)), v = out.value;
  if (!given.baseSha) g.ensure("not without its base", bad(out)); else g.ensure("as it is, and git is left alone", out.ok && v.baseSha === given.baseSha && v.gitDiffOutput === given.gitDiffOutput && v.head === undefined && v.headIsEphemeral === false && r.calls.length === 0);
});
contract("a fused run takes all three from one directory, or as given", { bounded: "the listed repositories" }, async (g) => {
  still(g); const exits = []; g.setGlobal("process", { env: {}, exit: (c) => { exits.push(c); throw new Error("exit"); } });
  const s = repo(g, ["diff"]);
  const given = { commitSha: g.choose("commit", [undefined, "c".repeat(40)]), baseSha: g.choose("base", [undefined, "", "d".repeat(40)]), gitDiffOutput: g.choose("given diff", [undefined, "", "given \n"]), repoDirectory: g.choose("directory", [undefined, "/w/p"]) };
  const r = git(s), out = await g.attemptAsync(() => resolveGitOptions(given)), v = out.value, left = () => !out.ok && exits[0] === 1;
  if (given.repoDirectory) {
    if (given.commitSha || given.baseSha || given.gitDiffOutput) { g.ensure("not both", left()); return; }
    const from = base(s);
    if (s.branch === null || s.head === null || from === null) { g.ensure("nothing is guessed", left()); return; }
    if (s.diff === null) { g.ensure("no diff is made up", !out.ok); return; }
    g.ensure("its commit, its base, their diff", out.ok && v.commitSha === H && v.baseSha === from && v.gitDiffOutput === s.diff);
    g.ensure("with what is not committed", r.diffs.length === 1 && r.diffs[0].filter((x) => !x.startsWith("-")).join() === (s.dirty !== false ? from : from + "," + H));
    g.ensure("all of that directory", [...r.cwds].every((c) => c === "/w/p")); return;
  }
  if (given.gitDiffOutput && !given.baseSha) { g.ensure("a diff without its base is refused", left()); return; }
  const c = given.commitSha ?? (s.branch === null ? null : s.head);
  if (c === null) { g.ensure("no commit, no run", left()); return; }
  g.ensure("as given", out.ok && v.commitSha === c && v.baseSha === (given.baseSha || undefined) && v.gitDiffOutput === (given.gitDiffOutput || undefined) && r.diffs.length === 0);
});
contract("waiting needs a checkout to wait for", {}, (g) => {
  const d = g.choose("directory", [undefined, "", "/w"]), b = g.choose("base", [undefined, "", "b"]), f = g.choose("diff", [undefined, "", "f"]);
  g.ensure("a directory, or base and diff", hasGitContextForTestRunWait(d, b, f) === (!!d || (!!b && !!f)));
});
contract("nothing to test is only what is known to be nothing", {}, (g) => {
  const some = (n) => (g.bool(n) ? g.string(n + " sha") : undefined), commitSha = some("commit"), effectiveHead = some("head"), baseSha = g.string("base"), gitDiffOutput = g.choose("diff", [undefined, "", "f"]), hasPinnedSessionIds = g.bool("pinned");
  g.ensure("the same commit, no diff, no session named", shouldSkipAsNothingToTest({ commitSha, effectiveHead, baseSha, gitDiffOutput, hasPinnedSessionIds }) === (!!commitSha && !!effectiveHead && baseSha === effectiveHead && !gitDiffOutput && !hasPinnedSessionIds));
  const headCommitSha = commitSha ?? null, headIsEphemeral = g.bool("ephemeral");
  g.ensure("another head than the diff's is told of", shouldWarnOfHeadDrift({ headIsEphemeral, head: effectiveHead, headCommitSha }) === (!headIsEphemeral && !!effectiveHead && !!headCommitSha && effectiveHead !== headCommitSha));
});
