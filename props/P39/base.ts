import { contract } from "vf";
import { commands } from "child_process";
import { getCommitSha, getCommitDate, getGitDiff, getLocalBaseSha, getStashCreateSha, getUntrackedFiles, hasUncommittedChanges } from "repo:common/src/commit-sha.utils";
import { git, still, base, H, B, S } from "./lib";

const BASES = [{}, { "origin/main": B }, { "origin/master": B }, { "origin/main": "1".repeat(40), "origin/master": "2".repeat(40) }, { "origin/release/1.0": "3".repeat(40), "origin/main": "1".repeat(40), "origin/master": "2".repeat(40) }];
contract("local work is compared with where it left the default branch", { bounded: "the listed repositories" }, async (g) => {
  still(g); const cwd = g.choose("cwd", [undefined, "/w/p"]);
  const s = { branch: g.choose("branch", ["main", "master", "release/1.0", "feature", "main-2", "HEAD", null]), head: g.choose("head", [H, null]), sym: g.choose("origin's default", [null, "main", "master", "release/1.0"]), remote: g.choose("as origin says", [undefined, "main", "release/1.0"]), bases: g.choose("branches", BASES), offline: g.bool("offline") };
  const r = git(s), sha = await getLocalBaseSha(...(cwd === undefined ? [] : [{ cwd }]));
  g.ensure("that commit, or none", sha === base(s));
  g.ensure("looked for there", [...r.cwds].every((c) => c === cwd));
  g.ensure("as origin is now", r.based === undefined || (r.fetched !== undefined && r.fetched < r.based));
});
contract("the commit is the one given, else HEAD", {}, async (g) => {
  still(g); const cwd = g.choose("cwd", [undefined, "/w/p"]), s = { branch: g.choose("branch", ["main", null, "no git"]), head: g.choose("head", [H, null]) }, given = g.choose("given", [undefined, null, "", "text"]), sha = given === "text" ? g.string("sha") : given;
  const r = git(s), out = await getCommitSha(sha, ...(cwd === undefined ? [] : [{ cwd }]));
  if (sha) { g.ensure("the one given, whatever git says", out === sha && commands.list.length === 0); return; }
  g.ensure("HEAD, or nothing", out === (s.branch !== "main" || s.head === null ? "" : H));
  g.ensure("of that directory", [...r.cwds].every((c) => c === cwd));
});
contract("a commit's date is the one given, else git's", {}, async (g) => {
  still(g); const given = g.choose("given", [null, "d"]), s = { branch: g.choose("branch", ["main", null, "no git"]), date: g.choose("date", ["2026-01-01T00:00:00+01:00", null]) }, r = git(s), out = await getCommitDate(given, H);
  g.ensure("that one", out === (given ?? (s.branch !== "main" || s.date === null ? "" : s.date)));
  g.ensure("asked of that commit", given ? r.calls.length === 0 : r.calls.every((c) => c.split(" ").includes(H)));
});
contract("a diff is git's, whole", {}, async (g) => {
  const text = g.string("diff", { examples: ["", "diff --git a/f b/f\n+x \n", " \n", "+ \t", "a", "diff", "\n\n"] }), from = g.choose("base", [B, "a b;c", "$(x)"]), to = g.choose("head", [undefined, H, "x y"]), cwd = g.choose("cwd", [undefined, "/w/p"]);
  const r = git({ branch: "feature", diff: text }), out = await getGitDiff(from, to, ...(cwd === undefined ? [] : [{ cwd }]));
  g.ensure("whatever its size", out === text);
  const names = r.diffs[0].filter((x) => !x.startsWith("-"));
  g.ensure("between those two, and once", r.diffs.length === 1 && names.length === (to === undefined ? 1 : 2) && names[0] === from && names[1] === to);
  g.ensure("of that directory", [...r.cwds].every((c) => c === cwd));
});
contract("what is there is seen, however much it is", {}, async (g) => {
  const dirty = g.choose("changes", [false, true, "much"]), untracked = g.choose("untracked", [[], ["f"], ["a b", "c/d"], "many"]), stash = g.choose("stash", [undefined, S, "fails"]), big = g.bool("big"), files = untracked === "many" ? ["a", "b", "c"].map((n) => n.repeat(400000)) : untracked, cwd = "/w/p";
  const diff = big ? "+".repeat(3000000) : "+x\n", r = git({ branch: "feature", head: H, dirty, untracked: files, stash, diff });
  g.ensure("changes", (await hasUncommittedChanges({ cwd })) === (dirty !== false));
  const u = await getUntrackedFiles({ cwd }); g.ensure("untracked files", u.length === files.length && u[0] === files[0] && u[u.length - 1] === files[files.length - 1]);
  const kept = await g.attemptAsync(() => getStashCreateSha({ cwd })); g.ensure("what was kept", stash === "fails" ? !kept.ok : kept.value === stash);
  g.ensure("the diff", (await getGitDiff(B, H, { cwd })) === diff);
  g.ensure("untracked files are no changes, ignored ones not untracked", r.calls.every((c) => (!c.startsWith("status") || /--untracked-files=no|-uno/.test(c)) && (!c.startsWith("ls-files") || c.includes("--exclude-standard"))));
  g.ensure("of that directory", [...r.cwds].every((c) => c === cwd));
});
contract("untracked files are those of the whole repository", {}, async (g) => {
  const here = g.choose("here", [[], ["f"]]), above = g.choose("elsewhere", [[], ["../b/f", "../g"]]); git({ branch: "feature", head: H, untracked: here, above });
  g.eq("wherever it is run", [...(await getUntrackedFiles({ cwd: "/w/p/a" }))].sort().join(), [...here, ...above].sort().join());
});
contract("without a repository nothing is there", {}, async (g) => {
  git({ branch: null }); g.ensure("no changes, no files", (await hasUncommittedChanges()) === false && (await getUntrackedFiles()).length === 0);
  g.ensure("and no diff is made up", !(await g.attemptAsync(() => getGitDiff(B, H))).ok);
});
