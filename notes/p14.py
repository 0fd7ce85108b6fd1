import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
A="packages/cli/src/commands/agent/"; C="packages/cli/src/commands/ci/"; L="packages/cli/src/commands/local/"; U="packages/common/src/commit-sha.utils.ts"
prop("P39","A run is of what is in the repository, compared with where it left off",
"The commit of a build or run is the one given, else HEAD, else (with uncommitted changes, where that is allowed) a commit git makes of them; what such a commit would leave out (untracked files, changes that cannot be captured) is refused, not dropped, and a lookup by HEAD is refused while there are uncommitted changes. The base is the one given, else HEAD on the default branch or without a branch, else where HEAD left origin's default branch as it is now, or main, or master. The diff is git's output, whole and unchanged whatever its size, between exactly that base and that commit (or the working tree), in the directory given; a given diff needs its base and leaves git alone. What git cannot say is an error, never a guess. Nothing is triggered when base and commit are the same and there is no diff, on a dry run, or for session lists and limits that make no sense; else one run, with that base, diff, sessions and limit. Edited lines are exactly the deleted lines of the old file and the lines beside each addition, as ordered ranges that do not touch, under the file's old name; new files have none.",
["inputs","configurations","fault_sequences"],"every listed state of a repository and of origin, every command that fails, every position of the changed lines, and diffs of any text",
"A wrong base or a shortened diff selects the wrong sessions and compares the wrong commits, without any error. Tests mock git with a few small outputs.",
[U,A+"build-git-options.ts",A+"trigger-test-run.command.ts",C+"resolve-git-options.ts",L+"get-edited-files.utils.ts",L+"relevant-sessions.command.ts"],
["getLocalBaseSha@"+U,"getGitDiff@"+U,"resolveBuildCommitSha@"+A+"build-git-options.ts","resolveComparisonOptions@"+A+"build-git-options.ts","triggerTestRunCommand@"+A+"trigger-test-run.command.ts","resolveGitOptions@"+C+"resolve-git-options.ts","parseGitDiffToEditedFiles@"+L+"get-edited-files.utils.ts","relevantSessionsCommand@"+L+"relevant-sessions.command.ts"],
"git is a model that answers as the listed repositories would, with node's limit on a command's output; edited lines are proved for every position of the listed shapes of a chunk (up to two); parse-diff, which is not installed here, is a model of its own.","proof")
