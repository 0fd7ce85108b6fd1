import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
R="packages/recorder-loader/src/"; D="packages/debug-workspace/src/generate-debug-workspace.ts"
prop("P40","Loading the recorder never breaks or holds up the page it records",
"Setting up interception or recording settles, and never throws, whatever becomes of the script it adds: loaded, failed, loaded late, loaded without what it should bring, or never answering. With a limit the page goes on no later than that limit, and once only; without one it waits for the script. The one that fails says so on the console. Nothing is added to the page, and no script is fetched, while a Meticulous replay runs. The script fetched is that of the version and host asked for, of the project asked for, and nothing is left set that was not given. Interception that is stopped before its script came is stopped when it comes; a recorder that is not there cannot be stopped and the caller is told so.",
["inputs","schedules","fault_sequences","configurations"],"every set of options, every order of script load, script failure, limit and request to stop, and every state of the page the script leaves behind",
"The orders of timer, load and stop that lose a request or hold up a page are not among the few the tests run.",
[R+"loader.ts",R+"install-meticulous-intercepts.ts",R+"get-snippet-version-folder.ts",R+"early-network-recorder.ts"],
["tryLoadAndStartRecorder@"+R+"loader.ts","loadAndStartRecorder@"+R+"loader.ts","tryInstallMeticulousIntercepts@"+R+"install-meticulous-intercepts.ts","getSnippetVersionFolder@"+R+"get-snippet-version-folder.ts","stopIntercepting@"+R+"early-network-recorder.ts"],
"The page (document, script elements, timers) is a model; the order of load, failure and limit is any of the listed ones with any limit.","proof")
prop("P41","A debug workspace keeps no cookie, header, storage or token value",
"In the JSON put into a debug workspace no value of a cookie, header, storage entry or recording token is kept, however deep it lies and in whatever of the known forms (HAR entries, lists of name or key and value, storage state, headers to be sent, span attributes); names and all other data are kept as they are, and what is given is not changed. This holds of every file known to hold such values, of every replay and session of the workspace; a file or a line that cannot be read keeps none of the others from it. Logs keep no value printed after the name of a credential header, in a printed name and value pair, or as a Bearer or Basic token, neither in the text nor in the ndjson form, readable or not, and all else of them is kept.",
["inputs","configurations","fault_sequences"],"every JSON value (by induction over its fields and elements), every listed file of a workspace with any of them unreadable, and listed forms of log lines",
"Tests redact a few sample files. A secret is kept by one shape nobody sampled, and then is read by whoever (or whatever agent) is given the workspace.",
[D],
["redactCookiesAndHeadersInJson@"+D,"redactCookiesAndHeaders@"+D,"redactLogCredentials@"+D,"generateFilteredLogs@"+D],
"The fields of an object are checked under every listed name with any value and any neighbour (objects of two fields), the elements of a list for any length; pairs in lists of two; the forms of log lines are listed ones, since redaction of free text is best effort. A JSON file that cannot be read as a whole is left with a warning, as documented. Fields named __proto__ are left open.","proof")
W="packages/debug-workspace/src/"; G="packages/cli/src/commands/debug/"
prop("P42","A debug workspace holds what was asked for, and cleaning removes only that",
"The context of a debug session names the diff, both its replays (each once), its session, run and commits as the service has them; of replays given by id those there are, in order, with their sessions; replays of different sessions, replays or diffs that are not there, and a service that does not answer are errors. Each replay is put, whole, under the part it plays (head before base before other) and nowhere else, with its screenshots' data but no image; each session, diff, run and pull request text under its own name; what cannot be had is an error, except the pull request's texts. The differences of a screenshot are kept whole under the names of its replays and its own, are asked for only where there may be any, and one that cannot be had, or a diff that cannot be read, keeps no other from it; nothing is written outside. Every event, request and log line is told, in order, under its number and time, and every screenshot with what was around it in its own timeline and log. What differs between two replays (logs, parameters, assets) is told of the one debugged against the other, and only what is noise is left out; the change of a pull request is from where it left the main branch. A screenshot's names are those replays and the service use. The worktree is of the replay's commit. Cleaning removes exactly the chosen workspaces, with their worktrees, one that cannot be removed not keeping the others.",
["inputs","configurations","fault_sequences"],"every answer of the service listed (ids and texts any), every combination of roles, outcomes, choices and failures listed",
"An agent reasons from the workspace: a replay under the wrong role or a lost difference misleads it without an error. Tests cover the screenshot names only.",
[W+"resolve-debug-context.ts",W+"download-debug-data.ts",W+"fetch-dom-diffs.ts",W+"screenshot-identifier.ts",W+"meticulous-sha.ts",W+"generate-debug-derived-files.ts",W+"generate-debug-workspace.ts",G+"clean-workspaces.ts",G+"project-worktree.ts"],
["resolveDebugContext@"+W+"resolve-debug-context.ts","downloadDebugData@"+W+"download-debug-data.ts","fetchDomDiffs@"+W+"fetch-dom-diffs.ts","screenshotIdentifierToBaseName@"+W+"screenshot-identifier.ts","screenshotIdentifierToBackendName@"+W+"screenshot-identifier.ts","parseMeticulousSha@"+W+"meticulous-sha.ts","generateDebugDerivedFiles@"+W+"generate-debug-derived-files.ts","generateDebugWorkspace@"+W+"generate-debug-workspace.ts","cleanWorkspaces@"+G+"clean-workspaces.ts","removeProjectWorktree@"+G+"project-worktree.ts","createProjectWorktree@"+G+"project-worktree.ts"],
"The service, disk, git and prompts are models; ids and texts are any, numbers of replays, screenshots and workspaces are bounded (up to four). The texts of the summaries (timelines, sessions, documents of differences) and of the agent's instructions are checked only as far as stated; the numbers of lines of files only on generated cases.","proof")
