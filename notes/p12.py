import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
R="packages/remote-replay-launcher/src/"
C="packages/client/src/api/"
L="packages/cli/src/"
T="packages/tunnel-client/src/"
K="packages/custom-checks/src/"
prop("P35","A remote test run is followed to its end",
"A run is asked for again with the pause given exactly while it is in progress; the first status that is final is the result (an execution error only when no retry came within five minutes), each answer is told, no failing question is mistaken for an end, and nothing goes on afterwards. The tunnel to the local app is opened once, leads to the address given, stays open while the run or its deployment lock lasts (and as long as the caller asks), and is closed in every case, also when any step fails; that failure is passed on. Waits of the CLI for a run or a base end as the run does and no later than was said; custom checks are told of the run people see (a merged one if there is one), register what is expected once, and wait no longer than given. A run is triggered, and session generation launched, once and last, for exactly one app, commit or deployment, with the changes, image, files and instructions stored and registered before; if anything fails, nothing is triggered.",
["histories","fault_sequences","schedules"],"every listed sequence of statuses, locks, answers, failures and settings",
"Which status follows which, what fails when, and how long things take is decided by a remote service over minutes; tests replay a few histories with everything in place.",
[R+"execute-remote-test-run.ts",R+"trigger-test-run.ts",R+"generate-sessions.ts",K+"wait-for-test-run.ts",L+"utils/resolve-test-run-from-commit.ts",L+"commands/agent/complete-base-run.command.ts"],["executeRemoteTestRun@"+R+"execute-remote-test-run.ts","getPort@"+R+"url.utils.ts","triggerTestRun@"+R+"trigger-test-run.ts","generateSessions@"+R+"generate-sessions.ts","findTestRunForCustomChecks@"+K+"wait-for-test-run.ts","findTestRunByCommitForCustomChecks@"+K+"wait-for-test-run.ts","awaitTestRunCompletion@"+L+"utils/resolve-test-run-from-commit.ts","ensureTestRunFinished@"+L+"utils/resolve-test-run-from-commit.ts","waitForBaseRunCompletion@"+L+"commands/agent/complete-base-run.command.ts"],"Exhaustive over the listed histories, faults and settings (bounded); service, store, clock, workers and Docker daemon are models.","exploration")
prop("P36","The tunnel carries requests unchanged to the right place",
"Every request that comes through the tunnel is made once, with its path, method, headers (less those of the connection, of tracing and of the tunnel) and body, at the local app; at another host, with the port and protocol of its original URL, only if that was asked for and never at the tunnel itself. Its answer goes back with the app's status, headers (less those of an HTTP/1 connection) and body, to that request and no other; an app that cannot be reached or closes the connection is a 502, an answer that breaks off is broken off, and an abandoned request never looks whole to the app. A connection is used only after the tunnel let it in; the passphrase is sent once, to the tunnel, over TLS whenever the tunnel is secure, and through a proxy only after the proxy's whole, successful answer; anything else is an error and not a wait without end. Opening a tunnel starts as many workers as asked for, each told once where the tunnel and app are; a refusal is an error at once, a service that is away is asked again each second, a failing worker is told until the tunnel is closed, and closing ends every worker.",
["inputs","schedules","fault_sequences"],"every path, header value, status, passphrase and exit code, and every listed URL, setting, failure and piece of a proxy's answer",
"A header lost, a host followed, or a connection dropped at the wrong moment concerns whatever app and proxy customers have; there are no tests of it.",
[T+"lib/tunnel-http2-cluster.ts",T+"utils/open-socket.ts",T+"lib/tunnel.ts",T+"localtunnel.ts"],["startListening@"+T+"lib/tunnel-http2-cluster.ts","getRequestTarget@"+T+"lib/tunnel-http2-cluster.ts","openSocket@"+T+"utils/open-socket.ts","createProxyConnection@"+T+"utils/open-socket.ts","_init@"+T+"lib/tunnel.ts","_establish@"+T+"lib/tunnel.ts","_establishMultiplexingCluster@"+T+"lib/tunnel.ts","localtunnel@"+T+"localtunnel.ts"],"Proved for every path, value, status and passphrase, over each listed URL, setting and fault; HTTP, HTTP/2, sockets, agents and worker processes are models of Node's and of the libraries'. The entry point of the worker process is not under contract.","exploration")
prop("P37","A custom check sees every snapshot of the runs, and its results are reported",
"A custom check is given, for the run and for its base separately, every snapshot of the types asked for, once, in the order of the files and within them, each with its file's type and session and with what was stored (a missing version is 0, a missing description null). Each file is fetched once under the signed address; one that is missing, not an archive, or holds something else fails the whole with an error, so a check never takes a part for all of it. Nothing is left in the temporary directory, and no rejection goes unhandled. Results are reported once, to that run, as computed, and a refusal is an error.",
["inputs","fault_sequences","schedules"],"every listed list of files, content, failure and order of completion",
"Which file is late, missing or malformed cannot be sampled; a snapshot silently lost or attributed to another session makes a check pass that should fail.",
[K+"download-snapshots.ts",K+"get-snapshots-from-test-run.ts",K+"report-custom-check-results.ts"],["downloadAndAssembleSnapshots@"+K+"download-snapshots.ts","getSnapshotsFromTestRun@"+K+"get-snapshots-from-test-run.ts","reportCustomCheckResults@"+K+"report-custom-check-results.ts","downloadAndExtractFile@packages/downloading-helpers/src/file-downloads/download-file.ts"],"Exhaustive over the listed files, contents and failures (bounded); store, archive library and disk are models.","exploration")
