import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
B="packages/backend-recorder-workerd/src/"
prop("P43","A worker waits for its sidecar no longer than set, and marks its replay logs",
"What a worker under Meticulous asks of its sidecar (events to keep, whether a session can be replayed, what a call is answered with, coverage) is asked once, with the data given and the version of the protocol; it never fails, whatever the sidecar does: answers, refuses, answers badly, stops in the middle or never answers. It is waited for within a limit, after which it is given up, and no timer is left behind once it is over. Only what the sidecar itself said is taken for an answer: a session is replayed only if it said so, an answer that did not come (or a failure of the sidecar) is asked for again by the next request and a settled one is not, requests at the same time share one question, and sessions do not share answers. Reports go to the binding if there is one, else to the URL, the given before that of the environment. While a request is replayed every line it logs (texts and errors) begins with the mark of its own replay, with nothing of it lost and other values as they were; requests that are not replayed log as they did, replays at the same time keep their own marks, a value that cannot be read and a console method that cannot be replaced keep nothing from being logged.",
["inputs","schedules","fault_sequences","configurations"],"every listed answer or failure of the sidecar with every status listed, every transport, and texts and values logged of the listed kinds",
"A sidecar that hangs, fails half way or comes up late is not among what the tests run, and it is then that an app under recording would hang or a replay would quietly make real calls.",
[B+"sidecar-client.ts",B+"sidecar-transport.ts",B+"replay-log-tagging.ts",B+"with-meticulous.ts"],
["postCaptureEvents@"+B+"sidecar-client.ts","getReplaySessionInfo@"+B+"sidecar-client.ts","postOutboundFetchLookup@"+B+"sidecar-client.ts","postCoverageReport@"+B+"sidecar-client.ts","resolveSidecarTransport@"+B+"sidecar-transport.ts","sidecarFetch@"+B+"sidecar-transport.ts","createReplayTaggedConsoleMethod@"+B+"replay-log-tagging.ts","installReplayLogTagging@"+B+"replay-log-tagging.ts","runWithMeticulous@"+B+"with-meticulous.ts"],
"The sidecar, timers and AsyncLocalStorage are models. Limits are required to be at most 5 s (reports to a URL), 20 s (to a binding), 10 s (calls and coverage) and 15 s (sessions). Lines of logs are checked for listed texts of up to three lines, one line texts for any text; format directives in the text of an error are left open.","proof")
