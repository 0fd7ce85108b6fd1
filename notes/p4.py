import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
W="packages/backend-recorder-workerd/src/"
prop("P14","Recording never changes what the application does or sees",
"While a worker request is recorded, each fetch, service-binding call, KV operation and Postgres query the application makes is made exactly once with the arguments it was given, and the application gets back the very value, or the very error, the real call gave: whatever the sidecar answers, when the request cannot be captured, and for every thrown value. The request handler runs exactly once and its response's status, headers and body, or its error, reach the caller; without a sidecar the request is handed to the handler untouched. The recorded Postgres text joins the query parts with $1, $2, … in order.",
["inputs","faults","histories"],"every request, response and thrown value; a sidecar that accepts, refuses or fails; operations inside and outside a request",
"Transparency is a claim about every outcome and every fault, including errors that cannot be printed; tests check a handful of outcomes.",
[W+"outbound-capture.ts",W+"fetch-patch.ts",W+"binding-patch.ts",W+"kv-patch.ts",W+"postgres/with-meticulous-postgres.ts",W+"postgres/capture.ts",W+"with-meticulous.ts"],["captureOutboundCall","installFetchPatch@"+W+"fetch-patch.ts","installBindingPatch@"+W+"binding-patch.ts","installKvPatch@"+W+"kv-patch.ts","withMeticulousPostgres@"+W+"postgres/with-meticulous-postgres.ts","reconstructQueryText@"+W+"postgres/capture.ts","runWithMeticulous@"+W+"with-meticulous.ts"],"Proved path by path relative to the Request/Response/AsyncLocalStorage models; query text is bounded to 6 parts. Added response headers (session id, shim version) are P18's subject.")
prop("P15","A replayed request never reaches the real service",
"A worker request is replayed exactly when it carries the session id, the event id and the sidecar address, the address is an acceptable local one, and that sidecar says it knows the session. Inside a replay every fetch is answered from the recording, or with a failure when there is no recording or the sidecar cannot answer; the real fetch is not called, except where the sidecar itself asks for it with its passthrough header. A replay time is used only when it is a finite number that is not negative.",
["inputs","faults"],"every subset of the replay headers, every header value, every sidecar answer or failure, every outbound call",
"One missed case makes a replay write to a production service; the claim is about every request shape and sidecar failure.",
[W+"fetch-patch.ts",W+"with-meticulous.ts",W+"protocol.ts"],["installFetchPatch@"+W+"fetch-patch.ts","runWithMeticulous@"+W+"with-meticulous.ts","parseVirtualTimeMs@"+W+"protocol.ts"],"Proved relative to the Request/Response/AsyncLocalStorage models.")
prop("P16","Captured events are posted exactly once and in order",
"Every event a worker request captures is posted to the sidecar in exactly one batch and in the order it was added: events added before the response, events of work still running when the response is ready (the capture waits for that work and for work it starts), and an event added after the end, which is posted on its own while the request is kept alive. Adding an event keeps everything buffered so far.",
["histories","schedules"],"every history of add, track, close and late add",
"The order of completion of background work is not under a test's control; the claim is about every history.",
[W+"capture-buffer.ts"],["CaptureBuffer"],"Adding and closing are proved for a buffer of any content (induction step); whole histories are bounded to 3 events, 2 tracked tasks and 3 rounds.")
prop("P17","Replayed time and randomness depend only on the session",
"Inside a replay the clock shows the replay's anchor time and outside a replay the real time; a loop that waits for time to pass ends. Random draws inside a replay depend only on the session and the call path, however requests interleave; outside a replay they are the platform's. An identifier built from any draws is a well-formed version 4 UUID and random bytes are bytes.",
["inputs","schedules"],"every anchor, every real time, every draw, interleavings of two replays",
"Determinism is a claim about every interleaving and every draw, which sampling cannot settle.",
[W+"virtual-clock.ts",W+"virtual-random.ts"],["installVirtualClock","applyLoopBreak","installVirtualRandom@"+W+"virtual-random.ts","buildUuid@"+W+"virtual-random.ts","fillBytes@"+W+"virtual-random.ts","createSeededRandom@"+W+"virtual-random.ts","getCallStack@"+W+"virtual-random.ts"],"Clock and UUID shape proved; interleavings are bounded to 3 draws a request, random bytes to 8.")
prop("P18","A page and its worker's events share one well-formed session id",
"A session id is minted exactly for a GET or HEAD that navigates to a document and brings no session id; it is a time followed by 21 url-safe characters and is safe inside a header value. The id that is recorded with the request is the one published in the server-timing header of its response, next to what the application put there; publishing keeps the response's status, headers and body, also when the response is immutable, and a response that cannot be changed is handed back as it is.",
["inputs"],"every method, every presence and value of the headers, every random byte, mutable, immutable and broken responses",
"Which requests are navigations and which responses are immutable vary in combination; tests pick a few.",
[W+"provisional-session-id.ts",W+"publish-session-id.ts",W+"publish-shim-version.ts",W+"with-meticulous.ts"],["isProvisionalSessionIdCandidate","mintProvisionalSessionId","buildServerTimingSessionEntry","publishSessionIdOnResponse@"+W+"publish-session-id.ts","publishWorkerdShimVersionOnResponse@"+W+"publish-shim-version.ts","runWithMeticulous@"+W+"with-meticulous.ts"],"Proved relative to the Response/Headers models of the prelude.")
