import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
W="packages/backend-recorder-workerd/src/"
S="packages/backend-recorder-sidecar-worker/src/"
prop("P19","Every captured worker event becomes one span of its request's trace",
"A captured inbound, outbound, binding, KV or Postgres event becomes exactly one span and an event of any other kind none. The span has the trace id and the server span id the event is stamped with, whatever was built before (the inbound span has that id, the others are its children); unstamped events of one request share one well-formed pair of ids. Start, end and a never negative duration, the frontend session, the technology, the status code, the error and its reason, captured bodies, KV keys and values and Postgres query and result (cut and flagged beyond 256 KiB) are those of the event; a span is an error exactly when the call failed or answered 500 or more (inbound) or 400 or more (outbound, binding); only content-type and session-id headers are carried; the address is recorded in its parts.",
["inputs"],"every event of every kind with every optional field present or absent, any ids, times, texts and headers, events built before it",
"Which optional fields an event has varies independently, and the ids must not depend on what was built before; tests build a few events.",
[W+"spans/span-builder.ts",W+"spans/serialize-span.ts",W+"spans/readable-span.ts"],["SpanBuilder.build","serializeSpan@"+W+"spans/serialize-span.ts"],"Proved for all texts and ids; one header per event, two events per history.")
prop("P20","A recorded session's chunks are numbered without gaps and bounded",
"Flushing events writes nothing when there are none to record or while the session was abandoned less than five minutes ago. Otherwise all of them, in order, are written as one chunk under the session's next number below the first 12 characters of the recording token and the session id, after the session's metadata, which is written once; a session with 30 chunks or ten minutes, and an abandoned one after the pause, is first left for a new session that starts at zero. A failed chunk keeps its number; the third failure in a row, or failed metadata, abandons the session with a marker. The state that was passed in is not changed.",
["inputs","faults"],"every session state, time and token, any number of events, every outcome of every write",
"The rules interact (full, abandoned, failing, no metadata yet) and every storage outcome counts; tests walk a few histories.",
[S+"session-store.ts"],["flushChunk","newSessionState"],"Proved for every state and outcome; the chunk's content for any number of KV events.")
prop("P21","An accepted worker report is durable and survives a crash",
"A report the recorder object answers with 204 is in durable storage, behind all earlier ones, stored in one step with its counter and never without an alarm that will flush it; if storage fails the answer is 500 and nothing is stored; a body that is no list of events stores nothing. A flush uploads all pending events in order, and whatever operation a crash hits, every pending event is afterwards either uploaded or still stored, and the session's place is stored before the events are dropped (when S3 accepts the upload). Events that arrive during an upload are kept and flushed later, a backlog beyond 64 batches goes on at once, and splitting a report to the storage limit keeps every event and its order.",
["crash-points","histories","schedules"],"a crash or fault at every storage operation, every outcome of the upload, reports arriving during an upload",
"Crash safety is a claim about every crash point; tests inject a few faults.",
[S+"recorder-session-object.ts"],["MeticulousRecorderSession","splitToFitValueLimit"],"Storing is proved for every counter and crash point; flushes are bounded to 3 batches (65 for the backlog), splitting to 3 events.")
prop("P22","The sidecar worker accepts exactly well-formed reports",
"Without a recording token or recorder objects every request but the health check is answered 500 and reaches no object. A POST to /v1/events with the right protocol version, at most 8 MiB declared and a JSON list of events reaches exactly one recorder object, unchanged and in order, always the same one for one request id, and is answered 204 exactly when that object stored it; any other path or method is 404, another version or body 400, a larger one 413, and reaches no object. A flush reaches every object once and fails exactly if one of them fails.",
["inputs","faults"],"every combination of token, objects, shard setting, method, path, version, declared length, body and answer of the object",
"The cases combine and a report that is accepted but not stored is lost silently; tests check single cases.",
[S+"index.ts",S+"env.ts"],["fetch","resolveSidecarConfig@"+S+"env.ts"],"Proved for listed shard settings, paths and methods; the choice of the object is bounded to request ids of up to 3 characters.")
prop("P23","An upload is signed, addressed and authorised correctly",
"An object is put once, with its JSON, under its key in the configured bucket and region (or below the configured endpoint, however many slashes it ends with), with credentials of the configured identity pool; the request is signed as AWS Signature Version 4 says, with every header it sends. Credentials are reused until five minutes before they expire, two writes at once share one fetch of them, a put answered 403 makes the next write fetch new ones, and without complete credentials nothing is put and the next write tries again. A write succeeds exactly when the put is answered with 2xx.",
["inputs","faults","schedules"],"every configuration, expiry, clock, status and failure; listed paths and queries",
"Expiry margins, retries after refusal and canonicalisation go wrong only for particular times and characters; tests use one vector.",
[S+"s3/storage.ts",S+"s3/sigv4.ts",S+"s3/cognito-credentials.ts"],["S3StorageBackend.write","signRequest@"+S+"s3/sigv4.ts","fetchCognitoCredentials@"+S+"s3/cognito-credentials.ts"],"SHA-256 and HMAC are the platform's (assumed); the texts that are hashed and signed are proved.")
