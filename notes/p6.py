import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
S="packages/backend-recorder-sidecar-worker/src/"
L="packages/client/src/"
C="packages/common/src/"
prop("P24","Requests are repeated only after transient failures, and carry the token",
"A request is repeated only after a failure that may pass (an abort, a transient network code as innermost cause, 429 or 5xx; for uploads the listed statuses and codes), at most as often as configured, three times by default (five attempts for uploads). Each wait is at least what the server asks for with Retry-After, otherwise between half and all of a doubling delay (half and one and a half for uploads), never above the configured maximum. The first success is the result, otherwise the last failure, unchanged. An API request carries exactly its token (asked for anew each time), data and parameters; it succeeds exactly on 2xx with the data of the answer, a failure carries the status and the data, and one refused for want of a token says what to do.",
["inputs","faults","histories"],"every sequence of failures, every status, code, delay and Retry-After, every token and value",
"Which failures are repeated and for how long depends on combinations of codes, causes, headers and attempts that tests sample.",
[C+"http-retry.utils.ts",C+"error-code.utils.ts",L+"utils/retry-transient-upload-errors.ts",L+"client.ts"],["executeWithRetry","retryTransientUploadErrors@"+L+"utils/retry-transient-upload-errors.ts","buildClient@"+L+"client.ts"],"Waits, statuses and codes are proved for all values; sequences are bounded to 5 attempts.")
prop("P25","Requests go through the configured proxy except for excepted hosts",
"A request is sent once and unchanged, by the proxy configured for the protocol of its address (https_proxy or, without it, http_proxy for https, http_proxy for http; the lower-case variable wins, also when it is empty), and directly when there is none, when its address cannot be read, or when no_proxy excepts it: an entry covers a host of that name, an entry with a leading dot or star-dot the hosts below it, a star all, and an entry with a port only that port, the protocol's own port counting as given. Names are compared without regard to case, every entry of a list counts however it is separated, and the environment counts as it is at the time of the request.",
["inputs","configurations"],"every address and host name, every combination of the variables, listed separators and ports",
"Tests try a few hosts; the rule is about every host and every entry.",
[C+"fetch.utils.ts"],["meticulousFetch"],"Proved for all host names; undici's agents are modelled (which proxy they are built for).")
prop("P20","A recorded session's chunks are numbered without gaps and bounded",
"Flushing events writes nothing when there are none to record or while the session was abandoned less than five minutes ago. Otherwise all of them, in order, are written as one chunk under the session's next number below the first 12 characters of the recording token and the session id, after the session's metadata (which names its token, project, version, session and start, and is written once); a session with 30 chunks or ten minutes, and an abandoned one after the pause, is first left for a new session that starts at zero. A failed chunk keeps its number; the third failure in a row, or failed metadata, abandons the session with a marker. The state that was passed in is not changed.",
["inputs","faults"],"every session state, time and token, any number of events, every outcome of every write",
"The rules interact (full, abandoned, failing, no metadata yet) and every storage outcome counts; tests walk a few histories.",
[S+"session-store.ts"],["flushChunk","newSessionState"],"Proved for every state and outcome; the chunk's content for any number of KV events.")
prop("P21","An accepted worker report is durable and survives a crash",
"A report the recorder object answers with 204 is in durable storage, behind all earlier ones, stored in one step with its counter and never without an alarm that will flush it within a minute; if any storage operation fails the answer is 500 and nothing is stored; a body that is no list of events stores nothing. A flush uploads all pending events in order, and whatever operation a crash hits or fails, every pending event is afterwards either uploaded or still stored, and the session's place is stored before the events are dropped (when S3 accepts the upload; an abandoned session's events are dropped). The first flush starts a session of its own. Events that arrive during an upload are kept and flushed later, a backlog beyond 64 batches goes on at once, and splitting a report to the storage limit keeps every event and its order.",
["crash-points","histories","schedules"],"a crash or fault at every storage operation, every outcome of the upload, reports arriving during an upload",
"Crash safety is a claim about every crash point; tests inject a few faults.",
[S+"recorder-session-object.ts"],["MeticulousRecorderSession","splitToFitValueLimit"],"Storing is proved for every counter and crash point; flushes are bounded to 3 batches (65 for the backlog), splitting to 3 events.")
prop("P22","The sidecar worker accepts exactly well-formed reports",
"Without a recording token or recorder objects every request but the health check is answered 500 and reaches no object. A POST to /v1/events with the right protocol version, at most 8 MiB declared and a JSON list of events reaches exactly one recorder object, unchanged and in order, always the same one for one request id, while different requests use different objects, and is answered 204 exactly when that object stored it; any other path or method is 404, another version or body 400, a larger one 413, and reaches no object. A flush reaches every object once and fails exactly if one of them fails. The worker's configuration is that of its environment.",
["inputs","faults"],"every combination of token, objects, shard setting, method, path, version, declared length, body and answer of the object",
"The cases combine and a report that is accepted but not stored is lost silently; tests check single cases.",
[S+"index.ts",S+"env.ts"],["fetch","resolveSidecarConfig@"+S+"env.ts"],"Proved for listed shard settings, paths and methods; the choice of the object is bounded to request ids of up to 3 characters.")
