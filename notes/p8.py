import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
W="packages/backend-recorder-workerd/src/"
prop("P28","Recorded KV and Postgres events describe the calls they were made for",
"A recorded KV operation carries its namespace's binding name, its key if that is a text, its arguments as JSON (a put's value replaced by null), the value written (secrets in a written JSON text redacted) and the value read as JSON, each cut and flagged beyond 262144 characters; a stream or bytes, wherever they stand in such a value, become null without being read and name the reason; a value without JSON text is left out and the rest kept; a failure carries its text. A recorded Postgres query carries its text with numbered placeholders, its parameters, its row mode, and for every statement rows, row count, command, columns and prepared statement, or the error with name, message and own fields but without query, parameters, arguments and types. Both carry the request's, trace's, span's and session's ids and the call's start and end time. Any text is read back as some error, a recorded one with its name, message and fields.",
["inputs","programs"],"every operation, shape of arguments and values, outcome, statement metadata, time and id",
"Values come in every shape the platform and driver allow; tests pin a few of them.",
[W+"kv-capture.ts",W+"kv-patch.ts",W+"postgres/capture.ts",W+"postgres/with-meticulous-postgres.ts",W+"error-capture.ts"],["serializeKvCaptureFields","installKvPatch@"+W+"kv-patch.ts","withMeticulousPostgres@"+W+"postgres/with-meticulous-postgres.ts","serializeCapturedError@"+W+"error-capture.ts"],"Proved for all keys, texts, ids and times over the listed shapes of values; several statements bounded to two.")
