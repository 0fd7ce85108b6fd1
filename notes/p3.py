import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
W="packages/backend-recorder-workerd/src/"
prop("P12","Recorded worker bodies, addresses and headers carry no named credentials",
"In a recorded request body that is JSON, every field with a credential name (in any case, with any underscores or dashes) is masked at every depth and everything else is kept; a body is read up to 262144 bytes, is marked truncated exactly when part of it is missing, and its stream is always released. In recorded addresses the user information and every value of the signature parameters are masked while host, path, fragment and other parameters stay, and only the content-type and the session-id headers are recorded.",
["inputs","faults"],"every body text, JSON value, field name, address, header name; streams that end, stall or fail at every point",
"Masking is about every text, every nesting and every stream fault; tests sample a few bodies and addresses.",
[W+"redact-body.ts",W+"body-capture.ts",W+"spans/url-redaction.ts",W+"outbound-capture.ts"],["redactValue","redactRequestBody","readBodyWithCap@"+W+"body-capture.ts","redactUrlCredentials@"+W+"spans/url-redaction.ts","headersToRecord@"+W+"outbound-capture.ts"],"Body masking proved for every JSON value by induction over redactValue; streams of at most two chunks and queries of at most two parameters are bounded. Truncated and non-JSON bodies stay as they are (documented in the source).")
prop("P13","Replay talks only to a plain http address on a local or private host",
"The replay sidecar address taken from a request header is used only when it is at most 2048 characters, parses as an http URL with no user information, path, query or fragment, and its host is localhost, host.docker.internal, host.containers.internal, [::1] or a private or loopback IPv4 address in plain decimal form; the result is then its origin. Every other value is refused without throwing.",
["inputs"],"every header text, every host name, every dotted address",
"An attacker chooses the header; the guard must hold for every text, not for the hosts a test lists.",
[W+"replay-sidecar-url.ts"],["parseReplaySidecarUrl","isLocalHostname","isPrivateIpv4"],"Proved, function by function, relative to the URL model of the prelude.")
