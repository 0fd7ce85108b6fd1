import sys; sys.path.insert(0,'/verif/notes')
from mkprop import prop
L="packages/client/src/"
prop("P26","The token used is the first of flag, login, environment and file",
"A command uses the token of its flag, else that of a login, else METICULOUS_API_TOKEN, else the configuration file's, else none; an empty one counts as none. A login's access token is used while it is valid for more than 30 seconds, otherwise it is refreshed exactly once with the stored refresh token: the new tokens and expiry are stored (a refresh or identity token that is not renewed is kept) and the new access token is used, while a refresh that is refused or fails, or a login without a refresh token, is forgotten and counts as no login. Stored tokens are read back as stored, readable by their owner only; an unreadable store is no login. A login's token is told from an API token by its form, and expires when its claims say.",
["inputs","configurations","faults"],"every combination of sources, every token text, expiry and clock, every answer to a refresh",
"The sources and the expiry margin combine, and each refresh outcome counts; tests check a few.",
[L+"api-token.utils.ts",L+"oauth/oauth-refresh.ts",L+"oauth/oauth-token-store.ts",L+"oauth/oauth-utils.ts"],["getAuthToken","getValidAccessToken@"+L+"oauth/oauth-refresh.ts","storeOAuthTokens@"+L+"oauth/oauth-token-store.ts","isOAuthJwt@"+L+"oauth/oauth-utils.ts"],"Proved for all texts and times; the disk is modelled in memory.")
prop("P27","A login accepts only its own callback and keeps what it obtains",
"A browser login listens on 127.0.0.1 only, asks for a code with an unguessable state and a challenge that is the SHA-256 of its verifier, and exchanges a code only if it comes back with its own state, sending that verifier and the same redirect address. The callback server answers its callback once and closes: with a code and a state it succeeds, with an error, without one of them or after two minutes it fails; other addresses are not found and change nothing. A device login asks for its tokens after each interval (five seconds, or as told; five more after each slow_down) until there is a decision, never after the code has expired; a failed network or server is no decision, a denial or any other refusal ends it. Tokens are stored exactly when a login succeeds, with the expiry they were given.",
["inputs","histories","faults"],"every code, state, token, lifetime and interval, every sequence of answers, callbacks before, after and instead of the right one",
"What counts is who answers and when; tests follow the expected course.",
[L+"oauth/oauth-login.ts",L+"oauth/oauth-callback-server.ts",L+"oauth/oauth-device-login.ts",L+"oauth/oauth-pkce.ts",L+"oauth/oauth-constants.ts"],["performOAuthLogin","startCallbackServer@"+L+"oauth/oauth-callback-server.ts","performDeviceLogin@"+L+"oauth/oauth-device-login.ts"],"Codes and states over the characters that need no escaping; device logins bounded to 4 answers; SHA-256 and randomness are the platform's.")
