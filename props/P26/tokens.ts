import { contract } from "vf";
import { getAuthToken, getApiToken, readFileBasedToken } from "repo:client/src/api-token.utils";
import { getValidAccessToken } from "repo:client/src/oauth/oauth-refresh";
import { storeOAuthTokens, getStoredOAuthTokens, clearOAuthTokens } from "repo:client/src/oauth/oauth-token-store";
import { isOAuthJwt, isJwtExpired, getJwtClaims } from "repo:client/src/oauth/oauth-utils";
import { disk, provider, env, clock, answer, FILE, CONFIG, ENDPOINT } from "./lib";

const ids = (g, n) => g.string(n, ["a-b", ""]);

contract("the token is the flag's, else the login's, else the environment's, else the file's", {}, async (g) => {
  const flag = g.choose("flag", ["none", "null", "given"]), f = g.string("flag token"), login = g.choose("login", ["none", "valid", "unreadable"]), l = g.string("login token"), e = g.opt("environment", () => g.string("environment token")), file = g.choose("file", ["none", "token", "no token"]), t = g.string("file token");
  env(g, e === undefined ? {} : { METICULOUS_API_TOKEN: e }); clock(g, 1000000); const p = provider(g);
  if (login === "valid") { g.assume(l !== ""); disk.put(FILE, JSON.stringify({ accessToken: l, refreshToken: "r", expiresAt: 5000 })); } else if (login === "unreadable") disk.put(FILE, "{");
  if (file !== "none") disk.put(CONFIG, JSON.stringify(file === "token" ? { apiToken: t } : {}));
  const fromFile = file === "token" && t !== "" ? t : null, rest = e !== undefined && e !== "" ? e : fromFile, arg = flag === "given" ? f : flag === "null" ? null : undefined;
  const r = await getAuthToken(arg);
  g.ensure("in this order", r === (flag === "given" && f !== "" ? f : login === "valid" ? l : rest));
  g.ensure("without a login the same", getApiToken(arg) === (flag === "given" && f !== "" ? f : rest));
  const read = readFileBasedToken();
  g.ensure("the file's token and where it is", fromFile === null ? read === null : read.token === fromFile && read.path === CONFIG);
  g.ensure("nothing is asked for", p.asked.length === 0 && p.known.length === 0);
});
contract("a login's token is used while it is valid for half a minute, else refreshed once", {}, async (g) => {
  env(g); const now = g.int("now", 1000000000000, 4000000000000), at = clock(g, now), expires = g.int("expires", 0, 5000000000), lifetime = g.int("lifetime", 60, 100000), a = ids(g, "access"), b = g.string("new access"), refresh = g.opt("refresh", () => ids(g, "refresh token")), next = g.opt("next", () => g.string("new refresh")), id = g.opt("id", () => g.string("new id")), old = g.opt("old id", () => g.string("id token"));
  const body: any = { access_token: b, expires_in: lifetime }; if (next !== undefined) body.refresh_token = next; if (id !== undefined) body.id_token = id;
  const stored: any = { accessToken: a, expiresAt: expires, extra: "kept" }; if (refresh !== undefined) stored.refreshToken = refresh; if (old !== undefined) stored.idToken = old;
  disk.put(FILE, JSON.stringify(stored)); const before = disk.text(FILE);
  const how = g.choose("answer", ["ok", "refused", "broken"]), p = provider(g, { token: () => { if (how === "broken") throw new Error("offline"); return answer(body, how === "ok" ? 200 : g.int("status", 400, 599)); } });
  const r = await getValidAccessToken(), secs = Math.floor(now / 1000);
  if (expires > secs + 30) {
    g.ensure("valid: used as it is", r === a && p.asked.length === 0);
    g.ensure("and kept", disk.text(FILE) === before);
  } else if (refresh === undefined || refresh === "") {
    g.ensure("cannot be refreshed: forgotten", r === null && p.asked.length === 0 && disk.text(FILE) === undefined);
  } else {
    const q = p.asked[0];
    g.ensure("one refresh", p.asked.length === 1 && q.url === ENDPOINT && q.method === "POST" && q.type === "application/x-www-form-urlencoded");
    g.ensure("with the refresh token", q.form.get("grant_type") === "refresh_token" && q.form.get("refresh_token") === refresh && q.form.get("client_id") === "meticulous-cli");
    if (how !== "ok") g.ensure("refused: forgotten", r === null && disk.text(FILE) === undefined);
    else {
      const s: any = getStoredOAuthTokens();
      g.ensure("the new token", r === b && s.accessToken === b && s.expiresAt === secs + lifetime);
      g.ensure("the refresh token is replaced only by a new one", s.refreshToken === (next !== undefined ? next : refresh));
      g.ensure("and so is the identity", s.idToken === (id !== undefined ? id : old));
    }
  }
});
contract("what is stored is read back, for its owner only", {}, (g) => {
  env(g); const t: any = { accessToken: g.string("a"), refreshToken: g.string("r"), expiresAt: g.int("e", 0, 9000000000) }; if (g.bool("has id")) t.idToken = g.string("i");
  const earlier = g.bool("earlier"); if (earlier) storeOAuthTokens({ accessToken: "old", refreshToken: "old", expiresAt: 1, idToken: "old" });
  storeOAuthTokens(t);
  g.eq("the same", getStoredOAuthTokens(), t);
  g.ensure("readable by its owner only", (disk.mode(FILE) & 0o077) === 0 && (disk.mode(FILE) & 0o600) === 0o600);
  clearOAuthTokens();
  g.ensure("and forgotten", getStoredOAuthTokens() === null && disk.text(FILE) === undefined);
  clearOAuthTokens();
});
contract("a store that cannot be read is no login", {}, (g) => {
  env(g); const text = g.choose("text", [undefined, "", "{", "null"]), fails = g.bool("fails"); if (text !== undefined) disk.put(FILE, text); disk.fails = () => fails;
  g.ensure("none", getStoredOAuthTokens() === null);
  clearOAuthTokens();
});
contract("a login's token is told from an API token", {}, (g) => {
  const t = g.string("token", ["prat-a.b.c", "trat-a.b.c", "a.b.c", "a..c", "a.b", ""]), parts = t.split(".");
  g.ensure("three parts, and no API token's prefix", isOAuthJwt(t) === (!t.startsWith("prat-") && !t.startsWith("trat") && /^[^.]+\.[^.]+\.[^.]+$/.test(t)));
});
contract("a login's token expires when it says", {}, (g) => {
  const now = g.int("now", 0, 4000000000000); clock(g, now);
  const exp = g.choose("exp", ["number", "none", "text", "no object"]), n = g.int("at", 0, 5000000000), s = g.string("name"), claims: any = exp === "number" ? { exp: n, s } : exp === "text" ? { exp: String(n) } : exp === "none" ? { s } : null;
  const t = "h." + Buffer.from(JSON.stringify(claims), "utf-8").toString("base64url") + ".sig";
  g.ensure("then", isJwtExpired(t) === (exp === "number" && n * 1000 < now));
  g.eq("its claims are read", getJwtClaims(t), claims);
});
contract("what is no such token has no claims", {}, (g) => {
  const t = g.choose("token", ["", "a", "a.b", "a.b.c.d", "a.!!.c", "h." + "e30x" + ".s"]);
  g.ensure("none, and never expires", getJwtClaims(t) === null && isJwtExpired(t) === false);
});
