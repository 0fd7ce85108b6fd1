import { contract } from "vf";
import { createHash } from "crypto";
import { servers } from "http";
import { commands } from "child_process";
import { performOAuthLogin } from "repo:client/src/oauth/oauth-login";
import { performDeviceLogin } from "repo:client/src/oauth/oauth-device-login";
import { startCallbackServer } from "repo:client/src/oauth/oauth-callback-server";
import { generateCodeVerifier, generateCodeChallenge } from "repo:client/src/oauth/oauth-pkce";
import { getStoredOAuthTokens } from "repo:client/src/oauth/oauth-token-store";
import { getTokenEndpoint, getDeviceAuthorizationEndpoint, getWebappBaseUrl } from "repo:client/src/oauth/oauth-constants";
import { disk, provider, env, clock, answer, FILE, ENDPOINT, DEVICE, ISSUER } from "../P26/lib";

const turns = async (n) => { for (let i = 0; i < n; i++) await Promise.resolve(); };
// timers run when the contract says
const timers = (g) => { const list = []; g.setGlobal("setTimeout", (f, ms) => { list.push({ f, ms, off: false }); return list.length; }); g.setGlobal("clearTimeout", (n) => { if (n !== undefined) list[n - 1].off = true; }); return list; };
const opened = () => commands.list[0].slice('xdg-open "'.length, -1);

contract("a login stores tokens exactly when it is its own that returns", {}, async (g) => {
  env(g); timers(g); const now = 1700000000999, at = clock(g, now), code = g.string("code", ["c_1", "x-9"]), own = g.choose("state", ["own", "other", "nearly"]), other = g.string("other", ["o_1", "z"]), ok = g.bool("accepted"), a = g.string("access"), r = g.string("refresh"), secs = g.int("lifetime", 0, 1000000), id = g.opt("identity", () => g.string("id"));
  g.assume(/^[A-Za-z0-9_-]+$/.test(code) && /^[A-Za-z0-9_-]+$/.test(other)); servers.port = g.choose("port", [4711, 65535]);
  const p = provider(g, { token: () => answer(ok ? { access_token: a, refresh_token: r, expires_in: secs, ...(id === undefined ? {} : { id_token: id }) } : "no", ok ? 200 : g.int("status", 400, 599)) });
  const done = g.attemptAsync(() => performOAuthLogin()); await turns(40);
  const url = new URL(opened()), q = url.searchParams, s = servers.list[0], mine = q.get("state");
  g.ensure("asks for a code, with a challenge, for this machine", url.origin === "https://app.meticulous.ai" && url.pathname === "/cli-login" && q.get("response_type") === "code" && q.get("client_id") === "meticulous-cli" && q.get("code_challenge_method") === "S256" && q.get("scope").split(" ").includes("offline_access") && q.get("issuer") === ISSUER);
  g.ensure("listens for this machine only", s.host === "127.0.0.1" && q.get("redirect_uri") === "http://127.0.0.1:" + servers.port + "/callback");
  g.ensure("the state and challenge cannot be guessed", mine.length >= 22 && q.get("code_challenge").length > 0);
  const back = own === "own" ? mine : own === "other" ? other : mine + "x"; g.assume(own !== "other" || other !== mine);
  s.visit("/callback?code=" + code + "&state=" + back);
  const res = await done, same = own === "own";
  g.ensure("succeeds exactly for its own state and an accepted code", res.ok === (same && ok));
  g.ensure("another's code is not exchanged", p.asked.length === (same ? 1 : 0));
  if (same) { const f = p.asked[0].form; g.ensure("the exchange proves who asked", p.asked[0].url === ENDPOINT && p.asked[0].method === "POST" && p.asked[0].type === "application/x-www-form-urlencoded" && f.get("grant_type") === "authorization_code" && f.get("code") === code && f.get("client_id") === "meticulous-cli" && f.get("redirect_uri") === q.get("redirect_uri") && createHash("sha256").update(f.get("code_verifier")).digest("base64url") === q.get("code_challenge") && f.get("code_verifier").length >= 43); }
  const st = getStoredOAuthTokens();
  if (res.ok) g.ensure("its tokens are stored", st.accessToken === a && st.refreshToken === r && st.idToken === id && st.expiresAt === 1700000000 + secs && res.value.accessToken === a && res.value.refreshToken === r);
  else g.ensure("none is stored", st === null);
});
contract("a login by hand opens nothing", {}, async (g) => {
  env(g); timers(g); provider(g, { token: () => answer("no", 400) });
  const done = g.attemptAsync(() => performOAuthLogin({ openBrowserAutomatically: false })); await turns(40);
  g.ensure("no command", commands.list.length === 0 && servers.list.length === 1);
  servers.list[0].visit("/callback?error=x"); const r = await done;
  g.ensure("fails", !r.ok);
});
contract("the callback server answers its callback once", {}, async (g) => {
  const list = timers(g), s0 = startCallbackServer(); await turns(40);
  const cs = await s0, s = servers.list[0], w = g.attemptAsync(() => cs.waitForCallback());
  const stray = g.choose("stray", ["", "/", "/favicon.ico", "/call"]);
  if (stray !== "") { const r = s.visit(stray); g.ensure("other addresses are not found, and change nothing", r.status === 404 && r.ended && s.closed === 0); }
  const code = g.opt("code", () => g.string("the code", ["abc", ""])), state = g.opt("state", () => g.string("the state", ["s_1", ""])), err = g.opt("error", () => g.string("the error", ["access_denied", ""]));
  for (const x of [code, state, err]) g.assume(x === undefined || /^[A-Za-z0-9_]*$/.test(x));
  const late = g.bool("late"); if (late) list[0].f();
  const r = s.visit("/callback?x=1" + (code === undefined ? "" : "&code=" + code) + (state === undefined ? "" : "&state=" + state) + (err === undefined ? "" : "&error=" + err));
  const res = await w;
  g.ensure("answered", r.status === 200 && r.ended);
  const good = !late && code !== undefined && code !== "" && state !== undefined && state !== "" && (err === undefined || err === "");
  g.ensure("succeeds exactly with a code and a state, no error and in time", res.ok === good && (!good || (res.value.code === code && res.value.state === state)));
  g.ensure("is closed", s.closed > 0);
  g.ensure("keeps no timer, of two minutes", list.length === 1 && list[0].ms === 120000 && (late || list[0].off));
});
contract("a callback server that cannot start fails", {}, async (g) => {
  const list = timers(g), how = g.choose("how", ["error", "no address", "pipe"]); servers.address = how === "no address" ? null : how === "pipe" ? "/tmp/x" : undefined;
  const w = g.attemptAsync(() => startCallbackServer()); const why = new Error("in use"); if (how === "error") servers.list[0].emit("error", why);
  const r = await w;
  g.ensure("with the reason", !r.ok && (how !== "error" || r.error === why));
});
contract("a device login asks as often as it may and stops when it is over", { bounded: "4 answers" }, async (g) => {
  env(g); let now = 1700000000000; g.setGlobal("Date", class extends Date { static now() { return now; } });
  const waits = [], sent = []; g.setGlobal("setTimeout", (f, ms) => { waits.push(ms); Promise.resolve().then(() => { now += ms; f(); }); return 0; });
  const id = g.choose("identity", [undefined, "id"]), interval = g.opt("interval", () => g.int("every", 1, 60)), expires = g.int("expires", 1, 100), kinds = ["pending", "slow", "offline", "500", "denied", "expired", "other", "garbage", "ok"], got = [];
  const p = provider(g, { device: () => answer({ device_code: "dev", user_code: "U-1", verification_uri: "https://x/", expires_in: expires, ...(interval === undefined ? {} : { interval }) }), token: (n) => {
    const k = n > 3 ? "denied" : g.choose("answer" + n, n === 3 ? ["pending", "ok"] : kinds); got.push(k); sent.push(now);
    if (k === "offline") throw new Error("offline");
    return k === "ok" ? answer({ access_token: "a" + n, refresh_token: "r", expires_in: 60, ...(id === undefined ? {} : { id_token: id }) }) : k === "500" ? answer("oops", 503) : k === "garbage" ? answer("<html>", 400) : answer({ error: { pending: "authorization_pending", slow: "slow_down", denied: "access_denied", expired: "expired_token", other: "invalid_grant" }[k] }, 400);
  } });
  const r = await g.attemptAsync(() => performDeviceLogin());
  const last = got.at(-1), goesOn = (k) => k === "pending" || k === "slow" || k === "offline" || k === "500";
  g.ensure("asks again exactly after no decision", got.slice(0, -1).every(goesOn) && got.length > 0 && (!goesOn(last) || now >= 1700000000000 + expires * 1000));
  g.ensure("never after the code has expired", sent.every((t) => t <= 1700000000000 + expires * 1000));
  let every = interval === undefined ? 5 : interval, left = expires * 1000; let good = true;
  for (let i = 0; i < waits.length; i++) { const w = Math.min(every * 1000, left); if (waits[i] !== w) good = false; left -= w; if (got[i] === "slow") every += 5; }
  g.ensure("waits the interval before each, five seconds more after each slow_down", good && waits.length === got.length);
  g.ensure("succeeds exactly when it is confirmed", r.ok === (last === "ok"));
  const f = p.asked.map((x) => x.form);
  const post = (x) => x.method === "POST" && x.type === "application/x-www-form-urlencoded";
  g.ensure("asks for a code with a challenge", p.devices.length === 1 && post(p.devices[0]) && p.devices[0].form.get("client_id") === "meticulous-cli" && p.devices[0].form.get("code_challenge_method") === "S256" && p.devices[0].form.get("scope").split(" ").includes("offline_access"));
  g.ensure("asks for its own code", p.asked.every(post) && p.asked.every((x) => x.url === ENDPOINT) && f.every((x) => x.get("device_code") === "dev" && x.get("grant_type") === "urn:ietf:params:oauth:grant-type:device_code" && x.get("client_id") === "meticulous-cli" && createHash("sha256").update(x.get("code_verifier")).digest("base64url") === p.devices[0].form.get("code_challenge")));
  const st = getStoredOAuthTokens();
  g.ensure("its tokens are stored, else none", r.ok ? st.accessToken === "a" + got.length && st.refreshToken === "r" && st.idToken === id && st.expiresAt === Math.floor(now / 1000) + 60 && r.value.accessToken === st.accessToken : st === null);
});
contract("a device login needs a whole answer", {}, async (g) => {
  env(g); clock(g, 0); timers(g); const field = g.choose("field", ["device_code", "user_code", "verification_uri", "expires_in", "none"]), v = field === "expires_in" ? g.choose("value", [undefined, "10", null]) : g.choose("value", [undefined, "", 1, null]), status = field === "none" ? g.choose("refused", [400, 500]) : g.choose("status", [200, 400, 500]);
  const p = provider(g, { device: () => answer({ device_code: "d", user_code: "u", verification_uri: "v", expires_in: 10, [field]: v }, status), token: () => answer({ error: "access_denied" }, 400) });
  g.setGlobal("setTimeout", (f) => { Promise.resolve().then(f); return 0; });
  const r = await g.attemptAsync(() => performDeviceLogin());
  g.ensure("fails before any token is asked for", !r.ok && p.asked.length === 0 && disk.text(FILE) === undefined);
});
contract("the provider's addresses are asked for once", {}, async (g) => {
  env(g); const t = g.opt("token", () => g.string("t")), d = g.opt("device", () => g.string("d")), status = g.int("status", 200, 599), config: any = {}; if (t !== undefined) config.token_endpoint = t; if (d !== undefined) config.device_authorization_endpoint = d; g.assume(![204, 205, 304].includes(status));
  const p = provider(g, { config, configStatus: status });
  const a = await g.attemptAsync(() => getTokenEndpoint()), b = await g.attemptAsync(() => getDeviceAuthorizationEndpoint());
  const known = status < 300 && t !== undefined && t !== "";
  g.ensure("the token endpoint", a.ok === known && (!known || a.value === t));
  g.ensure("the device endpoint", b.ok === (known && d !== undefined && d !== "") && (!b.ok || b.value === d));
  g.ensure("once when known", p.known.length === (known ? 1 : 2));
});
contract("the challenge is the verifier's digest", {}, (g) => {
  const v = g.string("verifier");
  g.ensure("S256", generateCodeChallenge(v) === createHash("sha256").update(v).digest("base64url"));
  g.ensure("43 characters or more", generateCodeVerifier().length >= 43);
});
contract("the web app belongs to the configured API", {}, (g) => {
  const port = g.choose("port", [1, 3000, 8080, 65534]), url = g.choose("url", ["none", "local", "slash", "bare", "other"]);
  env(g, url === "none" ? {} : { METICULOUS_API_URL: url === "other" ? "https://eu.meticulous.ai/api" : "http://localhost:" + port + (url === "local" ? "/api" : url === "slash" ? "/api/" : "") });
  g.ensure("next to a local one, else the public one", getWebappBaseUrl() === (url === "none" || url === "other" ? "https://app.meticulous.ai" : "http://localhost:" + (port + 1)));
});
