import { contract } from "vf";
import { S3StorageBackend, signRequest } from "repo:backend-recorder-sidecar-worker/src/index";
import { fetchCognitoCredentials } from "repo:backend-recorder-sidecar-worker/src/s3/cognito-credentials";
import { quiet } from "../P14/lib";

// the AWS services: each call is recorded and answered; expiries are in seconds
const aws = (g, o = {}) => {
  const puts = [], ids = [], creds = []; let n = 0;
  g.setGlobal("fetch", async (url, init) => {
    const h = new Headers(init.headers), t = h.get("x-amz-target");
    if (t === "AWSCognitoIdentityService.GetId") { ids.push({ url: String(url), method: init.method, type: h.get("content-type"), body: JSON.parse(init.body) }); if (o.idFails) throw new Error("refused"); return new Response(JSON.stringify(o.id ?? { IdentityId: "me" }), { status: o.idStatus ?? 200 }); }
    if (t === "AWSCognitoIdentityService.GetCredentialsForIdentity") { n++; creds.push({ url: String(url), method: init.method, type: h.get("content-type"), body: JSON.parse(init.body) }); return new Response(JSON.stringify(o.creds ?? { Credentials: { AccessKeyId: "key" + n, SecretKey: "secret", SessionToken: "session" + n, Expiration: o.expiry } }), { status: o.credsStatus ?? 200 }); }
    puts.push({ url: String(url), method: init.method, token: h.get("x-amz-security-token"), type: h.get("content-type"), auth: h.get("authorization"), body: g.isSymbolic() ? init.body.text : new TextDecoder().decode(init.body) });
    return new Response("detail", { status: typeof o.put === "function" ? o.put(puts.length) : o.put ?? 200 });
  });
  return { puts, ids, creds };
};
const clock = (g, first) => { let t = first; g.setGlobal("Date", class extends Date { static now() { return t; } }); return (v) => { t = v; }; };
// signing (its cryptography) is used through its contract; encoding keeps the text
const run = (g, th) => {
  quiet(g);
  if (g.isSymbolic()) g.setGlobal("TextEncoder", class { encode(t) { return { text: t }; } });
  return g.replace(signRequest, async (o) => ({ url: o.url, method: o.method, headers: { ...o.headers, "x-amz-security-token": o.credentials.sessionToken, authorization: `AWS4-HMAC-SHA256 Credential=${o.credentials.accessKeyId}/${new Date(o.nowMs).toISOString().slice(0, 10).replaceAll("-", "")}/${o.region}/${o.service}/aws4_request, ` }, body: o.body }), th);
};
const NOW = 1767225600000;

contract("an object is put once, under its key, into its bucket", {}, (g) => run(g, async () => {
  const t = aws(g, { expiry: NOW / 1000 + 3600 }), key = g.choose("key", ["tok/BE_1/1", "a/metadata.json"]), region = g.choose("region", [undefined, "eu-west-1"]), bucket = g.choose("bucket", [undefined, "b"]), end = g.choose("endpoint", [undefined, "http://localhost:4566", "http://localhost:4566///"]), pool = g.choose("pool", [undefined, "pool"]);
  clock(g, NOW);
  const v = g.string("value", ["x", "\u00e9"]), s = new S3StorageBackend({ ...(region === undefined ? {} : { region }), ...(bucket === undefined ? {} : { bucket }), ...(end === undefined ? {} : { endpointUrl: end }), ...(pool === undefined ? {} : { identityPoolId: pool }) });
  await s.write(key, { v });
  const b = bucket ?? "user-events-v3", r = region ?? "us-west-2";
  g.ensure("one put", t.puts.length === 1 && t.puts[0].method === "PUT" && t.puts[0].type === "application/json");
  g.ensure("its address", t.puts[0].url === (end === undefined ? `https://${b}.s3.${r}.amazonaws.com/${key}` : `http://localhost:4566/${b}/${key}`));
  g.ensure("its content", t.puts[0].body === JSON.stringify({ v }));
  g.ensure("signed with them for the storage service of the region", t.puts[0].auth.startsWith(`AWS4-HMAC-SHA256 Credential=key1/20260101/${r}/s3/aws4_request, `));
  g.ensure("as the identity service expects", [...t.ids, ...t.creds].every((c) => c.method === "POST" && c.type === "application/x-amz-json-1.1"));
  g.ensure("the credentials of the pool", t.ids.length === 1 && t.ids[0].url === `https://cognito-identity.${r}.amazonaws.com/` && t.ids[0].body.IdentityPoolId === (pool ?? "us-west-2:6a0e6f85-53d0-41d7-b268-dede2251cc9d") && t.creds.length === 1 && t.creds[0].body.IdentityId === "me" && t.puts[0].token === "session1");
}));
contract("credentials are reused until five minutes before they expire", {}, (g) => run(g, async () => {
  const expiry = g.int("expiry", 1767225600, 1767312000), later = g.int("later", 0, 86400000), t = aws(g, { expiry }), set = clock(g, NOW), s = new S3StorageBackend();
  await s.write("a", 1);
  set(NOW + later);
  await s.write("b", 2);
  const fresh = expiry * 1000 - 300000 > NOW + later;
  g.ensure("fetched again exactly when old", t.creds.length === (fresh ? 1 : 2));
  g.ensure("used", t.puts.length === 2 && t.puts[1].token === (fresh ? "session1" : "session2"));
}));
contract("a failed put fails, and refused credentials are not used again", {}, (g) => run(g, async () => {
  const status = g.int("status", 200, 599), t = aws(g, { expiry: NOW / 1000 + 3600, put: (n) => (n === 1 ? status : 200) }); clock(g, NOW);
  g.assume(status !== 204 && status !== 205 && status !== 304);
  const s = new S3StorageBackend(), r = await g.attemptAsync(() => s.write("a", 1)), r2 = await g.attemptAsync(() => s.write("b", 1));
  g.ensure("succeeds exactly on 2xx", r.ok === (status >= 200 && status < 300) && r2.ok);
  g.ensure("one put each", t.puts.length === 2);
  g.ensure("new credentials after a refusal", t.creds.length === (status === 403 ? 2 : 1));
}));
contract("two writes at once share one fetch of credentials", {}, (g) => run(g, async () => {
  const t = aws(g, { expiry: NOW / 1000 + 3600 }); clock(g, NOW);
  const s = new S3StorageBackend(), rs = await Promise.all([s.write("a", 1), s.write("b", 2)]);
  g.ensure("one fetch", t.ids.length === 1 && t.creds.length === 1 && t.puts.length === 2 && rs.length === 2);
}));
contract("without credentials nothing is put, and the next write tries again", {}, (g) => run(g, async () => {
  const why = g.choose("why", ["refused", "id status", "no id", "credentials status", "no credentials", "incomplete"]), status = g.int("status", 400, 599);
  const bad = { refused: { idFails: true }, "id status": { idStatus: status }, "no id": { id: g.choose("id", [{}, { IdentityId: 1 }]) }, "credentials status": { credsStatus: status }, "no credentials": { creds: {} }, incomplete: { creds: { Credentials: { AccessKeyId: "a", SecretKey: "s", SessionToken: "t", [g.choose("which", ["AccessKeyId", "SecretKey", "SessionToken"])]: g.choose("value", [undefined, 1, null]) } } } }[why];
  const t = aws(g, bad); clock(g, NOW);
  const s = new S3StorageBackend(), r = await g.attemptAsync(() => s.write("a", 1)), r2 = await g.attemptAsync(() => s.write("a", 1));
  g.ensure("both fail", !r.ok && !r2.ok);
  g.ensure("nothing is put", t.puts.length === 0);
  g.ensure("tried again", t.ids.length === 2);
}));
contract("credentials without an expiry last half an hour", {}, (g) => run(g, async () => {
  const expiry = g.choose("expiry", [undefined, "soon", null]); aws(g, { expiry }); clock(g, NOW);
  const c = await fetchCognitoCredentials({ region: "r", identityPoolId: "p" });
  g.ensure("half an hour", c.expiresAtMs === NOW + 1800000 && c.accessKeyId === "key1" && c.secretAccessKey === "secret" && c.sessionToken === "session1");
}));
