import { contract } from "vf";
import { signRequest } from "repo:backend-recorder-sidecar-worker/src/index";

// SHA-256 and HMAC are the platform's: what is hashed and signed is captured, in order
const cryptography = (g) => {
  const hashed = [], signed = [], text = (d) => (d.text !== undefined ? d.text : d.hash !== undefined ? d : new TextDecoder().decode(d)); let n = 0;
  const out = () => { n++; return new Uint8Array([n, 255 - n]).buffer; };
  g.setGlobal("crypto", { subtle: {
    digest: async (_a, d) => { hashed.push(text(d)); return out(); },
    importKey: async (_f, key) => ({ key }),
    sign: async (_a, k, d) => { signed.push([k.key, text(d)]); return out(); },
  } });
  return { hashed, signed, hex: (i) => (i < 16 ? "0" : "") + i.toString(16) + (255 - i).toString(16) };
};
const encode = (g, t) => new TextEncoder().encode(t);
contract("a request is signed as AWS Signature Version 4 says", {}, async (g) => {
  const c = cryptography(g), now = Date.UTC(2026, 0, g.choose("day", [1, 28]), 3, 4, 5, g.choose("ms", [0, 678]));
  const path = g.choose("path", [["/b/k", "/b/k"], ["/a%20b/(x)*", "/a%20b/%28x%29%2A"], ["/", "/"]]), query = g.choose("query", [["", ""], ["?b=2&a=1", "a=1&b=2"], ["?a=2&a=1", "a=1&a=2"], ["?k=a+b%2F'", "k=a%20b%2F%27"], ["?b=1&a=2&c=0&a=1&a=1", "a=1&a=1&a=2&b=1&c=0"]]);
  const token = g.string("token", ["tok"]), key = g.string("key id", ["AKIA"]), secret = g.string("secret", ["s"]), method = g.choose("method", ["PUT", "GET"]);
  g.assume(token.trim() === token);
  const r = await signRequest({ method, url: "https://h.example:8443" + path[0] + query[0], region: "us-west-2", service: "s3", body: encode(g, "{}"), credentials: { accessKeyId: key, secretAccessKey: secret, sessionToken: token, expiresAtMs: 0 }, nowMs: now, headers: { "X-Extra": "e", "Content-Type": " application/json ", Accept: "a" } });
  const iso = new Date(now).toISOString(), stamp = iso.slice(0, 4) + iso.slice(5, 7) + iso.slice(8, 10), date = stamp + "T" + iso.slice(11, 13) + iso.slice(14, 16) + iso.slice(17, 19) + "Z", names = "accept;content-type;host;x-amz-content-sha256;x-amz-date;x-amz-security-token;x-extra", scope = stamp + "/us-west-2/s3/aws4_request";
  g.ensure("the body and the request are hashed", c.hashed.length === 2 && c.hashed[0] === "{}");
  g.eq("the canonical request", c.hashed[1], [method, path[1], query[1], "accept:a\ncontent-type:application/json\nhost:h.example:8443\nx-amz-content-sha256:" + c.hex(1) + "\nx-amz-date:" + date + "\nx-amz-security-token:" + token + "\nx-extra:e\n", names, c.hex(1)].join("\n"));
  g.ensure("the key is derived from the secret, the date, the region and the service", c.signed.length === 5 && c.signed[0][1] === stamp && c.signed[1][1] === "us-west-2" && c.signed[2][1] === "s3" && c.signed[3][1] === "aws4_request");
  g.ensure("the secret", (g.isSymbolic() ? c.signed[0][0].text : new TextDecoder().decode(c.signed[0][0])) === "AWS4" + secret);
  g.ensure("the string to sign", c.signed[4][1] === ["AWS4-HMAC-SHA256", date, scope, c.hex(2)].join("\n"));
  g.ensure("the authorization", r.headers["authorization"] === "AWS4-HMAC-SHA256 Credential=" + key + "/" + scope + ", SignedHeaders=" + names + ", Signature=" + c.hex(7));
  g.ensure("the signed headers are sent", r.headers["host"] === "h.example:8443" && r.headers["x-amz-date"] === date && r.headers["x-amz-content-sha256"] === c.hex(1) && r.headers["x-amz-security-token"] === token);
  g.ensure("the request", r.method === method && r.url === "https://h.example:8443" + path[0] + query[0]);
});
