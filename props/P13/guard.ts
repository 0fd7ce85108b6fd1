import { contract } from "vf";
import { parseReplaySidecarUrl, isLocalHostname, isPrivateIpv4 } from "repo:backend-recorder-workerd/src/replay-sidecar-url";

const quiet = (g) => g.setGlobal("console", { warn: () => {}, log: () => {}, error: () => {} });
const EG = ["http://localhost:1234", "http://127.0.0.1/", "https://localhost", "http://evil.com", "http://169.254.169.254", "http://10.0.0.1:8080", "http://172.20.1.1", "http://172.32.1.1", "http://192.168.0.9", "http://[::1]:9", "http://u:p@localhost", "http://localhost/x", "http://localhost?x", "http://0177.0.0.1/", "http://127.0.0.1.evil.com", "http://10.0.0.256", "http://localhost.", "HTTP://LOCALHOST:80/", "http://host.docker.internal:4000/", "http://8.8.8.8", "ftp://localhost", "http://localhost#x", "http://host.containers.internal"];
contract("an address is accepted exactly when it is a plain http origin on a local host", {}, (g) => {
  quiet(g);
  const raw = g.string("raw", EG);
  const local = (h) => (g.isSymbolic() ? g.uf("local", "bool", h) : isLocalHostname(h));
  const out = g.replace(isLocalHostname, local, () => parseReplaySidecarUrl(raw));
  const u = g.attempt(() => new URL(raw));
  if (raw === "" || raw.length > 2048 || !u.ok) { g.ensure("refused", out === undefined); return; }
  const plain = u.value.protocol === "http:" && u.value.username === "" && u.value.password === "" && (u.value.pathname === "/" || u.value.pathname === "") && u.value.search === "" && u.value.hash === "";
  if (plain && local(u.value.hostname)) g.ensure("the parsed origin", out === u.value.origin);
  else g.ensure("refused", out === undefined);
});
contract("no address", {}, (g) => { g.ensure("none", parseReplaySidecarUrl(undefined) === undefined && parseReplaySidecarUrl(null) === undefined && parseReplaySidecarUrl("") === undefined); });
contract("local hosts are the named ones, ::1 and private IPv4 addresses", {}, (g) => {
  const host = g.string("host", ["localhost", "LocalHost", "host.docker.internal", "10.0.0.1", "169.254.169.254", "[::1]", "[::2]", "[fd00::1]", "::1", "[127.0.0.1]", "evil.com", "localhost.evil.com"]);
  const priv = (h) => (g.isSymbolic() ? g.uf("private", "bool", h) : isPrivateIpv4(h));
  const out = g.replace(isPrivateIpv4, priv, () => isLocalHostname(host));
  const h = host.toLowerCase();
  g.ensure("local", out === (h === "localhost" || h === "host.docker.internal" || h === "host.containers.internal" || h === "[::1]" || (!(h.startsWith("[") && h.endsWith("]")) && priv(h))));
});
contract("what is not four decimal numbers is no private IPv4 address", {}, (g) => {
  const n = g.choose("parts", [1, 2, 3, 4, 5]), parts = [];
  for (let i = 0; i < n; i++) { const p = g.string("part" + i, ["10", "010", "0x7f", "1e2", "", "127", " 10", "1000", "-1", "a", "\u0661"]); g.assume(!p.includes(".")); parts.push(p); }
  g.assume(n !== 4 || parts.some((p) => !/^[0-9]{1,3}$/.test(p)));
  g.ensure("refused", isPrivateIpv4(parts.join(".")) === false);
});
contract("every IPv4 address", {}, (g) => {
  const a = g.int("a", 0, 999), b = g.int("b", 0, 999), c = g.int("c", 0, 999), d = g.int("d", 0, 999);
  const valid = a <= 255 && b <= 255 && c <= 255 && d <= 255;
  g.ensure("private or loopback", isPrivateIpv4(a + "." + b + "." + c + "." + d) === (valid && (a === 127 || a === 10 || (a === 172 && b >= 16 && b <= 31) || (a === 192 && b === 168))));
});
