import { contract } from "vf";
import { wires } from "net";
import { openSocket } from "repo:tunnel-client/src/utils/open-socket";
import { quiet, settle } from "./lib";

const open = (g, o, proxy) => {
  g.setGlobal("process", { env: proxy === undefined ? {} : { HTTPS_PROXY: proxy }, versions: { node: "22" } });
  const r = { done: false, errors: [], closes: 0 };
  openSocket({ useTls: false, remoteHost: "tunnels.test", multiplexingRemotePort: 9000, tunnelPassphrase: "pp", sendAuthOkAck: true, logger: quiet, onError: (e) => { r.errors.push(e); }, onClose: () => { r.closes++; }, ...o }).then((s) => { r.done = true; r.ok = true; r.socket = s; }, (e) => { r.done = true; r.ok = false; r.error = e; });
  return r;
};
const secure = (x) => x.tls && x.to.rejectUnauthorized !== false && JSON.stringify(x.to.ALPNProtocols) === '["meticulous-tunnel"]';
contract("a connection is open once the tunnel let it in", { unroll: 100 }, async (g) => {
  const tls = g.bool("tls"), ack = g.bool("ack"), pass = g.string("passphrase", ["pp", "é"]), r = open(g, { useTls: tls, tunnelPassphrase: pass, sendAuthOkAck: ack }); await settle();
  const x = wires.list[0];
  g.ensure("there, as safe as asked for", wires.list.length === 1 && x.to.host === "tunnels.test" && x.to.port === 9000 && x.tls === tls && (!tls || secure(x)) && x.noDelay);
  g.ensure("nothing is said too early", x.sent.length === 0 && !r.done);
  if (tls) { x.emit("connect"); await settle(); g.ensure("nor in the clear", x.sent.length === 0); x.emit("secureConnect"); } else x.emit("connect"); await settle();
  g.ensure("then the passphrase, once", x.sent.length === 1 && x.sent[0] === "AUTH " + pass && !r.done);
  x.says("AUTH OK"); await settle();
  g.ensure("and it is open", r.done && r.ok && r.socket === x && x.ended === 0 && r.errors.length === 0);
  g.ensure("acknowledged if asked for", x.sent.slice(1).join() === (ack ? "AUTH OK ACK" : ""));
  g.ensure("what comes next waits for its reader", x.paused);
  x.emit("close"); g.ensure("its end is told", r.closes === 1);
});
contract("a connection the tunnel does not let in is an error", {}, async (g) => {
  const tls = g.bool("tls"), says = g.string("says", ["AUTH OK ", "AUTH", "", "NO", "auth ok", "xAUTH OK"]), r = open(g, { useTls: tls }); g.assume(says !== "AUTH OK"); await settle(); const x = wires.list[0]; x.emit(tls ? "secureConnect" : "connect"); await settle(); x.says(says); await settle();
  g.ensure("told and passed on", r.done && !r.ok && r.errors.length === 1 && r.errors[0] instanceof Error && r.error === r.errors[0]);
  g.ensure("closed, without a further word", x.ended >= 1 && x.sent.length === 1);
});
contract("a connection that fails is an error", { unroll: 100 }, async (g) => {
  const tls = g.bool("tls"), when = g.choose("when", ["first", "connected", "open"]), code = g.choose("code", ["ECONNREFUSED", "ECONNRESET", "CERT_HAS_EXPIRED"]), why = Object.assign(new Error("no"), { code }), r = open(g, { useTls: tls }); await settle(); const x = wires.list[0];
  if (when !== "first") { x.emit(tls ? "secureConnect" : "connect"); await settle(); } if (when === "open") { x.says("AUTH OK"); await settle(); }
  x.emit("error", why); await settle();
  g.ensure("passed on until it is open", when === "open" ? r.ok : r.done && !r.ok && r.error === why);
  g.ensure("told if the tunnel cannot be reached", r.errors.length === (code === "ECONNREFUSED" ? 1 : 0));
  g.ensure("and closed", x.ended >= 1);
});
const answers = ["HTTP/1.1 200 Connection established\r\n\r\n", "HTTP/1.0 200 OK\r\nVia: x\r\n\r\n", "HTTP/1.1 204 No\r\n\r\n", "HTTP/1.1 403 Forbidden\r\n\r\n", "HTTP/1.1 407 Proxy Authentication Required\r\nX: 200\r\n\r\n", "HTTP/1.1 502 Bad\r\n\r\n", "SSH-2.0\r\n\r\n"];
contract("through a proxy, once it connected", { unroll: 100 }, async (g) => {
  const tls = g.bool("tls"), at = g.choose("proxy", [["http://proxy.test:3128", "proxy.test", 3128], ["http://proxy.test", "proxy.test", 80], ["http://u:p@proxy.test:8080/", "proxy.test", 8080]]), answer = g.choose("answer", answers), cut = g.choose("cut", [0, 3, 12, 20, 38]), r = open(g, { useTls: tls }, at[0]); g.assume(cut < answer.length); await settle(); const p = wires.list[0];
  g.ensure("the proxy is connected to first", wires.list.length === 1 && !p.tls && p.to.host === at[1] && p.to.port === at[2] && p.sent.length === 0);
  p.emit("connect"); await settle(); const lines = p.sent[0].split("\r\n");
  g.ensure("and asked for the tunnel", p.sent.length === 1 && lines[0] === "CONNECT tunnels.test:9000 HTTP/1.1" && lines.includes("Host: tunnels.test:9000") && p.sent[0].endsWith("\r\n\r\n"));
  if (cut > 0) { p.says(answer.slice(0, cut)); await settle(); g.ensure("its whole answer is awaited", !r.done && wires.list.length === 1 && p.sent.length === 1); } p.says(answer.slice(cut)); await settle();
  if (/^HTTP.1.[01] 2/.test(answer)) {
    const x = tls ? wires.list[1] : p; g.ensure("safe if asked for", wires.list.length === (tls ? 2 : 1) && (!tls || (secure(x) && x.to.socket === p && x.to.servername === "tunnels.test")));
    if (tls) { g.ensure("nothing in the clear", p.sent.length === 1 && x.sent.length === 0); x.emit("secureConnect"); await settle(); }
    g.ensure("then the passphrase", x.sent[x.sent.length - 1] === "AUTH pp" && x.sent.length === (tls ? 1 : 2) && !r.done); x.says("AUTH OK"); await settle();
    g.ensure("and it is open", r.ok && r.socket === x && x.sent[x.sent.length - 1] === "AUTH OK ACK" && r.errors.length === 0);
  } else g.ensure("a refusal is an error, and the passphrase stays here", r.done && !r.ok && r.error instanceof Error && r.error.message.includes(answer.split("\r\n")[0]) && p.sent.length === 1 && wires.list.length === 1);
});
contract("a proxy that fails is an error", {}, async (g) => {
  const tls = g.bool("tls"), what = g.choose("what", ["https", "error", "late error", "closes", "closes early"]), why = new Error("no"), r = open(g, { useTls: tls }, what === "https" ? "https://proxy.test" : "http://proxy.test:3128"); await settle(); const p = wires.list[0];
  if (what !== "https") { if (what !== "error" && what !== "closes early") { p.emit("connect"); await settle(); } if (what === "closes" || what === "closes early") p.emit("close"); else p.emit("error", why); await settle(); }
  g.ensure("passed on", r.done && !r.ok && r.error instanceof Error && (what === "error" || what === "late error" ? r.error === why : true));
  g.ensure("and the passphrase stays here", wires.list.length === (what === "https" ? 0 : 1) && (what === "https" || p.sent.length <= 1));
});
