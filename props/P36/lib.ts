import { servers } from "http2";
import { web } from "http";
import { TunnelHTTP2Cluster } from "repo:tunnel-client/src/lib/tunnel-http2-cluster";
export const quiet = { warn() {}, info() {}, debug() {}, error() {}, trace() {} };
export const settle = async () => { for (let i = 0; i < 60; i++) await undefined; };
// The tunnel's end at the app's side, with its connection; what the app is asked is in web.calls
export const tunnel = (g, o, env) => {
  g.setGlobal("process", { env: env ?? {}, versions: { node: "22" } });
  const socket = { resumed: 0, resume() { socket.resumed++; return socket; }, on() { return socket; } };
  const c = new TunnelHTTP2Cluster({ logger: quiet, localHost: "localhost", localPort: 3000, localHttps: false, allowInvalidCert: false, proxyAllUrls: false, rewriteHostnameToAppUrl: false, enableDnsCache: false, getHost: () => "tunnels.test", sockets: [socket], ...o });
  c.startListening();
  return { c, socket, server: servers.list[servers.list.length - 1], ask: (headers, pieces, end) => servers.list[servers.list.length - 1].visit({ ":method": "GET", ":path": "/", ":scheme": "http", ":authority": "x1.tunnels.test", ...headers }, pieces, end) };
};
export { web };
