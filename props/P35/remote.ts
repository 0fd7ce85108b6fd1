import { contract } from "vf";
import { crew } from "cluster";
import { disk } from "fs";
import { executeRemoteTestRun } from "repo:remote-replay-launcher/src/execute-remote-test-run";
import { getPort } from "repo:remote-replay-launcher/src/url.utils";
import { world } from "./lib";

const RUNNING = ["PreProcessing", "Scheduled", "Running", "PostProcessing"], RUN = "test-runs/trigger-secure-tunnel-test-run-v2", LOCK = "deployment-locks/is-locked", HOST = "tunnels.meticulous.ai";
const opened = { data: { id: "x1", multiplexing_port: 9000, url: "https://x1.tunnels.meticulous.ai", max_conn_count: 10, tunnel_passphrase: "pp", basic_auth_user: "u", basic_auth_password: "s3cret" } };
const created = { data: { testRun: { id: "t1", status: "Scheduled", project: { id: "p1" } }, deploymentId: "d1" } };
const start = (w, o) => { const r = { settled: false }; r.promise = executeRemoteTestRun({ apiToken: "tok", appUrl: "http://localhost:3000", commitSha: "c1", environment: "ci", isLockable: true, ...o }).then((v) => { r.settled = true; r.ok = true; r.value = v; r.at = w.now; }, (e) => { r.settled = true; r.ok = false; r.error = e; r.at = w.now; }); return r; };
const up = () => crew.list.length > 0 && crew.list.every((x) => x.killed === 0), down = () => crew.list.every((x) => x.killed === 1);
contract("a remote test run is followed to its end", { bounded: "up to 3 answers, and a lock of up to 2 checks" }, async (g) => {
  const a = [g.choose("first", [...RUNNING, "ExecutionError"]), g.choose("second", ["Running", "ExecutionError"]), g.choose("third", ["Success", "Failure", "Aborted", "Skipped", "Partial"])], from = g.choose("from", [0, 1, 2]), locked = g.choose("locked", [0, 1, 2]), keep = g.bool("keep open"), seen = []; let still = 0, release; g.assume((from === 0 || a[0] === "Running") && (from < 2 || a[1] === "Running"));
  const w = world(g, (p, _e, k) => (p === HOST ? opened : p === RUN ? created : p === "test-runs/t1" ? { data: { id: "t1", status: a[Math.min(from + k, 2)], k } } : p === LOCK ? { text: k < locked ? "true" : "false" } : {}));
  const r = start(w, { onProgressUpdate: (t) => { seen.push(t.k); }, onTunnelStillLocked: () => { still++; }, ...(keep ? { keepTunnelOpenPromise: new Promise((ok) => { release = ok; }) } : {}) });
  const polls = 3 - from; let early = false, n = 0;
  await w.tick(0); early = early || !up();
  while (n < polls + locked + 2 && !r.settled && w.live() > 0) { n++; await w.tick(5000); early = early || (!r.settled && !up()); }
  if (keep) { early = early || r.settled || !up(); release(); for (let i = 0; i < 20; i++) await undefined; }
  g.ensure("the first status that is final is the result", r.settled && r.ok && r.value.testRun.status === a[2] && w.asked("test-runs/t1").length === polls);
  g.ensure("each answer is told", JSON.stringify(seen) === JSON.stringify([0, 1, 2].slice(0, polls)));
  g.ensure("until nothing uses the tunnel", w.asked(LOCK).length === locked + 1 && still === locked && w.asked(LOCK).every((e) => e.query.deploymentId === "d1") && w.log.findIndex((e) => e.path === LOCK) > w.log.map((e) => e.path).lastIndexOf("test-runs/t1"));
  g.ensure("the tunnel is open all that time, and then closed", !early && down());
  g.ensure("nothing goes on", w.live() === 0);
});
contract("an execution error is final when no retry came in five minutes", { bounded: "the listed times" }, async (g) => {
  const every = g.choose("every", [5000, 60000, 100000]), back = g.choose("retried after", [0, 2]), w = world(g, (p, _e, k) => (p === HOST ? opened : p === RUN ? created : p === "test-runs/t1" ? { data: { id: "t1", status: back > 0 && k === back ? "Running" : "ExecutionError" } } : { text: "false" })), r = start(w, {}); await w.tick(0);
  let n = 0; while (n < 80 && !r.settled) { n++; await w.tick(every); }
  const since = every * (back > 0 ? back + 2 : 1);
  g.ensure("then it is the result", r.settled && r.ok && r.value.testRun.status === "ExecutionError");
  g.ensure("five minutes after it was seen", r.at - 1700000000000 - since >= 300000 && r.at - 1700000000000 - since < 300000 + every + 1);
  g.ensure("closed, nothing goes on", down() && w.live() === 0);
});
contract("a failure ends it all", { bounded: "the listed failures" }, async (g) => {
  const what = g.choose("what", ["run", "no run", "no password", "poll", "second poll", "lock", "second lock", "progress", "told of run", "kept"]), why = new Error("no");
  const w = world(g, (p, _e, k) => (p === HOST ? (what === "no password" ? { data: { ...opened.data, basic_auth_password: "" } } : opened) : p === RUN ? (what === "run" ? { status: 400, data: { message: "no" } } : what === "no run" ? { data: { message: "no such commit" } } : created) : p === "test-runs/t1" ? (what === "poll" || (what === "second poll" && k > 0) ? { status: 404, data: {} } : { data: { id: "t1", status: k > 0 ? "Success" : "Running" } }) : p === LOCK ? (what === "lock" || (what === "second lock" && k > 0) ? { status: 404, data: {} } : { text: what === "second lock" ? "true" : "false" }) : {}));
  const r = start(w, { ...(what === "progress" ? { onProgressUpdate: () => { throw why; } } : {}), ...(what === "told of run" ? { onTestRunCreated: () => { throw why; } } : {}), ...(what === "kept" ? { keepTunnelOpenPromise: (async () => { for (let i = 0; i < 300; i++) await undefined; throw why; })() } : {}) });
  await w.tick(0); let n = 0; while (n < 8 && !r.settled) { n++; await w.tick(5000); }
  g.ensure("is passed on", r.settled && !r.ok && (what === "progress" || what === "told of run" || what === "kept" ? r.error === why : what === "no run" ? r.error.message === "no such commit" : r.error instanceof Error));
  g.ensure("the tunnel is closed", crew.list.length > 0 && down());
  g.ensure("nothing goes on", w.live() === 0);
  const asked = w.log.length; await w.tick(5000); g.ensure("nor is anything asked", w.log.length === asked);
});
contract("the tunnel leads to the app, the run to the tunnel", { unroll: 100 }, async (g) => {
  const app = g.choose("app", [["http://localhost:3000", "localhost", 3000, false], ["https://app.test", "app.test", 443, true], ["http://app.test/x?y", "app.test", 80, false], ["https://app.test:8443/", "app.test", 8443, true]]), host = g.choose("host", [undefined, "https://tunnels.eu.test"]), cert = g.bool("invalid cert"), all = g.bool("all urls"), post = g.bool("comment"), pr = g.choose("pr", [undefined, "17"]), http2 = g.choose("connections", [undefined, 3]), tunnels = [];
  const w = world(g, (p) => (p === HOST || p === "tunnels.eu.test" ? opened : p === RUN ? created : p === "test-runs/t1" ? { data: { id: "t1", status: "Success" } } : { text: "false" })), runs = [];
  const r = start(w, { appUrl: app[0], allowInvalidCert: cert, proxyAllUrls: all, postComment: post, ...(host === undefined ? {} : { secureTunnelHost: host }), ...(pr === undefined ? {} : { pullRequestHostingProviderId: pr }), ...(http2 === undefined ? {} : { http2Connections: http2 }), onTunnelCreated: (t) => tunnels.push(t), onTestRunCreated: (t) => runs.push(t.id) });
  await w.tick(0); await w.tick(5000); const b = w.asked(RUN)[0].body, at = crew.list.map((x) => x.sent[0].options);
  g.ensure("every worker is told where the app is", r.ok && at.length > 0 && at.every((o) => o.localHost === app[1] && o.localPort === app[2] && o.localHttps === app[3] && o.allowInvalidCert === cert && o.proxyAllUrls === all && o.tunnelPassphrase === "pp" && o.remoteHost === "tunnels.meticulous.ai" && o.multiplexingRemotePort === 9000 && o.useTls === true));
  g.ensure("as many as asked for", http2 === undefined || at.length === http2);
  g.ensure("opened once, there, with the token", w.asked(host === undefined ? HOST : "tunnels.eu.test").length === 1 && w.log[0].path === (host === undefined ? HOST : "tunnels.eu.test") && w.log[0].token === "tok");
  g.ensure("one run is made, through it", w.asked(RUN).length === 1 && b.headSha === "c1" && b.tunnelUrl === opened.data.url && b.basicAuthUser === "u" && b.basicAuthPassword === "s3cret" && b.environment === "ci" && b.isLockable === true && b.postComment === (post ? true : undefined) && b.pullRequestHostingProviderId === pr && b.companionAssetsInfo === undefined);
  g.ensure("both are told", JSON.stringify(tunnels) === JSON.stringify([{ url: opened.data.url, basicAuthUser: "u", basicAuthPassword: "s3cret" }]) && JSON.stringify(runs) === '["t1"]');
});
contract("an address that is none opens nothing", {}, async (g) => {
  const w = world(g, () => opened), r = await g.attemptAsync(() => executeRemoteTestRun({ apiToken: "tok", appUrl: g.choose("app", ["", "localhost", "app.test:3000", "about:blank"]), commitSha: "c1", environment: "ci", isLockable: false }));
  g.ensure("is an error", !r.ok && w.log.length === 0 && crew.list.length === 0);
});
contract("a port is the one given, or the protocol's", {}, (g) => {
  const proto = g.choose("protocol", ["http", "https", "ws", "wss", "ftp", "gopher"]), given = g.choose("port", ["", "1", "80", "443", "65535"]), n = getPort(new URL(proto + "://a.test" + (given === "" ? "" : ":" + given)));
  g.ensure("as a number", n === (given !== "" ? Number(given) : { http: 80, https: 443, ws: 80, wss: 443, ftp: 21, gopher: -1 }[proto]));
});
contract("a tunnel that is refused is an error", { bounded: "up to 3 answers" }, async (g) => {
  const how = g.choose("how", ["401 text", "403 html", "401 json", "500 json", "no port"]), before = g.choose("offline", [0, 2]), w = world(g, (p, _e, k) => (p !== HOST ? created : k < before ? new Error("connect ECONNREFUSED") : how === "401 text" ? { status: 401, text: "Unauthorized" } : how === "403 html" ? { status: 403, text: "<html>" } : how === "401 json" ? { status: 401, data: {} } : how === "500 json" ? { status: 500, data: { error: "too many tunnels" } } : { data: { ...opened.data, multiplexing_port: 0 } }));
  const r = start(w, {}); await w.tick(0); await w.tick(0);
  g.ensure("it, after it was reached", r.settled && !r.ok && w.log.length === before + 1 && (how !== "500 json" || r.error.message === "too many tunnels") && (how[0] !== "4" || r.error.message.includes("Authentication")));
  g.ensure("no rejection is left", (await g.turn()) === 0 && w.live() === 0);
});
