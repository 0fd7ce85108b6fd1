from plant import plant as plant0
import glob,shutil,os
def plant(id,*a):
    plant0(id,*a)
    d=f"/verif/seeded/{id}/"
    if os.path.isdir(d):
        for f in glob.glob("/verif/notes/stubs/*"): shutil.copy(f,d)
        open(d+"own.txt","w").write("the repository's own packages are bundled from their source\n")
D="downloading-helpers/src/"; F=D+"file-downloads/"
A='import assert from "assert";\nimport fs from "fs";\nimport path from "path";\nimport os from "os";\nimport http from "http";\n'
L="remote-replay-launcher/src/"; C="client/src/"; T="tunnel-client/src/"; K="custom-checks/src/"
CLOCK='''const real = globalThis.setTimeout; let now = 1700000000000; Date.now = () => now; globalThis.setTimeout = ((f: any, ms: number, ...a: any[]) => (ms >= 60000 ? real(() => {}, 0) : (now += ms ?? 0, real(f, 0, ...a)))) as any;
'''
plant("s71-tenth-part","P33",[(L+"upload-utils/multipart-buffer-manager.ts","results.sort((a, b) => a.partNumber - b.partNumber);","results.sort((a, b) =>\n      String(a.partNumber).localeCompare(String(b.partNumber)),\n    );")],"an upload of ten parts or more","the parts' tags are listed out of order and the store puts together something else",A+'import { MultipartBufferManager } from "repo:'+L+'''upload-utils/multipart-buffer-manager";
export const done = (async () => { const m = new MultipartBufferManager({ uploadChunkSize: 2, maxConcurrentUploads: 4, uploadPart: async (b, n) => "t" + n });
for (let i = 0; i < 12; i++) { m.addChunk(Buffer.from("ab")); await m.flush(false); } m.addChunk(Buffer.from("c")); await m.flush(true); assert.equal((await m.finalize()).join(), Array.from({ length: 13 }, (_x, i) => "t" + (i + 1)).join()); })();''')
plant("s72-last-url","P33",[(L+"upload-utils/multipart-compressing-uploader.ts","""      isFullSizeChunk &&
      !isLastPart &&
""","""      (isFullSizeChunk || isLastPart) &&
""")],"a last part smaller than the others, while addresses signed for full parts are left","it is sent to an address signed for another size",A+'import { MultipartCompressingUploader } from "repo:'+L+'''upload-utils/multipart-compressing-uploader";
export const done = (async () => { (globalThis as any).fetch = async () => new Response(JSON.stringify({ uploadPartUrl: "own" }), { status: 200 });
const u: any = new MultipartCompressingUploader({ folderPath: "/", uploadPartUrls: ["full1", "full2"], uploadChunkSize: 4, awsUploadId: "a", uploadId: "u", client: { post: async () => ({ data: { uploadPartUrl: "own" } }) } as any, uploadBufferToSignedUrl: async (x: string) => x });
const urls = [await u.uploadPart(Buffer.alloc(4), 1, false), await u.uploadPart(Buffer.alloc(3), 2, true)]; assert.deepEqual(urls, ["full1", "own"]); })();''')
plant("s73-moved","P33",[(C+"utils/put-file-to-signed-url.ts","          if (response.statusCode === 200) {","          if ((response.statusCode ?? 500) < 400) {")],"a store that answers with a redirect","a file that was not stored counts as stored",A+'import { putFileToSignedUrl } from "repo:'+C+'''utils/put-file-to-signed-url";
export const done = (async () => { const box = fs.mkdtempSync(path.join(os.tmpdir(), "seed-")), f = path.join(box, "f"); fs.writeFileSync(f, "text"); let st = 200; const s = http.createServer((q, r) => { q.resume(); q.on("end", () => { r.writeHead(st, { location: "/x" }); r.end("moved"); }); }); await new Promise<void>((ok) => s.listen(0, "127.0.0.1", () => ok()));
const put = () => putFileToSignedUrl({ filePath: f, signedUrl: "http://127.0.0.1:" + (s.address() as any).port + "/f", size: 4, contentType: "text/plain" });
try { await put(); st = 307; await assert.rejects(put()); } finally { s.closeAllConnections(); s.close(); fs.rmSync(box, { recursive: true }); } })();''')
plant("s74-window","P34",[(L+"poll-for-base-test-run.ts","      extraBasePollTimeoutMs = retryResult.extraBasePollTimeoutMs;\n","")],"a service that grants more time only after the first answer","the wait for the base ends without the time that was granted",CLOCK+A+'import { pollWhileBaseNotFound } from "repo:'+L+'''poll-for-base-test-run";
export const done = (async () => { let n = 0, fell = 0; const no = { testRun: null, baseNotFound: true };
const r = await pollWhileBaseNotFound({ initialResult: no, retryFn: async () => { n += 1; return n > 40 ? { testRun: { id: "t" } as any, baseNotFound: false } : { ...no, extraBasePollTimeoutMs: 600000 }; }, fallbackFn: async () => { fell += 1; return { testRun: null }; } });
assert.equal(fell, 0); assert.equal(r.testRun?.id, "t"); })();''')
plant("s75-last-event","P34",[(L+"docker-utils.ts","  for (const event of output) {\n    const message","  for (const event of output.slice(-2)) {\n    const message")],"a push that fails for one layer, with more said afterwards","an image that is not all there counts as pushed",'''const docker: any = { getImage: () => ({ push: (_o: any, cb: any) => cb(null, {}) }), modem: { followProgress: (_s: any, end: any) => end(null, (globalThis as any).said) } };
'''+CLOCK+A+'import { pushImage } from "repo:'+L+'''docker-utils";
export const done = (async () => { const dig = { aux: { Digest: "sha256:" + "a".repeat(64) } };
(globalThis as any).said = [{ status: "x" }, dig]; await pushImage(docker, "r/x:1", {} as any);
(globalThis as any).said = [{ error: "blob upload unknown" }, { status: "layer" }, { status: "layer" }, dig]; await assert.rejects(pushImage(docker, "r/x:1", {} as any)); })();''')
RUN=A+'''let tick: any = [], now = 1700000000000; Date.now = () => now; globalThis.setInterval = ((f: any) => { const x = { f }; tick.push(x); return x; }) as any; globalThis.clearInterval = ((x: any) => { tick = tick.filter((y: any) => y !== x); }) as any;
const tunnel = { url: "https://x.t.test", basicAuthUser: "u", basicAuthPassword: "p", closed: 0, close() { this.closed += 1; } }; (globalThis as any).openTunnel = async () => tunnel;
let answer = (_p: string): any => ({}); (globalThis as any).fetch = async (u: any) => { const p = new URL(String(u)).pathname; const a = answer(p); return new Response(typeof a === "string" ? a : JSON.stringify(a), { status: 200, headers: { "content-type": "application/json" } }); };
const pass = async (ms: number) => { now += ms; for (const x of [...tick]) x.f(); await new Promise((ok) => setTimeout(ok, 5)); };
import { executeRemoteTestRun } from "repo:'''+L+'''execute-remote-test-run";
'''
plant("s76-second-error","P35",[(L+"execute-remote-test-run.ts","        startedWaitingForRetryAt = undefined;\n","        startedWaitingForRetryAt ??= Date.now();\n")],"a run that fails, is retried for more than five minutes, and fails again","the second failure is taken for the end although it is retried as well",RUN+'''export const done = (async () => { let status = "Running", over = false; answer = (p) => (p.includes("is-locked") ? "false" : p.includes("trigger") ? { testRun: { id: "t1", status: "Running", project: { id: "p" } }, deploymentId: "d" } : { id: "t1", status });
const r = executeRemoteTestRun({ apiToken: "tok", appUrl: "http://localhost:3000", commitSha: "c", environment: "ci", isLockable: true } as any).then((x) => { over = true; return x; }); await pass(0);
status = "ExecutionError"; await pass(5000); status = "Running"; await pass(200000); await pass(200000); status = "ExecutionError"; await pass(5000); assert.equal(over, false); status = "Running"; await pass(5000); status = "Success"; await pass(5000); assert.equal((await r).testRun.status, "Success"); assert.equal(tunnel.closed, 1); })();''')
NET='import http2 from "http2"; import net from "net";\n'
CLU=A+NET+'''import { TunnelHTTP2Cluster } from "repo:'''+T+'''lib/tunnel-http2-cluster";
const log: any = { error() {}, warn() {}, info() {}, debug() {} };
const listen = (s: any) => new Promise<number>((ok) => s.listen(0, "127.0.0.1", () => ok(s.address().port)));
const through = async (o: any, app: any, headers: any) => { const server = http.createServer(app), port = await listen(server), held: any[] = [];
  const front = net.createServer((s) => { held.push(s); s.pause(); new TunnelHTTP2Cluster({ logger: log, localHost: "127.0.0.1", localPort: port, localHttps: false, allowInvalidCert: false, proxyAllUrls: false, rewriteHostnameToAppUrl: false, enableDnsCache: false, sockets: [s], getHost: () => "tunnels.test", ...o(port) }).startListening(); });
  const c = http2.connect("http://127.0.0.1:" + (await listen(front))); try { return await new Promise<any>((ok, no) => { const r = c.request({ ":path": "/p", ...headers }); let body = "", h: any; r.on("response", (x) => { h = x; }); r.on("data", (d) => { body += d; }); r.on("end", () => ok({ h, body })); r.on("error", no); r.end(); setTimeout(() => no(new Error("no answer")), 5000); }); } finally { c.destroy(); held.forEach((s) => s.destroy()); front.close(); server.closeAllConnections(); server.close(); } };
'''
plant("s77-under","P36",[(T+"lib/tunnel-http2-cluster.ts","    return host === this.opts.getHost() || host === METICULOUS_SIMULATION_HOST;","    return (\n      host.endsWith(this.opts.getHost()) || host === METICULOUS_SIMULATION_HOST\n    );")],"a request for a host whose name ends like the tunnel's","it goes to the app instead of that host",CLU+'''export const done = (async () => { const elsewhere = http.createServer((_q, r) => r.end("elsewhere")), port = await listen(elsewhere);
try { const ask = (host: string) => through(() => ({ proxyAllUrls: true, getHost: () => host }), (_q: any, r: any) => r.end("app"), { "x-meticulous-original-url": "http://localhost:" + port + "/p" });
assert.equal((await ask("localhost")).body, "app"); assert.equal((await ask("host")).body, "elsewhere"); } finally { elsewhere.close(); } })();''')
plant("s78-not-ok","P36",[(T+"utils/open-socket.ts","        if (data.toString() != \"AUTH OK\") {","        if (!data.toString().endsWith(\"OK\")) {")],"a server that refuses with words that end alike","a connection the tunnel did not let in counts as open",A+NET+'''import { openSocket } from "repo:'''+T+'''utils/open-socket";
const log: any = { error() {}, warn() {}, info() {}, debug() {} };
export const done = (async () => { delete process.env.HTTPS_PROXY; let says = "AUTH OK"; const held: any[] = [], s = net.createServer((x) => { held.push(x); x.on("error", () => {}); x.once("data", () => x.write(says)); }); const port = await new Promise<number>((ok) => s.listen(0, "127.0.0.1", () => ok((s.address() as any).port)));
const open = () => openSocket({ useTls: false, remoteHost: "127.0.0.1", multiplexingRemotePort: port, tunnelPassphrase: "p", sendAuthOkAck: true, logger: log });
try { (await open()).destroy(); says = "AUTH NOT OK"; await assert.rejects(open()); } finally { held.forEach((x) => x.destroy()); s.close(); } })();''')
plant("s79-last-two","P36",[(T+"lib/tunnel.ts","    hostParts.shift();\n","    hostParts.splice(0, Math.max(hostParts.length - 3, 1));\n")],"a tunnel host with four labels or more","the workers connect to another host",A+'''import { Tunnel } from "repo:'''+T+'''lib/tunnel";
export const done = (async () => { const t: any = new Tunnel({ logger: {} } as any), host = (url: string) => t._getInfo({ id: "x", multiplexing_port: 1, url }).remoteHost;
assert.equal(host("https://x1.tunnels.meticulous.ai"), "tunnels.meticulous.ai"); assert.equal(host("https://x1.a.eu.tunnels.test"), "a.eu.tunnels.test"); })();''')
plant("s80-one-cookie","P36",[(T+"lib/tunnel-http2-cluster.ts","          res.writeHead(clientRes.statusCode as number, headersToForward);","""          res.writeHead(
            clientRes.statusCode as number,
            Object.fromEntries(
              Object.entries(headersToForward).map(([name, value]) => [
                name,
                Array.isArray(value) ? value.join("; ") : value,
              ]),
            ),
          );""")],"an answer that sets two cookies","the browser gets one cookie",CLU+'''export const done = (async () => { const one = await through(() => ({}), (_q: any, r: any) => { r.setHeader("x-a", "1"); r.end("ok"); }, {}); assert.equal(one.h["x-a"], "1");
const two = await through(() => ({}), (_q: any, r: any) => { r.setHeader("set-cookie", ["a=1", "b=2"]); r.end("ok"); }, {}); assert.deepEqual(two.h["set-cookie"], ["a=1", "b=2"]); })();''')
SN='const box = fs.mkdtempSync(path.join(os.tmpdir(), "seed-")); os.tmpdir = () => box; process.env.TMPDIR = box;\n'
plant("s81-what-there-is","P37",[(K+"download-snapshots.ts","""  const snapshotsPerFile = await Promise.all(
    files.map((file) => limit(() => downloadSnapshotFile(signedBaseUrl, file))),
  );
  return snapshotsPerFile.flat();""","""  const snapshots: Snapshot[] = [];
  await Promise.all(
    files.map((file) =>
      limit(async () => {
        snapshots.push(...(await downloadSnapshotFile(signedBaseUrl, file)));
      }),
    ),
  );
  return snapshots;""")],"a file that takes longer to download than one after it","the snapshots come in another order than the files",SN+A+'''import { downloadAndAssembleSnapshots } from "repo:'''+K+'''download-snapshots";
export const done = (async () => { const s = http.createServer((q, r) => setTimeout(() => r.end(JSON.stringify({ "x.json": JSON.stringify([{ stageDuringSession: q.url, data: 1 }]) })), q.url!.includes("slow") ? 300 : 0)); await new Promise<void>((ok) => s.listen(0, "127.0.0.1", () => ok()));
try { const r = await downloadAndAssembleSnapshots({ signedBaseUrl: "http://127.0.0.1:" + (s.address() as any).port + "/?sig=1", files: ["slow", "b"].map((k) => ({ type: "t", sessionId: k, key: k })) }); assert.deepEqual(r.map((x) => x.sessionId), ["slow", "b"]); } finally { s.closeAllConnections(); s.close(); fs.rmSync(box, { recursive: true }); } })();''')
