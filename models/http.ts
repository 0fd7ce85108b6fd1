// servers are recorded; a contract makes the requests
export const servers = { list: [], port: 4711, address: undefined };
export const createServer = (handler) => {
  const on = {}, s = {
    handler, on: (n, f) => { on[n] = f; return s; }, once: (n, f) => { on[n] = f; return s; }, emit: (n, ...a) => on[n]?.(...a), closed: 0, host: undefined, asked: undefined,
    listen(port, host, cb) { s.asked = port; if (typeof host === "function") { cb = host; host = undefined; } s.host = host; s.up = cb; if (cb !== undefined) Promise.resolve().then(cb); return s; },
    address: () => (servers.address !== undefined ? servers.address : { port: servers.port, address: s.host, family: "IPv4" }),
    close(cb) { s.closed++; if (cb !== undefined) Promise.resolve().then(() => cb()); return s; }, unref() { return s; },
    // a request as a browser makes it: what was answered
    visit(url, method = "GET") { const r = { status: undefined, headers: {}, body: "", ended: false }; const res = { statusCode: 200, setHeader(n, v) { r.headers[n] = v; }, writeHead(st, h) { r.status = st; Object.assign(r.headers, h ?? {}); return res; }, write(t) { r.body += t; return true; }, end(t) { if (t !== undefined) r.body += t; if (r.status === undefined) r.status = res.statusCode; r.ended = true; } }; s.handler({ url, method, headers: {} }, res); return r; },
  };
  servers.list.push(s); return s;
};
// Requests are recorded; a contract says how each is answered: { error } when the connection fails, else { status, headers, body (pieces), end: "ends" | "breaks" }
export const web = { calls: [], answer: (_call) => ({ status: 200 }), during: 0, most: 0, made: 0 };
const emitter = (x) => { const on = {}; const add = (n, f) => { (on[n] ?? (on[n] = [])).push(f); return x; }; x.on = add; x.once = add; x.addListener = add; x.off = () => x; x.removeAllListeners = (n) => { if (n === undefined) { for (const k of Object.keys(on)) delete on[k]; } else delete on[n]; return x; }; x.listenerCount = (n) => (on[n] ?? []).length; x.emit = (n, ...a) => { const fs = on[n] ?? []; if (n === "error" && fs.length === 0) throw a[0]; for (const f of [...fs]) f(...a); return fs.length > 0; }; return x; };
export const asking = (secure) => (url, o, cb) => {
  if (typeof url === "object" && !(url instanceof URL)) { cb = o; o = url; url = undefined; }
  if (typeof o === "function") { cb = o; o = {}; }
  web.made++; const call = { url: url === undefined ? undefined : String(url), secure, method: o.method ?? "GET", headers: { ...(o.headers ?? {}) }, agent: o.agent, host: o.hostname ?? o.host ?? (url === undefined ? undefined : new URL(String(url)).hostname), port: o.port, path: o.path, localAddress: o.localAddress, rejectUnauthorized: o.rejectUnauthorized, sent: [], ended: false, destroyed: false };
  const req = emitter({}); let done;
  req.setHeader = (n, v) => { call.headers[n] = v; };
  req.setTimeout = () => req; req.setNoDelay = () => req; req.flushHeaders = () => {};
  req.write = (p, e, f) => { const g = typeof e === "function" ? e : f; if (call.ended) throw new Error("write after end"); call.sent.push(p); if (g !== undefined) Promise.resolve().then(() => g()); return true; };
  req.end = (p, e, f) => { if (typeof p === "function") { p = undefined; } if (p !== undefined && p !== null) call.sent.push(p); if (call.ended) return req; call.ended = true; done(); return req; };
  req.keeps = true; req.take = async (p) => { if (!call.destroyed) call.sent.push(p); }; req.finish = async () => { req.end(); };
  req.destroy = (e) => { if (call.destroyed) return req; call.destroyed = true; Promise.resolve().then(() => { if (e !== undefined && e !== null) req.emit("error", e); req.emit("close"); }); return req; };
  req.abort = () => req.destroy(Object.assign(new Error("socket hang up"), { code: "ECONNRESET" }));
  const ended = new Promise((ok) => { done = ok; });
  call.text = () => call.sent.map((p) => (typeof p === "string" ? p : p.toString())).join("");
  const run = async () => {
    await ended; await undefined; if (call.destroyed) return;
    web.calls.push(call); web.during += 1; if (web.during > web.most) web.most = web.during;
    const a = await web.answer(call); web.during -= 1; if (call.destroyed) return;
    if (a.error !== undefined) { req.destroy(a.error); return; }
    const res = emitter({ statusCode: a.status, pieces: a.body ?? [], end: a.end ?? "ends", flowing: false, headers: a.headers ?? {}, complete: false, setEncoding() { return res; }, resume() { return res; }, pause() { return res; }, destroy(e) { if (e !== undefined && res.listenerCount("error") > 0) res.emit("error", e); res.emit("close"); return res; } });
    if (cb !== undefined) cb(res); req.emit("response", res);
    for (const p of a.body ?? []) { await undefined; res.emit("data", p); }
    await undefined;
    if (a.end === "breaks") { const e = Object.assign(new Error("aborted"), { code: "ECONNRESET" }); res.emit("aborted"); if (res.listenerCount("error") > 0) res.emit("error", e); res.emit("close"); return; } // nobody is told who does not ask
    res.complete = true; res.emit("end"); res.emit("close");
  };
  run(); return req;
};
export const request = asking(false);
export class Agent {}
export default { createServer, request, Agent };
