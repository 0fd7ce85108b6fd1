// Servers are recorded; a contract makes the requests. As in Node, headers of HTTP/1 connections in an answer are an error.
export const servers = { list: [] };
const BAD = ["connection", "upgrade", "http2-settings", "keep-alive", "proxy-connection", "transfer-encoding"];
export const createServer = (options) => {
  const on = {}, s = {
    options, sockets: [], closed: 0,
    on: (n, f) => { (on[n] ?? (on[n] = [])).push(f); return s; }, addListener: (n, f) => s.on(n, f), once: (n, f) => s.on(n, f),
    emit: (n, ...a) => { if (n === "connection") s.sockets.push(a[0]); for (const f of on[n] ?? []) f(...a); return (on[n] ?? []).length > 0; },
    close() { s.closed++; return s; },
    // a request over one of the connections; what was answered
    visit(headers, pieces = [], end = "ends") {
      const r = { status: undefined, headers: undefined, pieces: [], ended: false, destroyed: false, wrong: undefined, heads: 0 };
      const req = { headers, method: headers[":method"], url: headers[":path"], pieces, end, on() { return req; }, once() { return req; }, pipe(to) { (async () => { await undefined; for (const p of pieces) await to.take(p); if (end === "ends") await to.finish(); })(); return to; }, destroy() { r.cut = true; } };
      const res = { headersSent: false, writableEnded: false, destroyed: false, writeHead(st, h) { r.heads++; if (res.headersSent) { r.wrong = "headers sent twice"; throw new Error(r.wrong); } for (const k of Object.keys(h ?? {})) if (BAD.includes(k) && h[k] !== undefined) { r.wrong = "connection header " + k; throw new TypeError(r.wrong); } res.headersSent = true; r.status = st; r.headers = { ...(h ?? {}) }; return res; }, write(p) { if (!res.headersSent) res.writeHead(200); if (r.ended) r.wrong = "write after end"; r.pieces.push(p); return true; }, end(p) { if (p !== undefined) res.write(p); if (!res.headersSent) res.writeHead(200); r.ended = true; res.writableEnded = true; return res; }, on() { return res; }, once() { return res; }, take: async (p) => { res.write(p); }, finish: async () => { res.end(); }, destroy(e) { if (!r.ended) { r.destroyed = true; res.destroyed = true; } return res; }, keeps: true };
      s.emit("request", req, res); return r;
    },
  };
  servers.list.push(s); return s;
};
export default { createServer };
