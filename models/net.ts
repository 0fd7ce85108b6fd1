// Sockets are recorded, none is opened; a contract says what happens on them
export const wires = { list: [] };
export const opening = (tls) => (o, cb) => {
  const on = {}, x = { tls, to: o, sent: [], ended: 0, destroyed: false, paused: false, resumed: 0, noDelay: false, says: (t) => { if (x.paused) x.held.push(t); else x.emit("data", { toString: () => t, length: t.length }); }, held: [] };
  const add = (n, f, once) => { (on[n] ?? (on[n] = [])).push({ f, once }); return x; };
  x.on = (n, f) => add(n, f, false); x.addListener = x.on; x.once = (n, f) => add(n, f, true);
  x.off = (n, f) => { on[n] = (on[n] ?? []).filter((y) => y.f !== f); return x; }; x.removeListener = x.off; x.removeAllListeners = (n) => { if (n === undefined) { for (const k of Object.keys(on)) delete on[k]; } else delete on[n]; return x; };
  x.listenerCount = (n) => (on[n] ?? []).length;
  x.emit = (n, ...a) => { const l = on[n] ?? []; if (n === "error" && l.length === 0) throw a[0]; on[n] = l.filter((y) => !y.once); for (const y of l) y.f(...a); return l.length > 0; };
  x.write = (t, e, f) => { const g = typeof e === "function" ? e : f; x.sent.push(typeof t === "string" ? t : t.toString()); if (g !== undefined) { x.flushed = g; Promise.resolve().then(() => g()); } return true; };
  x.end = (t) => { if (t !== undefined && typeof t !== "function") x.sent.push(t); x.ended++; return x; }; x.destroy = () => { x.destroyed = true; return x; };
  x.setNoDelay = (v) => { x.noDelay = v !== false; return x; }; x.setKeepAlive = () => x; x.setTimeout = () => x; x.pause = () => { x.paused = true; return x; }; x.resume = () => { x.paused = false; x.resumed++; return x; };
  if (typeof cb === "function") x.once(tls ? "secureConnect" : "connect", cb);
  wires.list.push(x); return x;
};
export const connect = opening(false), createConnection = connect;
export default { connect, createConnection };
