import { web } from "http";
// The service, as asked and answered; the store; and a clock that timers move on. Repeated timers run only when the contract says so (tick).
export const world = (g, answer) => {
  const w = { log: [], now: 1700000000000, waits: [], timers: new Map(), nth: 0, asked: (p) => w.log.filter((e) => e.path === p), puts: () => w.log.filter((e) => e.put !== undefined), refuse: (_url) => undefined, live: () => w.timers.size };
  w.tick = async (ms) => { w.now += ms; for (const f of [...w.timers.values()]) f(); for (let i = 0; i < 60; i++) await undefined; };
  g.setGlobal("__dirname", "/dist"); g.setGlobal("process", { env: {}, versions: { node: "22" }, stderr: { write() { return true; } }, stdout: { write() { return true; } } }); const D = Date; g.setGlobal("Date", class extends D { static now() { return w.now; } }); g.setGlobal("performance", { now: () => w.now - 1600000000000 });
  g.setGlobal("setTimeout", (f, ms) => { if (ms === 60000) return 0; w.waits.push(ms); Promise.resolve().then(() => { w.now += ms; f(); }); return 0; }); g.setGlobal("clearTimeout", () => {});
  g.setGlobal("setInterval", (f, ms) => { const id = ++w.nth; w.timers.set(id, f); w.every = ms; return id; }); g.setGlobal("clearInterval", (id) => { w.timers.delete(id); });
  g.setGlobal("fetch", async (url, init) => {
    const u = new URL(String(url)), path = u.hostname === "app.meticulous.ai" ? u.pathname.slice("/api/".length) : u.hostname, e = { path, query: Object.fromEntries(u.searchParams.entries()), body: init === undefined || init.body === undefined ? undefined : JSON.parse(init.body), token: new Headers(init.headers).get("authorization") };
    if (w.log.length > 300) return new Promise(() => {}); // asked without end
    const k = w.asked(path).length; w.log.push(e); await undefined;
    const a = answer(path, e, k) ?? {}; if (a instanceof Error) throw a;
    return new Response(a.text ?? JSON.stringify("data" in a ? a.data : {}), { status: a.status ?? 200, headers: { "content-type": a.text === undefined ? "application/json" : "text/html" } }); });
  web.answer = async (c) => { for (let i = 0; i < 25; i++) await undefined; const no = w.refuse(c.url); if (no !== undefined) return no; w.log.push({ put: c.url, text: c.text(), headers: c.headers }); return { status: 200, headers: { etag: "tag:" + c.url } }; };
  return w;
};
export const quiet = { warn() {}, info() {}, debug() {}, error() {} };
