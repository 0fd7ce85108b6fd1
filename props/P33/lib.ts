import { web } from "http";
// The API and the store: what was asked of them, in the order it was done; and a clock that timers move on
export const world = (g, answers) => {
  const w = { log: [], now: 1700000000000, waits: [], posts: (p) => w.log.filter((e) => e.path === p), puts: () => w.log.filter((e) => e.put !== undefined), refuse: (_url) => undefined };
  g.setGlobal("process", { env: {} }); const D = Date; g.setGlobal("Date", class extends D { static now() { return w.now; } });
  g.setGlobal("setTimeout", (f, ms) => { if (ms === 60000) return 0; w.waits.push(ms); Promise.resolve().then(() => { w.now += ms; f(); }); return 0; }); g.setGlobal("clearTimeout", () => {});
  g.setGlobal("fetch", async (url, init) => {
    const u = new URL(String(url)), path = u.pathname.slice("/api/".length), e = { path, query: Object.fromEntries(u.searchParams.entries()), body: init.body === undefined ? undefined : JSON.parse(init.body), token: new Headers(init.headers).get("authorization") };
    const k = w.posts(path).length; w.log.push(e); await undefined;
    const a = (answers[path] ?? (() => ({})))(e.body, k); if (a instanceof Error) throw a;
    return new Response(JSON.stringify(a.data ?? {}), { status: a.status ?? 200, headers: { "content-type": "application/json" } }); });
  web.answer = async (c) => { for (let i = 0; i < 25; i++) await undefined; const no = w.refuse(c.url); if (no !== undefined) return no; w.log.push({ put: c.url, text: c.text(), headers: c.headers }); return { status: 200, headers: { etag: "tag:" + c.url } }; };
  return w;
};
export const multipart = { "project-deployments/request-multipart-asset-upload": () => ({ data: { uploadId: "u1", awsUploadId: "aws1", uploadPartUrls: [], uploadChunkSize: 5 } }), "project-deployments/request-upload-part": (b) => ({ data: { uploadPartUrl: "https://s3.test/part" + b.partNumber } }), "project-deployments/request-git-diff-upload": (b) => ({ data: { uploadUrl: "https://s3.test/diff-of-" + b.uploadId } }), "project-deployments/request-asset-upload": () => ({ data: { uploadId: "u1", uploadUrl: "https://s3.test/zip" } }) };
export const tarOf = (text) => { const on = {}; let begun = false; const say = (k, a) => { for (const f of on[k] ?? []) f(a); }; const s = { on(k, f) { (on[k] ?? (on[k] = [])).push(f); if (!begun && k === "data") { begun = true; (async () => { await undefined; say("data", Buffer.from(text)); await undefined; say("end"); })(); } return s; }, once: (k, f) => s.on(k, f) }; return s; };
