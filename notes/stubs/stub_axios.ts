// a small HTTP client over node's own
import http from "http";
const ask = (method: string, url: string, signal?: any): Promise<any> => new Promise((ok, no) => { const q = http.request(url, { method, signal }, (r) => { if (r.statusCode! >= 400) { r.resume(); no(new Error("status " + r.statusCode)); return; } if (method === "HEAD") r.resume(); ok({ data: r, headers: r.headers, status: r.statusCode }); }); q.on("error", no); q.end(); });
const create = (_o?: any) => ({ request: (o: any) => ask(o.method ?? "GET", o.url, o.signal), head: (u: string) => ask("HEAD", u), get: (u: string) => ask("GET", u) });
export default { create, CancelToken: { source: () => ({ token: {}, cancel: () => {} }) } };
