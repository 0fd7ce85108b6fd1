// A Docker daemon: a contract says what it has and how it answers; what was asked of it is kept, in order
export const daemon = { log: [], images: [], pings: true, push: (_n) => ({ output: [{ aux: { Digest: "sha256:" + "a".repeat(64) } }] }), archive: (_path) => undefined, tags: true, containers: 0, removed: 0, pushes: 0, after: (_e) => undefined };
const full = (n) => (n.lastIndexOf(":") > n.lastIndexOf("/") ? n : n + ":latest"), has = (n) => daemon.images.some((i) => full(i) === full(n));
const soon = async (e, v) => { for (let i = 0; i < 6; i++) await undefined; if (e !== undefined) throw e; return v; };
export default class Docker {
  constructor() { this.modem = { followProgress: (stream, done, seen) => { (async () => { for (const x of stream.output ?? []) { await undefined; if (seen !== undefined) seen(x); } for (let i = 0; i < 6; i++) await undefined; daemon.log.push(["pushed", stream.name]); done(stream.breaks ?? null, stream.output ?? []); })(); } }; }
  ping() { daemon.log.push(["ping"]); return soon(daemon.pings ? undefined : new Error("connect ENOENT /var/run/docker.sock"), "OK"); }
  getImage(name) { return {
    inspect: () => { daemon.log.push(["inspect", name]); return soon(has(name) ? undefined : Object.assign(new Error("no such image"), { statusCode: 404 }), { Id: name }); },
    tag: async (o) => { daemon.log.push(["tag", name, o.repo, o.tag]); await soon(daemon.tags ? undefined : new Error("cannot tag")); daemon.images.push(o.repo + ":" + (o.tag ?? "latest")); },
    push: (o, cb) => { const n = daemon.pushes++; daemon.log.push(["push", name, o.authconfig]); const a = daemon.push(n); soon().then(() => { if (!has(name)) { cb(new Error("An image does not exist locally with the tag: " + name)); return; } if (a.error !== undefined) cb(a.error); else if (a.none) cb(null, undefined); else cb(null, { name, output: a.output, breaks: a.breaks }); }); },
  }; }
  async createContainer(o) { daemon.log.push(["container", o.Image]); await soon(has(o.Image) ? undefined : new Error("no such image")); daemon.containers++; const on = {}; return {
    getArchive: async (q) => { daemon.log.push(["archive", q.path]); const a = await soon(undefined, daemon.archive(q.path)); if (a instanceof Error) throw a; return a; },
    remove: async () => { await soon(); daemon.removed++; if (daemon.stuck) throw new Error("busy"); } }; }
}
