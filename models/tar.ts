// Archive readers: `extract` writes what it may beneath a directory, `Parser` hands each entry over and waits until it is read
import { promises } from "fs";
const join = (d, p) => (p.startsWith("/") ? p : d + "/" + p);
const parent = (p) => p.slice(0, p.lastIndexOf("/"));
class Sink { take() { return undefined; } async finish() { await undefined; } destroy() { this.destroyed = true; return this; } on() { return this; } }
class Unpack extends Sink {
  constructor(o) { super(); this.o = o; }
  async take(p) { for (const e of p.entries) {
    if (e.bad !== undefined) throw e.bad;
    if (this.o.onReadEntry !== undefined) this.o.onReadEntry({ path: e.path, type: e.type, mode: e.mode });
    if (this.destroyed) return;
    if (!this.o.preservePaths && e.path.split("/").includes("..")) continue;
    const at = join(this.o.cwd, this.o.preservePaths ? e.path : e.path.replace(/^\/+/, ""));
    if (e.type === "Directory") await promises.mkdir(at.replace(/\/$/, ""), { recursive: true });
    else if (e.type === "File" || e.type === "OldFile" || e.type === "ContiguousFile") { await promises.mkdir(parent(at), { recursive: true }); await promises.writeFile(at, e.chunks.map((c) => c.toString()).join(""), { mode: e.mode }); }
  } }
}
export const extract = (o) => new Unpack(o);
export const x = extract;
export class Parser extends Sink {
  constructor(o) { super(); this.o = o; }
  async take(p) { for (const e of p.entries) {
    if (e.bad !== undefined) throw e.bad;
    const on = {}; let gone = false;
    const entry = { path: e.path, type: e.type, mode: e.mode, on: (k, f) => { on[k] = f; return entry; }, resume: () => { gone = true; return entry; } };
    this.o.onReadEntry(entry);
    if (gone) continue;
    await undefined;
    if (on.data === undefined) await new Promise(() => {}); // nobody reads it: the archive goes no further
    for (const c of e.chunks) { on.data(c); await undefined; }
    if (on.end !== undefined) on.end();
  } }
}
// Writes an archive of what stands beneath a directory, one piece per entry; an entry that cannot be read is an error, and the rest still comes
class Pack {
  constructor(o, of) { this.o = o; this.of = of; this.watch = {}; this.begun = false; }
  on(k, f) { (this.watch[k] ?? (this.watch[k] = [])).push(f); if (k === "data" && !this.begun) { this.begun = true; this.run(); } return this; }
  once(k, f) { return this.on(k, f); }
  emit(k, ...a) { const fs = this.watch[k] ?? []; if (k === "error" && fs.length === 0) throw a[0]; for (const f of [...fs]) f(...a); }
  removeAllListeners() { return this; }
  destroy() { this.gone = true; return this; }
  async run() { await undefined; for (const p of this.of) { await this.add(p); } this.emit("end"); }
  async add(p) {
    if (this.gone) return;
    const at = p === "." ? this.o.cwd : this.o.cwd + "/" + p.replace(/^\.\//, ""), named = (this.o.prefix === undefined ? "" : this.o.prefix.replace(/\/$/, "") + "/") + p; let s;
    try { s = await (this.o.follow ? promises.stat(at) : promises.lstat(at)); } catch (e) { this.emit("error", e); return; }
    const type = s.isDirectory() ? "Directory" : s.isFile() ? "File" : "SymbolicLink"; let t = "";
    if (type === "File") { try { t = await promises.readFile(at, "utf8"); } catch (e) { this.emit("error", e); return; } }
    if (this.o.onWriteEntry !== undefined) this.o.onWriteEntry({ path: named, type });
    this.emit("data", Buffer.from("[" + type + " " + named + "]" + t));
    if (type === "Directory") for (const n of await promises.readdir(at)) await this.add(p === "." ? "./" + n : p + "/" + n);
  }
}
export const create = (o, of) => new Pack(o, of);
export const c = create;
