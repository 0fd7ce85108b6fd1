// A disk in memory: files by path, with the mode they were created with. Contracts prepare and inspect it through `disk`.
const dirname = (p) => { const i = p.lastIndexOf("/"); return i <= 0 ? "/" : p.slice(0, i); };
const tidy = (p) => { p = String(p); return p.length > 1 && p.endsWith("/") ? p.slice(0, -1) : p; };
export const disk = {
  files: new Map(), dirs: new Set(["/", "/cwd", "/home", "/tmp"]), log: [], fails: (_op, _path) => false, waits: (_op, _path) => undefined,
  put(p, text) { let d = dirname(p); while (!disk.dirs.has(d)) { disk.dirs.add(d); d = dirname(d); } disk.files.set(p, { text, mode: 0o666 }); },
  links: new Map(), link(p, to) { let d = dirname(p); while (!disk.dirs.has(d)) { disk.dirs.add(d); d = dirname(d); } disk.links.set(p, to); }, // symbolic links: path to (absolute) target
  text: (p) => disk.files.get(p)?.text, mode: (p) => disk.files.get(p)?.mode,
};
const error = (code, op, p) => Object.assign(new Error(code + ": " + op + " '" + p + "'"), { code, path: p, syscall: op });
// Where a path leads once the links on it are followed (the last part only when `last`).
const where = (p, op, last = true) => {
  p = tidy(p);
  if (!p.includes("..") && ![...disk.links.keys()].some((l) => p === l || p.startsWith(l + "/"))) return p;
  let done = "", rest = p.split("/").filter((x) => x !== ""), hops = 0;
  while (rest.length > 0) {
    const next = done + "/" + rest[0], after = rest.slice(1);
    if (disk.links.has(next) && (last || after.length > 0)) { hops += 1; if (hops > 8) throw error("ELOOP", op, p); done = ""; const to = disk.links.get(next); if (after.length > 0 && !existsSync(to)) throw error("ENOENT", op, p); rest = to.split("/").filter((x) => x !== "").concat(after); }
    else { if (after.length > 0 && disk.files.has(next)) throw error("ENOTDIR", op, p); if (rest[0] === ".." && done !== "" && !disk.dirs.has(done) && op !== "mkdir") throw error("ENOENT", op, p); if (rest[0] === "..") done = dirname(done === "" ? "/" : done) === "/" ? "" : dirname(done); else if (rest[0] !== ".") done = next; rest = after; }
  }
  return done === "" ? "/" : done;
};
const step = (op, p) => { disk.log.push([op, p]); if (disk.fails(op, p)) throw error("EIO", op, p); };
const encoded = (o) => (typeof o === "string" ? true : o !== undefined && o !== null && typeof o.encoding === "string");
const bytes = (text) => Buffer.from(text);
const textOf = (d) => (typeof d === "string" ? d : d.toString());
export const existsSync = (p) => { try { p = where(p, "access"); } catch { return false; } return disk.files.has(p) || disk.dirs.has(p); };
export const readFileSync = (p, o) => { p = where(p, "readFile"); step("open", p); const f = disk.files.get(p); if (f === undefined) throw error(disk.dirs.has(p) ? "EISDIR" : "ENOENT", "open", p); return encoded(o) ? f.text : bytes(f.text); };
export const writeFileSync = (p, data, o) => { p = where(p, "writeFile"); step("write", p); if (!disk.dirs.has(dirname(p))) throw error("ENOENT", "open", p); if (disk.dirs.has(p)) throw error("EISDIR", "open", p); const f = disk.files.get(p); disk.files.set(p, { text: textOf(data), mode: f !== undefined ? f.mode : (typeof o === "object" && o !== null && o.mode !== undefined ? o.mode : 0o666) }); };
export const appendFileSync = (p, data) => { p = where(p, "appendFile"); const f = disk.files.get(p); writeFileSync(p, (f === undefined ? "" : f.text) + textOf(data)); };
export const mkdirSync = (p, o) => { const at = where(p, "mkdir", false); p = where(p, "mkdir"); if (disk.links.has(at) && !(disk.dirs.has(p) && o !== undefined && o.recursive === true)) throw error("EEXIST", "mkdir", at); step("mkdir", p); const all = typeof o === "object" && o !== null && o.recursive === true; if (disk.files.has(p) || (disk.dirs.has(p) && !all)) throw error("EEXIST", "mkdir", p); if (!all) { if (!disk.dirs.has(dirname(p))) throw error("ENOENT", "mkdir", p); disk.dirs.add(p); return; } let d = p; while (!disk.dirs.has(d)) { if (disk.files.has(d)) throw error("ENOTDIR", "mkdir", p); d = dirname(d); } d = p; while (!disk.dirs.has(d)) { disk.dirs.add(d); d = dirname(d); } };
export const unlinkSync = (p) => { p = where(p, "unlink", false); step("unlink", p); if (disk.links.delete(p)) return; if (!disk.files.has(p)) throw error("ENOENT", "unlink", p); disk.files.delete(p); };
export const rmSync = (p, o) => { p = where(p, "rm", false); step("rm", p); if (!existsSync(p)) { if (o !== undefined && o.force) return; throw error("ENOENT", "rm", p); } for (const k of [...disk.files.keys()]) if (k === p || k.startsWith(p + "/")) disk.files.delete(k); for (const k of [...disk.dirs]) if (k === p || k.startsWith(p + "/")) disk.dirs.delete(k); };
export const renameSync = (a, b) => { a = tidy(a); b = tidy(b); step("rename", a); const f = disk.files.get(a); if (f === undefined) throw error("ENOENT", "rename", a); disk.files.delete(a); disk.files.set(b, f); };
export const chmodSync = (p, mode) => { p = where(p, "chmod"); step("chmod", p); const f = disk.files.get(p); if (f === undefined) throw error("ENOENT", "chmod", p); f.mode = mode; };
export const readdirSync = (p, o) => { p = where(p, "readdir"); step("readdir", p); if (!disk.dirs.has(p)) throw error("ENOENT", "scandir", p); const pre = p === "/" ? "/" : p + "/", out = []; for (const k of [...disk.dirs, ...disk.files.keys(), ...disk.links.keys()].sort()) if (k !== "/" && k.startsWith(pre) && !k.slice(pre.length).includes("/")) out.push(o !== undefined && o.withFileTypes ? { name: k.slice(pre.length), isDirectory: () => disk.dirs.has(k), isFile: () => disk.files.has(k), isSymbolicLink: () => disk.links.has(k) } : k.slice(pre.length)); return out; };
export const statSync = (p) => { p = where(p, "stat"); step("stat", p); const f = disk.files.get(p), d = disk.dirs.has(p); if (f === undefined && !d) throw error("ENOENT", "stat", p); return { isFile: () => f !== undefined, isDirectory: () => d, isSymbolicLink: () => false, mode: f !== undefined ? f.mode : 0o777, size: f === undefined ? 0 : f.text.length }; };
export const lstatSync = (p) => { p = where(p, "lstat", false); if (disk.links.has(p)) { step("stat", p); return { isFile: () => false, isDirectory: () => false, isSymbolicLink: () => true, mode: 0o777, size: 0 }; } return statSync(p); };
export const realpathSync = (p) => { const q = where(p, "realpath"); if (!existsSync(q)) throw error("ENOENT", "realpath", p); return q; };
let made = 0;
export const mkdtempSync = (prefix) => { const p = prefix + "x" + String(++made); mkdirSync(p); return p; };
export const copyFileSync = (a, b) => { a = where(a, "copyfile"); const f = disk.files.get(a); if (f === undefined) throw error("ENOENT", "copyfile", a); writeFileSync(b, f.text); disk.files.get(where(b, "copyfile")).mode = f.mode; };
export const cpSync = (a, b, o) => {
  a = where(a, "cp"); b = where(b, "cp"); if (disk.files.has(a)) { mkdirSync(dirname(b), { recursive: true }); copyFileSync(a, b); return; }
  if (!disk.dirs.has(a)) throw error("ENOENT", "cp", a); if (o === undefined || o.recursive !== true) throw error("ERR_FS_EISDIR", "cp", a);
  mkdirSync(b, { recursive: true }); for (const d of [...disk.dirs]) if (d.startsWith(a + "/")) mkdirSync(b + d.slice(a.length), { recursive: true }); for (const p of [...disk.files.keys()]) if (p.startsWith(a + "/")) copyFileSync(p, b + p.slice(a.length));
};
export const accessSync = (p) => { if (!existsSync(p)) throw error("ENOENT", "access", p); };
const later = (f) => async (...a) => { await undefined; return f(...a); };
// A write that can be called off; `disk.waits` may make it wait, so that writes can be seen to overlap
const writing = async (p, data, o) => {
  const signal = typeof o === "object" && o !== null ? o.signal : undefined, stop = () => Object.assign(new Error("The operation was aborted"), { name: "AbortError", code: "ABORT_ERR" });
  await undefined; if (signal !== undefined && signal.aborted) throw stop();
  const w = disk.waits("write", p);
  if (w !== undefined) { if (signal === undefined) await w; else await new Promise((ok, no) => { signal.addEventListener("abort", () => no(stop()), { once: true }); w.then(ok, no); }); }
  writeFileSync(p, data, o);
};
const making = async (p, o) => { await undefined; const w = disk.waits("mkdir", p); if (w !== undefined) await w; return mkdirSync(p, o); };
// A stream into a file: the file is there, and empty, as soon as it is opened
export class WriteStream {
  constructor(path, o) { this.path = path; this.bytesWritten = 0; this.state = "open"; this.error = undefined; this.watch = []; this.ends = []; this.opening = (async () => { await undefined; if (this.state !== "open") return; try { writeFileSync(path, "", o); } catch (e) { this.destroy(e); } })(); }
  over(cb) { if (this.state === "open") this.watch.push(cb); else Promise.resolve().then(() => cb(this.error)); }
  settle() { const w = this.watch; this.watch = []; Promise.resolve().then(() => { for (const cb of w) cb(this.error); }); }
  on(k, f) { if (k === "finish" || k === "close") this.over((e) => { if (e === undefined) f(); }); if (k === "error") this.over((e) => { if (e !== undefined) f(e); }); return this; }
  once(k, f) { return this.on(k, f); }
  async take(p) { await this.opening; if (this.state !== "open") { if (this.error !== undefined) throw this.error; return; } try { appendFileSync(this.path, p.text); } catch (e) { this.destroy(e); throw e; } }
  async finish() { await this.opening; if (this.state !== "open") { if (this.error !== undefined) throw this.error; return; } this.state = "finished"; this.settle(); }
  destroy(e) { if (this.state !== "open") return this; this.state = "destroyed"; this.error = e ?? new Error("Premature close"); this.told(this.error); this.settle(); return this; }
  emit(k, e) { if (k === "error") this.destroy(e); }
  removeAllListeners() { this.watch = []; return this; }
  // Written in order, one after the other; the callback of `end` is called whether or not all could be written, "finish" only when it could
  write(p, e, f) { const cb = typeof e === "function" ? e : f, before = this.queue ?? this.opening; this.queue = (async () => { await before; if (this.state !== "open") return; const t = textOf(p); try { const w = disk.waits("write", this.path); if (w !== undefined) await w; if (this.state !== "open") return; appendFileSync(this.path, t); this.bytesWritten += t.length; if (cb !== undefined) cb(); } catch (x) { this.destroy(x); } })(); return true; }
  end(p, e, f) { const cb = typeof p === "function" ? p : typeof e === "function" ? e : f; if (p !== undefined && p !== null && typeof p !== "function") this.write(p); const before = this.queue ?? this.opening; if (cb !== undefined) { if (this.state === "open") this.ends.push(cb); else { const x = this.error; Promise.resolve().then(() => cb(x)); } } (async () => { await before; if (this.state !== "open") return; this.state = "finished"; this.told(undefined); this.settle(); })(); return this; }
  told(e) { const w = this.ends; this.ends = []; for (const cb of w) cb(e); }
  close(cb) { Promise.resolve().then(() => { if (this.state === "open") this.destroy(undefined); if (cb !== undefined) cb(); }); }
}
export const createWriteStream = (path, o) => new WriteStream(path, o);
// A stream out of a file, in two pieces; it says so when the file cannot be read
export class ReadStream {
  constructor(path) { this.path = path; this.watch = {}; this.destroyed = false; }
  on(k, f) { (this.watch[k] ?? (this.watch[k] = [])).push(f); if (k === "data") this.pipe({ write: (p) => { this.emit("data", p); return true; }, end: () => {} }); return this; }
  once(k, f) { return this.on(k, f); }
  emit(k, ...a) { for (const f of this.watch[k] ?? []) f(...a); }
  pieces() { const t = readFileSync(this.path, "utf8"), m = Math.floor(t.length / 2), h = Buffer.from("").buffer !== undefined && /[\ud800-\udbff]$/.test(t.slice(0, m)) ? m + 1 : m; return disk.fails("read", this.path) ? { t: [t.slice(0, h)], e: error("EIO", "read", this.path) } : { t: [t.slice(0, h), t.slice(h)].filter((x) => x !== ""), e: undefined }; }
  pipe(to) { (async () => { await undefined; let r; try { r = this.pieces(); } catch (e) { this.emit("error", e); this.emit("close"); return; } for (const t of r.t) { if (this.destroyed) return; to.write(Buffer.from(t)); await undefined; } if (r.e !== undefined) { this.emit("error", r.e); this.emit("close"); return; } this.emit("end"); to.end(); this.emit("close"); })(); return to; }
  destroy() { this.destroyed = true; return this; }
}
export const createReadStream = (path) => new ReadStream(path);
export const promises = { readFile: later(readFileSync), writeFile: writing, appendFile: later(appendFileSync), mkdir: making, unlink: later(unlinkSync), rm: later(rmSync), rename: later(renameSync), readdir: later(readdirSync), mkdtemp: later(mkdtempSync), stat: later(statSync), lstat: later(lstatSync), realpath: later(realpathSync), copyFile: later(copyFileSync), access: later(accessSync), chmod: later(chmodSync) };
export const constants = { O_RDONLY: 0, O_WRONLY: 1, O_RDWR: 2, O_CREAT: 64, O_EXCL: 128, O_NOFOLLOW: 131072, F_OK: 0, R_OK: 4, W_OK: 2, X_OK: 1 };
export default { existsSync, readFileSync, writeFileSync, appendFileSync, mkdirSync, unlinkSync, rmSync, renameSync, chmodSync, readdirSync, statSync, lstatSync, realpathSync, copyFileSync, cpSync, mkdtempSync, accessSync, createWriteStream, createReadStream, promises, constants };
