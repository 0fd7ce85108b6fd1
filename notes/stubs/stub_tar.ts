// archives are lines of JSON: {"path","text"}; anything else is a broken archive
import { EventEmitter } from "events"; import { Writable } from "stream"; import fs from "fs"; import path from "path";
class Lines extends Writable { rest = ""; constructor(public each: (e: any) => void) { super(); } _write(c: any, _e: any, cb: any) { this.rest += c; const l = this.rest.split("\n"); this.rest = l.pop()!; try { for (const x of l) this.each(JSON.parse(x)); cb(); } catch (e) { cb(e); } } _final(cb: any) { cb(this.rest === "" ? null : new Error("truncated archive")); } }
export class Parser extends Lines { constructor(o: any) { super((e) => { const en: any = new EventEmitter(); Object.assign(en, { path: e.path, type: e.type ?? "File", mode: 0o644, resume: () => {} }); o.onReadEntry(en); en.emit("data", Buffer.from(e.text ?? "")); en.emit("end"); }); } }
export const extract = (o: any) => new Lines((e) => { const p = path.join(o.cwd, e.path); fs.mkdirSync(path.dirname(p), { recursive: true }); fs.writeFileSync(p, e.text); o.onReadEntry?.(e); });
export const create: any = () => { throw new Error("not here"); }; export const c = create;
