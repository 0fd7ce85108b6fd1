// Streams that hand on one piece at a time. A contract makes the source: the pieces it sends and how it ends
// ("ends", "stalls", or the error it fails with); a piece has a length and a text, and, for the archive stand-ins, entries.
export class Source {
  constructor(pieces, end) { this.pieces = pieces; this.end = end; }
  pipe(to) { this.run(to).catch(() => {}); return to; } // like a real pipe, a failing source tells its destination nothing
  async run(to) { await undefined; for (const p of this.pieces) await to.take(p); if (this.end === "ends") await to.finish(); }
  on() { return this; }
  destroy() {}
}
export const source = (pieces, end) => new Source(pieces, end);
export class Transform {
  constructor(o) { this.o = o; this.to = null; this.out = []; this.destroyed = false; }
  push(x) { if (x !== null) this.out.push(x); return true; }
  pipe(to) { this.to = to; return to; }
  on() { return this; }
  async drain() { while (this.out.length > 0) await this.to.take(this.out.shift()); }
  async take(p) { if (this.destroyed) return; await new Promise((ok, no) => this.o.transform.call(this, p, "buffer", (e, v) => { if (e) { no(e); return; } if (v !== undefined && v !== null) this.out.push(v); ok(undefined); })); await this.drain(); }
  async finish() { if (this.destroyed) return; if (this.o.flush !== undefined) await new Promise((ok, no) => this.o.flush.call(this, (e, v) => { if (e) { no(e); return; } if (v !== undefined && v !== null) this.out.push(v); ok(undefined); })); await this.drain(); await this.to.finish(); }
  destroy(e) { if (this.destroyed) return this; this.destroyed = true; if (this.o.destroy !== undefined) this.o.destroy.call(this, e ?? null, () => {}); return this; }
}
export class Readable extends Source {}
export class PassThrough extends Transform { constructor() { super({ transform(p, _e, cb) { cb(null, p); } }); } }
export const finished = (s, o, cb) => { if (cb === undefined) cb = o; s.over(cb); return () => {}; };
export const aborted = (signal) => Object.assign(new Error("The operation was aborted"), { name: "AbortError", code: "ABORT_ERR", cause: signal.reason });
export const flow = (...all) => {
  const o = typeof all[all.length - 1].take === "function" ? {} : all.pop(), src = all[0], stages = all.slice(1);
  for (let i = 0; i + 1 < stages.length; i++) stages[i].to = stages[i + 1];
  return new Promise((ok, no) => {
    let over = false;
    const end = (e) => { if (over) return; over = true; if (o.signal !== undefined) o.signal.removeEventListener("abort", stop); for (const s of stages) if (e !== undefined || s.keeps !== true) s.destroy(e); if (e !== undefined && typeof src.destroy === "function" && src.flowing !== undefined) src.destroy(); if (e === undefined) ok(undefined); else no(e); };
    const stop = () => end(aborted(o.signal));
    if (o.signal !== undefined) { if (o.signal.aborted) { stop(); return; } o.signal.addEventListener("abort", stop, { once: true }); }
    for (const s of stages) if (s.keeps === true) s.on("error", end);
    (async () => {
      await undefined;
      for (const p of src.pieces) { if (over) return; await stages[0].take(p); }
      if (src.end === "stalls") return;
      if (src.end === "breaks") { end(Object.assign(new Error("aborted"), { code: "ECONNRESET" })); return; }
      if (src.end !== "ends") { end(src.end); return; }
      if (over) return;
      await stages[0].finish(); end(undefined);
    })().catch(end);
  });
};
export const pipeline = (...all) => { const cb = all.pop(); flow(...all).then(() => cb(), cb); return all[all.length - 1]; };
export default { Source, Transform, Readable, PassThrough, finished, pipeline };
