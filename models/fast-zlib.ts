// A decompressor holds back the last piece until it is told the input is over
export const made = { open: 0 };
export class InflateRaw {
  constructor() { made.open += 1; this.held = null; this.closed = false; }
  process(p, flag) {
    if (this.closed) throw new Error("zlib binding closed");
    const none = { length: 0, text: "", entries: [] };
    if (flag === 4) { const h = this.held; this.held = null; return h ?? none; }
    if (p.packed !== "raw") throw new Error("invalid stored block lengths");
    const h = this.held; this.held = p.inner; return h ?? none;
  }
  close() { if (this.closed) throw new Error("closed twice"); this.closed = true; made.open -= 1; }
}
// A compressor holds back its latest input; each output is its text, in brackets, and the last one says that it is over
export class DeflateRaw {
  constructor(o) { made.level = o === undefined ? undefined : o.level; this.held = ""; this.over = false; }
  process(p, flag) { if (this.over) throw new Error("write after end"); const t = p.toString(); if (flag === 4) { this.over = true; return Buffer.from(packed(this.held + t) + "$"); } const h = this.held; this.held = t; return Buffer.from(packed(h)); }
  close() {}
}
export const packed = (t) => (t === "" ? "" : t);
