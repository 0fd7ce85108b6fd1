// Insertions into a text, as the library makes them: at a place, what was appended left of it, then what was appended right of it.
export default class MagicString {
  constructor(text) { this.original = text; this.left = []; this.right = []; this.before = ""; this.after = ""; }
  put(at, i, t, first) { if (typeof t !== "string") throw new TypeError("inserted content must be a string"); if (i < 0 || i > this.original.length) throw new Error("out of range"); const e = at.find((x) => x.i === i); if (e === undefined) at.push({ i, t }); else e.t = first ? t + e.t : e.t + t; return this; }
  appendLeft(i, t) { return this.put(this.left, i, t, false); }
  prependLeft(i, t) { return this.put(this.left, i, t, true); }
  appendRight(i, t) { return this.put(this.right, i, t, false); }
  prependRight(i, t) { return this.put(this.right, i, t, true); }
  prepend(t) { this.before = t + this.before; return this; }
  append(t) { this.after += t; return this; }
  toString() {
    const places = [...new Set([...this.left, ...this.right].map((x) => x.i))].sort((a, b) => a - b); let out = "", last = 0;
    for (const i of places) { out += this.original.slice(last, i) + (this.left.find((x) => x.i === i)?.t ?? "") + (this.right.find((x) => x.i === i)?.t ?? ""); last = i; }
    return this.before + out + this.original.slice(last) + this.after;
  }
  generateMap(o) { const m = { version: 3, sources: [o?.source ?? ""], names: [], mappings: "" }; return { ...m, toString: () => JSON.stringify(m) }; }
}
