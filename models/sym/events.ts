export class EventEmitter {
  constructor() { this._on = {}; }
  on(n, f) { (this._on[n] ?? (this._on[n] = [])).push({ f, once: false }); return this; }
  once(n, f) { (this._on[n] ?? (this._on[n] = [])).push({ f, once: true }); return this; }
  addListener(n, f) { return this.on(n, f); }
  off(n, f) { const l = this._on[n] ?? []; const i = l.findIndex((x) => x.f === f); if (i >= 0) l.splice(i, 1); return this; }
  removeListener(n, f) { return this.off(n, f); }
  removeAllListeners(n) { if (n === undefined) this._on = {}; else delete this._on[n]; return this; }
  listenerCount(n) { return (this._on[n] ?? []).length; }
  emit(n, ...a) { const l = [...(this._on[n] ?? [])]; if (n === "error" && l.length === 0) throw a[0]; for (const x of l) { if (x.once) this.off(n, x.f); x.f.apply(this, a); } return l.length > 0; }
  setMaxListeners() { return this; }
}
EventEmitter.defaultMaxListeners = 10;
export default EventEmitter;
