// Symbolic models of the platform objects the code under contract uses. Only the symbolic back end loads this file; the
// concrete back end runs the same contracts on Node's own implementations, which is what cross-checks these models.
import { uf, fact, inRe, implies, and, or, unsupported, isSym, native, list, concretise, pairsSet, charset, fresh, not, eq, env, bytesOf, mkBytes, remember, recall, constPrefix } from "vf-prim";

const SPECIAL = ["http:", "https:", "ws:", "wss:", "ftp:", "file:"];
const isSpecial = (p) => p === "http:" || p === "https:" || p === "ws:" || p === "wss:" || p === "ftp:" || p === "file:";
const formEnc = (s) => { if (!isSym(s)) return native("formEncode", s); const r = uf("url.formEnc", "string", s); fact(implies(inRe(/^[A-Za-z0-9*._-]*$/, s), eq(r, s))); fact(inRe(/^[A-Za-z0-9*._+%-]*$/, r)); remember("form", r, s); return r; };
const formDec = (s) => { if (!isSym(s)) return native("formDecode", s); const made = recall("form", s); if (made !== undefined) return made; if (inRe(/^[^%+]*$/, s)) return s; return uf("url.formDec", "string", s); };
const userEnc = (s) => { if (!isSym(s)) return native("userEncode", s); const r = uf("url.userEnc", "string", s); fact(implies(inRe(/^[A-Za-z0-9*._~!$&'()+,%-]*$/, s), eq(r, s))); fact(inRe(/^[A-Za-z0-9*._~!$&'()+,%-]*$/, r)); return r; };
const hashEnc = (s) => { if (!isSym(s)) return native("hashEncode", s); return uf("url.hashEnc", "string", s); };
const pathEnc = (s, special) => {
  if (!isSym(s)) return native("pathEncode", s, special);
  const r = uf("url.pathEnc", "string", s, special);
  fact(inRe(/^[^?#]*$/, r)); fact(implies(special, inRe(/^\//, r)));
  fact(implies(and(inRe(/^[A-Za-z0-9_~!$&'()*+,;=:@\/-]*$/, s), inRe(/^\//, s)), eq(r, s)));
  return r;
};

export class URLSearchParams {
  constructor(init) {
    this._list = []; this._onChange = null;
    if (init === undefined || init === null) return;
    if (typeof init === "string") { this._list = parseQuery(init.startsWith("?") ? init.slice(1) : init); return; }
    if (init instanceof URLSearchParams) { this._list = init._list.map((p) => [p[0], p[1]]); return; }
    if (typeof init[Symbol.iterator] === "function") { this._list = [...init].map((p) => [String(p[0]), String(p[1])]); return; }
    this._list = Object.entries(init).map((p) => [p[0], String(p[1])]);
  }
  get size() { return this._list.length; }
  get(n) { n = String(n); const p = this._list.find((q) => q[0] === n); return p === undefined ? null : p[1]; }
  getAll(n) { n = String(n); return this._list.filter((q) => q[0] === n).map((q) => q[1]); }
  has(n) { n = String(n); return this._list.some((q) => q[0] === n); }
  append(n, v) { this._list.push([String(n), String(v)]); this._changed(); }
  set(n, v) { if (this._immutable) throw new TypeError("immutable"); pairsSet(this._list, String(n), String(v)); this._changed(); }
  delete(n) { n = String(n); this._list = this._list.filter((q) => q[0] !== n); this._changed(); }
  forEach(f) { if (!concretise(this._list)) { unsupported("live iteration over a query of unknown length"); } for (let i = 0; i < this._list.length; i++) f(this._list[i][1], this._list[i][0], this); }
  keys() { return this._list.map((p) => p[0])[Symbol.iterator](); }
  values() { return this._list.map((p) => p[1])[Symbol.iterator](); }
  entries() { return this._list.map((p) => [p[0], p[1]])[Symbol.iterator](); }
  [Symbol.iterator]() { return this.entries(); }
  sort() { unsupported("URLSearchParams.sort"); }
  _changed() { if (this._onChange !== null) this._onChange._search = null; }
  toString() { const r = this._list.map((p) => formEnc(p[0]) + "=" + formEnc(p[1])).join("&"); if (isSym(r)) { fact(inRe(/^[A-Za-z0-9*._+%&=-]*$/, r)); remember("query", r, this._list.map((p) => [p[0], p[1]])); } return r; }
}
const parseQuery = (q) => {
  if (!isSym(q)) return native("parseQuery", q);
  const made = recall("query", q); if (made !== undefined) return made.map((p) => [p[0], p[1]]);
  if (q === "") return [];
  const parts = q.split("&"), out = [];
  if (isSym(parts.length)) return list("url.query", q);
  for (const p of parts) {
    if (p === "") continue;
    const k = constPrefix(p).indexOf("="); if (k < 0) return list("url.query", q);
    out.push([formDec(p.slice(0, k)), formDec(p.slice(k + 1))]);
  }
  return out;
};

export class URL {
  constructor(input, base) {
    input = String(input); if (base !== undefined) base = String(base);
    const snap = base === undefined && isSym(input) ? recall("href", input) : undefined;
    if (snap !== undefined) {
      this._proto = snap._proto; this._user = snap._user; this._pass = snap._pass; this._hostname = snap._hostname; this._port = snap._port; this._path = snap._path; this._search = snap._search; this._hash = snap._hash; this._auth = snap._auth; this._opaque = snap._opaque; this._href = input;
      if (snap._list !== null) { this._params = new URLSearchParams(); this._params._list = snap._list.map((p) => [p[0], p[1]]); this._params._onChange = this; } else this._params = null;
      return;
    }
    // a known address followed by a query of which only the text is unknown
    const known = !isSym(input) ? null : base === undefined ? /^(https?:\/\/[^?#]*\?)/.exec(constPrefix(input)) : isSym(base) ? null : /^(\/[^\/\\?#][^?#]*\?)/.exec(constPrefix(input));
    const at = known === null ? null : native("parseUrl", known[1], base), rest = at === null ? "" : input.slice(known[1].length);
    if (at !== null && inRe(/^[!$%&(-;=?-~]*$/, rest)) {
      const q = rest === "" ? "" : "?" + rest;
      this._proto = at.protocol; this._user = at.username; this._pass = at.password; this._hostname = at.hostname; this._port = at.port; this._path = at.pathname; this._search = q; this._hash = ""; this._auth = at.auth; this._opaque = at.opaque; this._href = at.href + rest;
    } else if (!isSym(input) && !isSym(base)) {
      const c = native("parseUrl", input, base);
      if (c === null) throw new TypeError("Invalid URL");
      this._proto = c.protocol; this._user = c.username; this._pass = c.password; this._hostname = c.hostname; this._port = c.port; this._path = c.pathname; this._search = c.search; this._hash = c.hash; this._auth = c.auth; this._opaque = c.opaque; this._href = c.href;
    } else {
      let h;
      if (base === undefined) {
        if (!uf("url.valid", "bool", input)) throw new TypeError("Invalid URL");
        h = uf("url.href", "string", input);
        fact(inRe(/[^\x00- ]/, input));
      } else {
        if (inRe(/^(https?|wss?):\/\//, input)) { if (!uf("url.valid", "bool", input)) throw new TypeError("Invalid URL"); h = uf("url.href", "string", input); }
        else { if (!uf("url.validIn", "bool", input, base)) throw new TypeError("Invalid URL"); h = uf("url.hrefIn", "string", input, base); }
      }
      fact(uf("url.valid", "bool", h)); fact(eq(uf("url.href", "string", h), h));
      const proto = uf("url.protocol", "string", h), user = uf("url.username", "string", h), pass = uf("url.password", "string", h), hostname = uf("url.hostname", "string", h), port = uf("url.port", "string", h), path = uf("url.pathname", "string", h), search = uf("url.search", "string", h), hash = uf("url.hash", "string", h);
      const auth = uf("url.auth", "bool", h), opaque = uf("url.opaque", "bool", h);
      const special = or(eq(proto, "http:"), eq(proto, "https:"), eq(proto, "ws:"), eq(proto, "wss:"), eq(proto, "ftp:"), eq(proto, "file:"));
      fact(inRe(/^[a-z][a-z0-9+.-]*:$/, proto));
      for (const p of ["http:", "https:", "ws:", "wss:", "file:", "data:", "blob:"]) { fact(eq(inRe(new RegExp("^" + p), h), eq(proto, p))); if (base === undefined) fact(implies(inRe(new RegExp("^" + p), input), eq(proto, p))); }
      fact(implies(special, and(auth, not(opaque), inRe(/^\//, path))));
      fact(implies(and(special, not(eq(proto, "file:"))), not(eq(hostname, ""))));
      fact(implies(opaque, and(not(auth), not(inRe(/^\//, path)))));
      fact(implies(not(auth), and(eq(user, ""), eq(pass, ""), eq(hostname, ""), eq(port, ""))));
      fact(implies(or(eq(hostname, ""), eq(proto, "file:")), and(eq(user, ""), eq(pass, ""), eq(port, ""))));
      fact(or(opaque, eq(path, ""), inRe(/^\//, path)));
      charset(user, /^[A-Za-z0-9*._~!$&'()+,%-]*$/); charset(pass, /^[A-Za-z0-9*._~!$&'()+,%-]*$/);
      fact(inRe(/^[^\/?#@\\ ]*$/, hostname)); fact(or(eq(port, ""), inRe(/^(0|[1-9][0-9]{0,4})$/, port))); for (const [p, d] of [["http:", "80"], ["https:", "443"], ["ws:", "80"], ["wss:", "443"], ["ftp:", "21"]]) fact(not(and(eq(proto, p), eq(port, d))));
      fact(implies(special, inRe(/^([^\/?#@\\ :A-Z]*|\[[0-9a-f:.]*\])$/, hostname)));
      fact(inRe(/^[^?#]*$/, path)); fact(or(eq(search, ""), inRe(/^\?[^#]+$/, search))); fact(or(eq(hash, ""), inRe(/^#[^]+$/, hash)));
      this._proto = proto; this._user = user; this._pass = pass; this._hostname = hostname; this._port = port; this._path = path; this._search = search; this._hash = hash; this._auth = auth; this._opaque = opaque; this._href = h;
    }
    this._params = null;
  }
  static canParse(u, b) { try { new URL(u, b); return true; } catch { return false; } }
  _touch() { this._href = null; }
  get protocol() { return this._proto; }
  set protocol(_v) { unsupported("URL.protocol ="); }
  get username() { return this._user; }
  set username(v) { if (this._hostname === "" || this._proto === "file:") return; this._user = userEnc(String(v)); this._touch(); }
  get password() { return this._pass; }
  set password(v) { if (this._hostname === "" || this._proto === "file:") return; this._pass = userEnc(String(v)); this._touch(); }
  get hostname() { return this._hostname; }
  set hostname(v) { if (this._opaque) return; v = String(v); if (isSym(v) || !/^[a-z0-9.-]+$/.test(v)) unsupported("URL.hostname = <unknown>"); this._hostname = v; this._auth = true; this._touch(); }
  get port() { return this._port; }
  set port(v) { if (this._hostname === "" || this._proto === "file:") return; v = String(v); if (isSym(v)) unsupported("URL.port = <unknown>"); this._port = v; this._touch(); }
  get host() { return this._port === "" ? this._hostname : this._hostname + ":" + this._port; }
  set host(_v) { unsupported("URL.host ="); }
  get pathname() { return this._path; }
  set pathname(v) { if (this._opaque) return; this._path = pathEnc(String(v), isSpecial(this._proto)); this._touch(); }
  get search() { if (this._search === null) { const q = this._params.toString(); this._search = q === "" ? "" : "?" + q; } return this._search; }
  set search(v) { v = String(v); if (isSym(v)) unsupported("URL.search = <unknown>"); this._search = v === "" || v === "?" ? "" : v.startsWith("?") ? v : "?" + v; if (this._params !== null) this._params._list = parseQuery(this._search.slice(1)); this._touch(); }
  get hash() { return this._hash; }
  set hash(v) { v = String(v); this._hash = v === "" || v === "#" ? "" : "#" + hashEnc(v.startsWith("#") ? v.slice(1) : v); this._touch(); }
  get searchParams() { if (this._params === null) { this._params = new URLSearchParams(); this._params._list = this._search === "" ? [] : parseQuery(this._search.slice(1)); this._params._onChange = this; } return this._params; }
  get origin() { if (this._proto === "http:" || this._proto === "https:" || this._proto === "ws:" || this._proto === "wss:" || this._proto === "ftp:") return this._proto + "//" + this.host; if (this._proto === "blob:") return uf("url.blobOrigin", "string", this.href); return "null"; }
  get href() {
    if (this._href !== null && this._search !== null) return this._href;
    const cred = this._user === "" && this._pass === "" ? "" : this._user + (this._pass === "" ? "" : ":" + this._pass) + "@";
    const rest = this._path + this.search + this._hash;
    this._href = this._auth ? this._proto + "//" + cred + this.host + rest : this._proto + (!this._opaque && this._path.startsWith("//") ? "/." : "") + rest;
    if (isSym(this._href) && !this._opaque) remember("href", this._href, { _proto: this._proto, _user: this._user, _pass: this._pass, _hostname: this._hostname, _port: this._port, _path: this._path, _search: this._search, _hash: this._hash, _auth: this._auth, _opaque: false, _list: this._params === null ? null : this._params._list.map((p) => [p[0], p[1]]) });
    return this._href;
  }
  set href(_v) { unsupported("URL.href ="); }
  toString() { return this.href; }
  toJSON() { return this.href; }
}

export class Headers {
  constructor(init) {
    this._list = [];
    if (init === undefined || init === null) return;
    if (init instanceof Headers) { this._list = init._list.map((p) => [p[0], p[1]]); return; }
    const pairs = typeof init[Symbol.iterator] === "function" ? [...init] : Object.entries(init);
    for (const p of pairs) this.append(p[0], p[1]);
  }
  append(n, v) { if (this._immutable) throw new TypeError("immutable"); n = String(n).toLowerCase(); v = String(v); const p = this._list.find((q) => q[0] === n); if (p === undefined) this._list.push([n, v]); else pairsSet(this._list, n, p[1] + ", " + v); }
  set(n, v) { if (this._immutable) throw new TypeError("immutable"); pairsSet(this._list, String(n).toLowerCase(), String(v)); }
  get(n) { n = String(n).toLowerCase(); const p = this._list.find((q) => q[0] === n); return p === undefined ? null : p[1]; }
  has(n) { n = String(n).toLowerCase(); return this._list.some((q) => q[0] === n); }
  delete(n) { if (this._immutable) throw new TypeError("immutable"); n = String(n).toLowerCase(); this._list = this._list.filter((q) => q[0] !== n); }
  forEach(f) { this._list.forEach((p) => f(p[1], p[0], this)); }
  keys() { return this._list.map((p) => p[0])[Symbol.iterator](); }
  values() { return this._list.map((p) => p[1])[Symbol.iterator](); }
  entries() { return this._list.map((p) => [p[0], p[1]])[Symbol.iterator](); }
  getSetCookie() { return this._list.filter((p) => p[0] === "set-cookie").map((p) => p[1]); }
  [Symbol.iterator]() { return this.entries(); }
}

export class EventTarget {
  constructor() { this._ls = []; }
  addEventListener(t, f, o) { this._ls.push([t, f, o]); }
  removeEventListener(t, f) { this._ls = this._ls.filter((l) => !(l[0] === t && l[1] === f)); }
  dispatchEvent(e) { for (const l of [...this._ls]) if (l[0] === e.type) { if (l[2] && l[2].once) this.removeEventListener(l[0], l[1]); l[1].call(this, e); } return true; }
}
export class AbortSignal extends EventTarget {
  constructor() { super(); this.aborted = false; this.reason = undefined; this.onabort = null; }
  throwIfAborted() { if (this.aborted) throw this.reason; }
  static timeout(ms) { const c = new AbortController(); setTimeout(() => c.abort(new DOMException("The operation was aborted due to timeout", "TimeoutError")), ms); return c.signal; }
}
export class DOMException extends Error { constructor(m, n) { super(m); this.name = n ?? "Error"; } }
export class AbortController {
  constructor() { this.signal = new AbortSignal(); }
  abort(reason) { const s = this.signal; if (s.aborted) return; s.aborted = true; s.reason = reason === undefined ? new DOMException("This operation was aborted", "AbortError") : reason; if (s.onabort) s.onabort({ type: "abort" }); s.dispatchEvent({ type: "abort" }); }
}
export const process = {
  env: {}, argv: ["node", "script"], pid: 4242, platform: "linux", arch: "x64", version: "v22.0.0", versions: { node: "22.0.0" },
  cwd: () => "/cwd", exit: (c) => { throw new Error("process.exit " + c); }, on() { return this; }, off() { return this; }, once() { return this; },
  stdout: { write() { return true; }, isTTY: false }, stderr: { write() { return true; }, isTTY: false }, stdin: { isTTY: false },
  nextTick: (f, ...a) => { Promise.resolve().then(() => f(...a)); }, uptime: () => 0, memoryUsage: () => ({ rss: 0 }), emitWarning() {},
};

// bytes: a byte array is an array of numbers 0..255; a buffer is the byte array it holds
export class ArrayBuffer {
  constructor(n) { this._bytes = typeof n === "number" ? undefined : n; this.byteLength = typeof n === "number" ? n : n.length; }
  static isView(v) { return v instanceof Uint8Array || v instanceof DataView; }
  slice(a, b) { return new ArrayBuffer(bytesIn(this).slice(a, b)); }
}
const bytesIn = (b) => { if (b._bytes === undefined) { b._bytes = new Uint8Array(b.byteLength); b._bytes.buffer = b; } return b._bytes; };
export class ReadableStream { // reading is not modelled: taking a reader locks it
  constructor() { this.locked = false; }
  getReader() { this.locked = true; unsupported("reading a stream"); }
  pipeTo() { this.locked = true; unsupported("reading a stream"); }
  tee() { this.locked = true; unsupported("reading a stream"); }
}
export class DataView { constructor(b) { this.buffer = b; this.byteLength = b.byteLength; this.byteOffset = 0; } }
const octet = (v) => { const n = Number(v) || 0; return n >= 0 && n <= 255 ? Math.floor(n) : ((Math.trunc(n) % 256) + 256) % 256; };
export class Uint8Array extends Array {
  constructor(x, off, len) {
    super();
    if (x instanceof ArrayBuffer) { if ((off ?? 0) !== 0 || (len !== undefined && len !== x.byteLength)) unsupported("a view of part of a buffer"); const b = bytesIn(x); b.buffer = x; return b; }
    if (typeof x === "number") for (let i = 0; i < x; i++) this.push(0);
    else if (x !== undefined) for (const v of x) this.push(octet(v));
    this.byteOffset = 0;
    this.buffer = new ArrayBuffer(this);
  }
  get byteLength() { return this.length; }
  static from(x, f) { return new Uint8Array(f === undefined ? [...x] : [...x].map(f)); }
  static of(...x) { return new Uint8Array(x); }
  subarray(a, b) { return new Uint8Array([...this].slice(a, b)); }
  slice(a, b) { return new Uint8Array([...this].slice(a, b)); }
  set(src, at) { let i = at ?? 0; for (const v of src) { this[i] = octet(v); i++; } }
  fill(v) { for (let i = 0; i < this.length; i++) this[i] = octet(v); return this; }
}

const textOf = async (body) => {
  if (body === null) return "";
  const r = body.getReader(); let out = "";
  for (;;) { const { done, value } = await r.read(); if (done) return out; out = out + value.text; }
};
const oneChunk = (text) => { let sent = text === ""; return { _text: text, getReader: () => ({ read: () => { if (sent) return Promise.resolve({ done: true, value: undefined }); sent = true; return Promise.resolve({ done: false, value: { text, byteLength: text.length } }); }, cancel: () => Promise.resolve(), releaseLock: () => undefined }), cancel: () => Promise.resolve() }; };
class Body {
  _setBody(b) { this._b = b === undefined || b === null ? null : typeof b === "string" ? b : typeof b === "object" && typeof b.getReader === "function" ? b : String(b); this.bodyUsed = false; this._stream = undefined; }
  get body() { if (this._b === null) return null; if (typeof this._b !== "string") return this._b; if (this._stream === undefined) this._stream = oneChunk(this._b); return this._stream; }
  async text() { if (this.bodyUsed) throw new TypeError("Body is unusable"); this.bodyUsed = this._b !== null; return typeof this._b === "string" ? this._b : await textOf(this._b); }
  async json() { return JSON.parse(await this.text()); }
  async arrayBuffer() { await this.text(); return new ArrayBuffer(0); }
}
export class Request extends Body {
  constructor(input, init) {
    super();
    const from = input instanceof Request ? input : undefined;
    this.url = from !== undefined ? from.url : new URL(String(input)).href;
    const m = init?.method ?? from?.method ?? "GET";
    this.method = ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS"].includes(m.toUpperCase()) ? m.toUpperCase() : m;
    this.headers = new Headers(init?.headers ?? from?.headers);
    this.signal = init?.signal ?? from?.signal ?? new AbortController().signal;
    const b = init?.body ?? from?._b ?? null;
    if (b !== null && (this.method === "GET" || this.method === "HEAD")) throw new TypeError("Request with GET/HEAD method cannot have body.");
    if (from !== undefined && from.bodyUsed) throw new TypeError("Body is unusable");
    this._setBody(b);
    if (from !== undefined && init?.body === undefined) from.bodyUsed = from._b !== null;
  }
  clone() { if (this.bodyUsed) throw new TypeError("unusable"); const r = new Request(this.url, { method: this.method, headers: this.headers, signal: this.signal }); r._setBody(this._b); return r; }
}
export class Response extends Body {
  constructor(body, init) {
    super();
    this.status = init?.status ?? 200;
    if (this.status < 200 || this.status > 599) throw new RangeError("init.status must be in the range of 200 to 599");
    this.statusText = init?.statusText ?? "";
    this.ok = this.status <= 299;
    this.headers = new Headers(init?.headers);
    this.url = ""; this.redirected = false; this.type = "default";
    if (body !== undefined && body !== null && (this.status === 204 || this.status === 205 || this.status === 304)) throw new TypeError("Response constructor: Invalid response status code");
    this._setBody(body);
  }
  clone() { if (this.bodyUsed) throw new TypeError("unusable"); const r = new Response(null, { status: this.status, statusText: this.statusText, headers: this.headers }); r._setBody(this._b); return r; }
  static redirect(url, status) { const r = new Response(null, { status: status ?? 302, headers: { location: new URL(String(url)).href } }); r.headers._immutable = true; return r; }
  static json(v, init) { return new Response(JSON.stringify(v), { ...init, headers: { "content-type": "application/json", ...init?.headers } }); }
}
export const crypto = {
  randomUUID: () => { const t = fresh("uuid", "string"); fact(inRe(/^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$/, t)); return t; },
  getRandomValues: (view) => { for (let i = 0; i < view.length; i++) { const b = fresh("byte", "int"); fact(b >= 0); fact(b <= 255); view[i] = b; } return view; },
};

// UTF-8 text kept as text: what is encoded is only ever passed on, hashed, signed or decoded again
export class Encoded { constructor(t) { this.text = t; } get length() { if (!isSym(this.text) && /^[\x00-\x7f]*$/.test(this.text)) return this.text.length; unsupported("the number of bytes of a text"); } get byteLength() { return this.length; } }
export class TextEncoder { encode(t) { return new Encoded(t === undefined ? "" : String(t)); } }

// Buffers hold text; its bytes are those of its UTF-8 encoding
const B64 = { base64: /^[A-Za-z0-9+\/]*={0,2}$/, base64url: /^[A-Za-z0-9_-]*$/, hex: /^([0-9a-f]{2})*$/ };
export class Buffer {
  constructor(text) { this._text = text; }
  static from(x, enc) {
    if (x instanceof Buffer) return x;
    if (typeof x !== "string") unsupported("a buffer of bytes");
    if (enc === undefined || enc === "utf8" || enc === "utf-8") return new Buffer(x);
    if (B64[enc] === undefined) unsupported("buffer encoding " + enc);
    if (!isSym(x)) return new Buffer(native("b64", x, enc, "utf-8"));
    const t = recall("b64." + enc, x); return new Buffer(t !== undefined ? t : uf("buffer.from." + enc, "string", x));
  }
  static alloc(n) { return new Buffer("\0".repeat(n)); }
  static isBuffer(x) { return x instanceof Buffer; }
  static concat(bs) { let t = ""; for (const b of bs) t += b._text; return new Buffer(t); }
  static byteLength(x) { return new Buffer(x).length; }
  toString(enc) {
    if (enc === undefined || enc === "utf8" || enc === "utf-8") return this._text;
    if (B64[enc] === undefined) unsupported("buffer encoding " + enc);
    if (!isSym(this._text)) return native("b64", this._text, "utf-8", enc);
    const r = uf("buffer.to." + enc, "string", this._text); fact(inRe(B64[enc], r)); fact(eq(eq(r, ""), eq(this._text, ""))); remember("b64." + enc, r, this._text); return r;
  }
  get length() { const t = this._text; if (!isSym(t)) return native("utf8Length", t); const n = uf("buffer.length", "int", t); fact(n >= t.length); fact(n <= 3 * t.length); fact(implies(inRe(/^[\x00-\x7f]*$/, t), eq(n, t.length))); return n; }
  get byteLength() { return this.length; }
  subarray(a, b) { const t = this._text; if (this.length !== t.length) unsupported("a part of a buffer that is not ASCII"); return new Buffer(b === undefined ? t.slice(a ?? 0) : t.slice(a ?? 0, b)); }
  slice(a, b) { return this.subarray(a, b); }
}
