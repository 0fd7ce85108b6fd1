// Digests are functions of what is hashed; random bytes are unknown.
import { uf, fact, inRe, fresh, isSym, native, unsupported } from "vf-prim";
const SHAPE = { hex: /^[0-9a-f]*$/, base64url: /^[A-Za-z0-9_-]*$/, base64: /^[A-Za-z0-9+\/=]*$/ };
class Hash {
  constructor(alg, key) { this._alg = alg; this._key = key; this._text = ""; }
  update(t) { if (t instanceof Buffer) t = t.toString(); if (typeof t !== "string") unsupported("hashing bytes"); this._text += t; return this; }
  digest(enc) {
    if (SHAPE[enc] === undefined) unsupported("digest as " + enc);
    if (this._key === undefined && !isSym(this._text)) return native("hash", this._alg, this._text, enc);
    const r = this._key === undefined ? uf("hash." + this._alg + "." + enc, "string", this._text) : uf("hmac." + this._alg + "." + enc, "string", this._key, this._text);
    fact(inRe(SHAPE[enc], r)); fact(r !== ""); return r;
  }
}
export const createHash = (alg) => new Hash(alg);
export const createHmac = (alg, key) => new Hash(alg, key);
export const randomBytes = (n) => { if (isSym(n)) unsupported("random bytes of unknown number"); return { length: n, toString(enc) { if (enc === "hex") { const r = fresh("random", "string"); fact(inRe(SHAPE.hex, r)); fact(r.length === 2 * n); return r; } if (enc === "base64url") { const r = fresh("random", "string"); fact(inRe(SHAPE.base64url, r)); fact(r.length === Math.ceil((n * 4) / 3)); return r; } unsupported("random bytes as " + enc); } }; };
export const randomUUID = () => crypto.randomUUID();
export const webcrypto = crypto;
export default { createHash, createHmac, randomBytes, randomUUID };
