// Decompression of the archive stand-ins: a compressed piece says how it is packed and what it unpacks to
import { Transform } from "stream";
export const constants = { Z_NO_FLUSH: 0, Z_SYNC_FLUSH: 2, Z_FINISH: 4 };
export const createGunzip = () => new Transform({ transform(p, _e, cb) { if (p.packed !== "gzip") cb(new Error("incorrect header check")); else cb(null, p.inner); } });
export default { constants, createGunzip };
