// The real parser, on known text
import { native, isSym, unsupported } from "vf-prim";
export const parse = (code, o) => { if (isSym(code)) unsupported("parsing unknown text"); const r = native("parseModule", code, JSON.stringify(o ?? {})); if (!r.ok) throw new SyntaxError(r.message); return r.tree; };
export default { parse };
