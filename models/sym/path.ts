import { native, isSym, unsupported } from "vf-prim";
const call = (n) => (...a) => { for (const x of a) if (isSym(x)) unsupported("path." + n + " of an unknown path"); return native("path", n, ...a); };
export const join = call("join"), normalize = call("normalize"), resolve = (...a) => call("resolve")("/cwd", ...a), basename = call("basename"), dirname = call("dirname"), extname = call("extname"), relative = (a, b) => call("relative")(resolve(a), resolve(b)), isAbsolute = call("isAbsolute");
export const sep = "/", delimiter = ":";
export const posix = { join, normalize, resolve, basename, dirname, extname, relative, isAbsolute, sep, delimiter };
export default { join, normalize, resolve, basename, dirname, extname, relative, isAbsolute, sep, delimiter, posix };
