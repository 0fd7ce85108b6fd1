import { native, isSym, unsupported } from "vf-prim";
export const runModule = (code, calls) => { if (isSym(code)) unsupported("running an unknown module"); return native("runModule", code, JSON.stringify(calls)); };
