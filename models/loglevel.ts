// loglevel: what is logged is kept
export const logged = [];
const levels = { TRACE: 0, DEBUG: 1, INFO: 2, WARN: 3, ERROR: 4, SILENT: 5 };
const make = () => { let level = 3; const n = () => {}, k = (...x) => { logged.push(x); }; return { trace: n, debug: n, log: n, info: k, warn: k, error: k, methodFactory: () => n, setLevel(l) { level = l; }, setDefaultLevel(l) { level = l; }, getLevel: () => level, enableAll() {}, disableAll() {}, rebuild() {}, levels }; };
const named = {};
const getLogger = (name) => { if (named[name] === undefined) named[name] = make(); return named[name]; };
const root = { ...make(), getLogger, levels, getLoggers: () => named };
export { getLogger, levels };
export default root;
