const quiet: any = new Proxy({}, { get: (_t, k) => (k === "levels" ? { TRACE: 0, DEBUG: 1, INFO: 2, WARN: 3, ERROR: 4, SILENT: 5 } : k === "getLogger" ? () => quiet : k === "default" || k === "__esModule" ? undefined : () => undefined) });
export default quiet; export const getLogger = () => quiet; export const levels = quiet.levels;
