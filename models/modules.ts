// Runs a module outside the engines
export const runModule = (code, calls) => globalThis.__host.runModule(code, calls);
