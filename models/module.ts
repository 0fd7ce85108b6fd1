// node:module: createRequire resolves from this table only
export const registry = { modules: {} };
export const createRequire = () => (id) => { const m = registry.modules[id]; if (m === undefined) throw new Error("Cannot find module '" + id + "'"); return m; };
