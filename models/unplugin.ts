// unplugin wraps a factory for each bundler; the contracts call the factory itself
export const createUnplugin = (factory) => ({ raw: factory });
export const createVitePlugin = (factory) => factory;
