const held = new Set<string>();
export const lock = async (_t: string, o: any) => { const p = o.lockfilePath; while (held.has(p)) await new Promise((ok) => setTimeout(ok, 5)); held.add(p); return async () => { held.delete(p); }; };
