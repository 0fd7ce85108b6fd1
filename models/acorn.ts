// The real parser
export const parse = (code, o) => { const r = globalThis.__host.parseModule(code, o); if (!r.ok) throw new SyntaxError(r.message); return r.tree; };
export default { parse };
