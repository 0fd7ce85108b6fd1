// Workers are recorded, none is started; a contract may end one
export const crew = { list: [], setup: undefined };
const fork = () => { const on = {}, x = { sent: [], killed: 0, on: (n, f) => { (on[n] ?? (on[n] = [])).push(f); return x; }, send: (m) => { x.sent.push(m); return true; }, kill: () => { x.killed++; }, ends: (code) => { for (const f of on.exit ?? []) f(code); } }; x.once = x.on; crew.list.push(x); return x; };
export default { isWorker: false, isPrimary: true, setupPrimary: (o) => { crew.setup = o; }, fork };
