export const machine = { active: 1, total: 10, fails: undefined };
export const mem = async () => { await undefined; if (machine.fails !== undefined) throw machine.fails; return { active: machine.active, total: machine.total }; };
export default { mem };
