// a formatter that changes nothing
export const format = async (text) => { await undefined; return text; };
export default { format };
