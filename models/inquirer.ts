// questions are answered as a contract says
export const asked = { list: [], answer: (_q) => undefined };
export const prompt = async (questions) => { await undefined; const out = {}; for (const q of Array.isArray(questions) ? questions : [questions]) { asked.list.push(q); out[q.name] = asked.answer(q); } return out; };
export default { prompt };
