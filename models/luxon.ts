// Lengths of time
const MS = { milliseconds: 1, seconds: 1000, minutes: 60000, hours: 3600000, days: 86400000, millisecond: 1, second: 1000, minute: 60000, hour: 3600000, day: 86400000 };
const made = (ms) => ({ as: (u) => ms / MS[u], toMillis: () => ms, valueOf: () => ms });
export const Duration = { fromObject: (o) => { let ms = 0; for (const k of Object.keys(o)) ms += o[k] * MS[k]; return made(ms); }, fromMillis: (ms) => made(ms) };
