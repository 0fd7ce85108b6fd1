export const Duration = { fromObject: (o: any) => ({ as: () => o.minutes * 60000 }) };
export const DateTime = { now: () => ({ toISO: () => "now", toFormat: () => "now" }) };
