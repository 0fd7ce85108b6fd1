// undici: requests go to the global fetch, with the dispatcher that was chosen
export class Agent { kind = "direct"; }
export class ProxyAgent { kind = "proxy"; uri; constructor(o) { this.uri = typeof o === "string" ? o : o.uri; } }
export const fetch = (input, init) => globalThis.fetch(input, init);
