export class Agent {} export class ProxyAgent {} export class EnvHttpProxyAgent {} export const fetch = (...a: any[]) => (globalThis as any).fetch(...a);
