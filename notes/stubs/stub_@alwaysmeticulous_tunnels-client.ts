export const localtunnel = (o: any) => (globalThis as any).openTunnel(o);
