import { disk } from "fs";

export { disk };
export const FILE = "/data/oauth-tokens.json", CONFIG = "/data/config.json", ISSUER = "https://app.meticulous.ai/auth/realms/meticulous", ENDPOINT = "https://idp.example/token", DEVICE = "https://idp.example/device";
// the identity provider: `o.token` answers a token request; what was asked is recorded
export const provider = (g, o: any = {}) => {
  const asked = [], devices = [], known = [];
  g.setGlobal("fetch", async (url, init) => {
    url = String(url);
    if (url === ISSUER + "/.well-known/openid-configuration") { known.push(url); if (o.unknown) throw new Error("offline"); return new Response(JSON.stringify(o.config ?? { token_endpoint: ENDPOINT, device_authorization_endpoint: DEVICE }), { status: o.configStatus ?? 200 }); }
    const q = { url, method: init.method, type: new Headers(init.headers).get("content-type"), form: new URLSearchParams(init.body) };
    if (url === DEVICE) { devices.push(q); return o.device(devices.length); }
    asked.push(q); return o.token(asked.length);
  });
  return { asked, devices, known };
};
export const env = (g, e = {}) => g.setGlobal("process", { env: { METICULOUS_DIR: "/data", ...e }, cwd: () => "/cwd", platform: "linux" });
export const clock = (g, first) => { let t = first; g.setGlobal("Date", class extends Date { static now() { return t; } }); return (v) => { t = v; }; };
export const answer = (v, status = 200) => new Response(typeof v === "string" ? v : JSON.stringify(v), { status });
