// Mappings as a source map has them: numbers as base 64, each relative to the one before it
const CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const number = (v) => { let n = v < 0 ? -v * 2 + 1 : v * 2, out = ""; for (;;) { const d = n % 32; n = Math.floor(n / 32); out += CHARS[n > 0 ? d + 32 : d]; if (n === 0) return out; } };
export const encode = (lines) => { const was = [0, 0, 0, 0, 0]; return lines.map((l) => { was[0] = 0; return l.map((s) => s.map((v, i) => { const t = number(v - was[i]); was[i] = v; return t; }).join("")).join(","); }).join(";"); };
