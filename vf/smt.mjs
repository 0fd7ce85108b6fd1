// Terms, simplification, SMT-LIB printing and the solver portfolio.
import { spawnSync } from "node:child_process";
import * as L from "./relang.mjs";

let nextId = 1;
const table = new Map();
export class T {
  constructor(op, sort, args, val) { this.op = op; this.sort = sort; this.args = args; this.val = val; this.id = nextId++; }
}
export const isT = (x) => x instanceof T;
const mk = (op, sort, args = [], val = undefined) => {
  const key = op + "|" + sort + "|" + (val === undefined ? "" : typeof val + ":" + String(val)) + "|" + args.map((a) => a.id).join(",");
  let t = table.get(key);
  if (!t) { t = new T(op, sort, args, val); table.set(key, t); }
  return t;
};
export const resetTerms = () => {};

// ---------------------------------------------------------------- constants
export const TRUE = mk("cb", "Bool", [], true);
export const FALSE = mk("cb", "Bool", [], false);
const ZERO = mk("ci", "Int", [], 0n);
export const bool = (b) => (b ? TRUE : FALSE);
export const int = (n) => mk("ci", "Int", [], BigInt(n));
export const str = (s) => mk("cs", "String", [], s);
export const real = (num, den = 1n) => { // exact rational
  let a = BigInt(num), b = BigInt(den); if (b < 0n) { a = -a; b = -b; }
  const g = gcd(a < 0n ? -a : a, b) || 1n; return mk("cr", "Real", [], `${a / g}/${b / g}`);
};
const gcd = (a, b) => (b === 0n ? a : gcd(b, a % b));
const ratOf = (t) => { if (t.op === "ci") return [t.val, 1n]; const [a, b] = t.val.split("/"); return [BigInt(a), BigInt(b)]; };
export const fromJsNumber = (n) => {
  if (!Number.isFinite(n)) throw new Error("non-finite number has no term");
  if (Number.isInteger(n)) return int(BigInt(n));
  let den = 1n, x = n; while (!Number.isInteger(x)) { x *= 2; den *= 2n; } // doubles are dyadic: exact
  return real(BigInt(x), den);
};
export const constVal = (t) => {
  if (t.op === "cb" || t.op === "cs") return t.val;
  if (t.op === "ci") return Number(t.val);
  if (t.op === "cr") { const [a, b] = ratOf(t); return Number(a) / Number(b); }
  return undefined;
};
export const isConst = (t) => t.op === "cb" || t.op === "cs" || t.op === "ci" || t.op === "cr";
export const variable = (name, sort) => mk("var", sort, [], name);
export const uf = (name, sort, args) => mk("uf", sort, args, name);

// ---------------------------------------------------------------- booleans
export const not = (a) => a === TRUE ? FALSE : a === FALSE ? TRUE : a.op === "not" ? a.args[0] : mk("not", "Bool", [a]);
export const and = (...xs) => {
  const out = []; for (const x of xs.flat()) { if (x === FALSE) return FALSE; if (x === TRUE) continue; if (x.op === "and") { for (const y of x.args) if (!out.includes(y)) out.push(y); } else if (!out.includes(x)) out.push(x); }
  for (const x of out) if (out.includes(not(x))) return FALSE;
  return out.length === 0 ? TRUE : out.length === 1 ? out[0] : mk("and", "Bool", out);
};
export const or = (...xs) => {
  const out = []; for (const x of xs.flat()) { if (x === TRUE) return TRUE; if (x === FALSE) continue; if (x.op === "or") { for (const y of x.args) if (!out.includes(y)) out.push(y); } else if (!out.includes(x)) out.push(x); }
  for (const x of out) if (out.includes(not(x))) return TRUE;
  return out.length === 0 ? FALSE : out.length === 1 ? out[0] : mk("or", "Bool", out);
};
export const implies = (a, b) => or(not(a), b);
export const ite = (c, a, b) => {
  if (c === TRUE) return a; if (c === FALSE) return b; if (a === b) return a;
  if (a.sort !== b.sort) { a = toReal(a); b = toReal(b); }
  if (a.sort === "Bool") { if (a === TRUE && b === FALSE) return c; if (a === FALSE && b === TRUE) return not(c); if (a === TRUE) return or(c, b); if (a === FALSE) return and(not(c), b); if (b === TRUE) return or(not(c), a); if (b === FALSE) return and(c, a); }
  return mk("ite", a.sort, [c, a, b]);
};
export const toReal = (t) => t.sort === "Real" ? t : t.op === "ci" ? real(t.val) : mk("to_real", "Real", [t]);
export const toInt = (t) => t.sort === "Int" ? t : t.op === "cr" ? (() => { const [a, b] = ratOf(t); let q = a / b; if (a % b !== 0n && a < 0n) q -= 1n; return int(q); })() : t.op === "to_real" ? t.args[0] : mk("to_int", "Int", [t]);
const num2 = (a, b) => (a.sort === b.sort ? [a, b] : [toReal(a), toReal(b)]);
export const eq = (a, b) => {
  if (a === b) return TRUE;
  if (a.sort !== b.sort) { if ((a.sort === "Int" || a.sort === "Real") && (b.sort === "Int" || b.sort === "Real")) [a, b] = num2(a, b); else return FALSE; }
  if (a === b) return TRUE;
  if (isConst(a) && isConst(b)) return bool(a === b);
  if (a.sort === "Bool") { if (a === TRUE) return b; if (b === TRUE) return a; if (a === FALSE) return not(b); if (b === FALSE) return not(a); }
  if (a.op === "ite" && isConst(b)) { const e1 = eq(a.args[1], b), e2 = eq(a.args[2], b); if (isConst(e1) || isConst(e2)) return ite(a.args[0], e1, e2); }
  if (b.op === "ite" && isConst(a)) return eq(b, a);
  if (a.sort === "Int") {
    const d = sub(a, b); if (d.op === "ci") return bool(d.val === 0n);
    const ts = d.op === "add" ? d.args : [d]; const c = ts.at(-1).op === "ci" ? ts.at(-1).val : 0n; let t = sub(d, int(c)), k = -c;
    const lead = t.op === "add" ? t.args[0] : t; if (lead.op === "mul" && lead.args[0].op === "ci" && lead.args[0].val < 0n) { t = neg(t); k = -k; }
    if (t.op === "strlen") { if (k < 0n) return FALSE; if (k === 0n) return eq(t.args[0], str("")); }
    if (t.op === "add" && t.args.length === 2 && k === 0n && t.args.some((x) => x.op === "mul" && x.args[0].op === "ci" && x.args[0].val === -1n)) { const m = t.args.find((x) => x.op === "mul" && x.args[0].op === "ci" && x.args[0].val === -1n); const o = t.args.find((x) => x !== m); a = o; b = m.args[1]; }
    else { a = t; b = int(k); }
    if (a.id > b.id) [a, b] = [b, a];
    return mk("eq", "Bool", [a, b]);
  }
  if (a.sort === "String") {
    const r = concatEq(a, b); if (r) return r;
  }
  if (a.id > b.id) [a, b] = [b, a];
  return mk("eq", "Bool", [a, b]);
};
const parts = (t) => (t.op === "concat" ? t.args : t.op === "cs" && t.val === "" ? [] : [t]);
// strip common prefix/suffix of two concatenations
const concatEq = (a, b) => {
  if (a.op !== "concat" && b.op !== "concat") return null;
  let p = [...parts(a)], q = [...parts(b)], changed = false;
  const strip = (front) => {
    while (p.length && q.length) {
      const i = front ? 0 : p.length - 1, j = front ? 0 : q.length - 1;
      const x = p[i], y = q[j];
      if (x === y) { p.splice(i, 1); q.splice(j, 1); changed = true; continue; }
      if (x.op === "cs" && y.op === "cs") {
        const n = Math.min(x.val.length, y.val.length);
        const xs = front ? x.val.slice(0, n) : x.val.slice(x.val.length - n), ys = front ? y.val.slice(0, n) : y.val.slice(y.val.length - n);
        if (xs !== ys) return false;
        const xr = front ? x.val.slice(n) : x.val.slice(0, x.val.length - n), yr = front ? y.val.slice(n) : y.val.slice(0, y.val.length - n);
        p.splice(i, 1, ...(xr ? [str(xr)] : [])); q.splice(j, 1, ...(yr ? [str(yr)] : [])); changed = true; continue;
      }
      break;
    }
    return true;
  };
  if (!strip(true) || !strip(false)) return FALSE;
  if (!changed) return null;
  return eq(concat(...p), concat(...q));
};
export const distinct = (a, b) => not(eq(a, b));

// ---------------------------------------------------------------- arithmetic
const constNum = (t) => t.op === "ci" || t.op === "cr";
const mkNum = (sort, a, b) => (sort === "Int" && b === 1n ? int(a) : sort === "Int" ? real(a, b) : real(a, b));
export const add = (...xs) => {
  xs = xs.flatMap((x) => (x.op === "add" ? x.args : [x]));
  const sort = xs.some((x) => x.sort === "Real") ? "Real" : "Int";
  if (sort === "Real") xs = xs.map(toReal);
  let ca = 0n, cb = 1n; const coef = new Map();
  const put = (t, k) => coef.set(t, (coef.get(t) ?? 0n) + k);
  for (const x of xs) {
    if (constNum(x)) { const [a, b] = ratOf(x); ca = ca * b + a * cb; cb *= b; }
    else if (x.op === "mul" && x.args[0].op === "ci" && x.args.length === 2) put(x.args[1], x.args[0].val);
    else put(x, 1n);
  }
  const out = []; for (const [t, k] of coef) { if (k === 0n) continue; out.push(k === 1n ? t : mk("mul", sort, [sort === "Real" ? int(k) : int(k), t])); }
  out.sort((a, b) => a.id - b.id);
  if (ca !== 0n || out.length === 0) out.push(sort === "Int" ? int(ca / cb) : real(ca, cb));
  return out.length === 1 ? out[0] : mk("add", sort, out);
};
export const mul = (a, b) => {
  if (constNum(b)) [a, b] = [b, a];
  if (constNum(a)) {
    const [n, d] = ratOf(a);
    if (n === 0n) return a.sort === b.sort || b.sort === "Int" ? a : real(0n);
    if (n === 1n && d === 1n) return a.sort === "Real" ? toReal(b) : b;
    if (constNum(b)) { const [m, e] = ratOf(b); return a.sort === "Int" && b.sort === "Int" ? int(n * m) : real(n * m, d * e); }
    if (b.op === "add") return add(...b.args.map((x) => mul(a, x)));
    if (b.op === "mul" && b.args[0].op === "ci" && a.op === "ci") return mul(int(n * b.args[0].val), b.args[1]);
  }
  const [x, y] = num2(a, b); return mk("mul", x.sort, [x, y]);
};
export const neg = (a) => mul(int(-1), a);
export const sub = (a, b) => add(a, neg(b));
export const div = (a, b) => { if (constNum(a) && constNum(b)) { const [n, d] = ratOf(a), [m, e] = ratOf(b); if (m !== 0n) { const r = real(n * e, d * m); const [p, q] = ratOf(r); return q === 1n ? int(p) : r; } } return mk("div", "Real", [toReal(a), toReal(b)]); };
export const idiv = (a, b) => a.op === "ci" && b.op === "ci" && b.val > 0n ? int((a.val - (((a.val % b.val) + b.val) % b.val)) / b.val) : mk("idiv", "Int", [a, b]); // floor for positive divisor
export const imod = (a, b) => a.op === "ci" && b.op === "ci" && b.val > 0n ? int(((a.val % b.val) + b.val) % b.val) : mk("imod", "Int", [a, b]);
const cmp = (a, b) => { const [n, d] = ratOf(a), [m, e] = ratOf(b); const x = n * e, y = m * d; return x < y ? -1 : x > y ? 1 : 0; };
export const lt = (a, b) => {
  if (constNum(a) && constNum(b)) return bool(cmp(a, b) < 0); if (a === b) return FALSE;
  const d = sub(a, b); if (constNum(d)) return bool(cmp(d, int(0)) < 0);
  if (a.op === "strlen" && b.op === "ci" && b.val <= 0n) return FALSE;
  if (b.op === "strlen" && a.op === "ci" && a.val < 0n) return TRUE;
  if (a.sort === "Int" && b.sort === "Int") { // canonical: const < (combination with positive leading coefficient)
    const e = sub(b, a); const ts = e.op === "add" ? e.args : [e]; const c = ts.at(-1).op === "ci" ? ts.at(-1).val : 0n; const t = sub(e, int(c));
    const lead = t.op === "add" ? t.args[0] : t; const negv = lead.op === "mul" && lead.args[0].op === "ci" && lead.args[0].val < 0n;
    if (!negv) return ltC(-c, t); // t > -c
    return not(ltC(c - 1n, neg(t))); // -t' > -c  <=>  t' < c  <=>  not (t' > c-1)
  }
  const [x, y] = num2(a, b); return mk("lt", "Bool", [x, y]);
};
const ltC = (k, t) => { // k < t
  if (k < 0n && (t.op === "add" ? t.args : [t]).every((x) => nonNegLen(x))) return TRUE;
  if (t.op === "strlen") { if (k < 0n) return TRUE; if (k === 0n) return not(eq(t.args[0], str(""))); }
  return mk("lt", "Bool", [int(k), t]);
};
export const le = (a, b) => {
  if (constNum(a) && constNum(b)) return bool(cmp(a, b) <= 0); if (a === b) return TRUE;
  const d = sub(a, b); if (constNum(d)) return bool(cmp(d, int(0)) <= 0);
  return not(lt(b, a));
};
export const gt = (a, b) => lt(b, a);
export const ge = (a, b) => le(b, a);
export const min = (a, b) => ite(le(a, b), a, b);
export const max = (a, b) => ite(le(a, b), b, a);

// ---------------------------------------------------------------- strings
export const concat = (...xs) => {
  const out = [];
  for (const x of xs.flatMap(parts)) { const l = out[out.length - 1]; if (x.op === "cs" && l && l.op === "cs") out[out.length - 1] = str(l.val + x.val); else out.push(x); }
  return out.length === 0 ? str("") : out.length === 1 ? out[0] : mk("concat", "String", out);
};
export const strlen = (s) => s.op === "cs" ? int(s.val.length) : s.op === "concat" ? add(...s.args.map(strlen)) : s.op === "ite" && (s.args[1].op === "cs" && s.args[2].op === "cs") ? ite(s.args[0], strlen(s.args[1]), strlen(s.args[2])) : mk("strlen", "Int", [s]);
// n - l is a non-negative combination of lengths
const lenTerms = (t) => (t.op === "add" ? t.args : [t]);
const nonNegLen = (x) => x.op === "ci" ? x.val >= 0n : x.op === "strlen" || (x.op === "mul" && x.args[0].op === "ci" && x.args[0].val >= 0n && x.args[1].op === "strlen");
const hasLen = (n, l) => { if (l.op === "ci") return false; const d = sub(n, l); return lenTerms(n).includes(l) && lenTerms(d).every(nonNegLen); };
const geConst = (n, k) => { if (n.op === "ci") return n.val >= k && n.val > 0n && k > 0n; const d = sub(n, int(k)); return lenTerms(d).every(nonNegLen); };
export const substr = (s, i, n) => {
  if (s.op === "cs" && i.op === "ci" && n.op === "ci") { const a = Number(i.val), k = Number(n.val); return str(a < 0 || k <= 0 ? "" : s.val.slice(a, a + k)); }
  if (i.op === "ci" && i.val === 0n && n === strlen(s)) return s;
  if (n.op === "ci" && n.val <= 0n) return str("");
  if (s.op === "concat") { // split at boundaries that are syntactically inside the range
    const a0 = s.args[0], l0 = strlen(a0);
    if (i.op !== "ci" && hasLen(i, l0)) return substr(concat(...s.args.slice(1)), sub(i, l0), n);
    if (i.op === "ci" && i.val === 0n && (a0.op === "cs" ? geConst(n, BigInt(a0.val.length)) : hasLen(n, l0))) return concat(a0, substr(concat(...s.args.slice(1)), i, sub(n, l0)));
  }
  // strip known prefix
  if (s.op === "concat" && i.op === "ci" && s.args[0].op === "cs" && i.val >= BigInt(s.args[0].val.length) && i.val > 0n) {
    const L = s.args[0].val.length; return substr(concat(...s.args.slice(1)), int(i.val - BigInt(L)), n);
  }
  if (s.op === "concat" && i.op === "ci" && i.val === 0n && n.op === "ci" && s.args[0].op === "cs" && n.val <= BigInt(s.args[0].val.length)) return str(s.args[0].val.slice(0, Number(n.val)));
  return mk("substr", "String", [s, i, n]);
};
export const at = (s, i) => substr(s, i, int(1));
export const prefixof = (p, s) => {
  if (p === s || (p.op === "cs" && p.val === "")) return TRUE;
  if (p.op === "cs" && s.op === "cs") return bool(s.val.startsWith(p.val));
  if (p.op === "cs" && s.op === "concat" && s.args[0].op === "cs") { const h = s.args[0].val; if (h.length >= p.val.length) return bool(h.startsWith(p.val)); if (!p.val.startsWith(h)) return FALSE; return prefixof(str(p.val.slice(h.length)), concat(...s.args.slice(1))); }
  if (s.op === "concat" && s.args[0] === p) return TRUE;
  return mk("prefixof", "Bool", [p, s]);
};
export const suffixof = (p, s) => {
  if (p === s || (p.op === "cs" && p.val === "")) return TRUE;
  if (p.op === "cs" && s.op === "cs") return bool(s.val.endsWith(p.val));
  if (p.op === "cs" && s.op === "concat" && s.args.at(-1).op === "cs") { const h = s.args.at(-1).val; if (h.length >= p.val.length) return bool(h.endsWith(p.val)); if (!p.val.endsWith(h)) return FALSE; return suffixof(str(p.val.slice(0, p.val.length - h.length)), concat(...s.args.slice(0, -1))); }
  if (s.op === "concat" && s.args.at(-1) === p) return TRUE;
  return mk("suffixof", "Bool", [p, s]);
};
export const contains = (s, p) => {
  if (p === s || (p.op === "cs" && p.val === "")) return TRUE;
  if (p.op === "cs" && s.op === "cs") return bool(s.val.includes(p.val));
  if (s.op === "concat") { if (s.args.some((a) => a === p)) return TRUE; if (p.op === "cs") { if (s.args.some((a) => a.op === "cs" && a.val.includes(p.val))) return TRUE; if (p.val.length === 1) return or(...s.args.map((a) => contains(a, p))); } }
  if (s.op === "substr" && p.op === "cs" && s.args[0].op === "cs" && !s.args[0].val.includes(p.val)) return FALSE;
  return mk("contains", "Bool", [s, p]);
};
export const indexof = (s, p, i) => {
  if (s.op === "cs" && p.op === "cs" && i.op === "ci") { const n = Number(i.val); return int(n < 0 || n > s.val.length ? -1 : s.val.indexOf(p.val, n)); }
  return mk("indexof", "Int", [s, p, i]);
};
export const strreplace = (s, p, r) => s.op === "cs" && p.op === "cs" && r.op === "cs" ? str(s.val.replace(p.val, () => r.val)) : mk("replace", "String", [s, p, r]);
export const strreplaceAll = (s, p, r) => {
  if (p.op === "cs" && r.op === "cs" && s.op === "cs") return str(s.val.replaceAll(p.val, () => r.val));
  if (p.op === "cs" && p.val.length === 1 && s.op === "concat") return concat(...s.args.map((a) => strreplaceAll(a, p, r)));
  return mk("replace_all", "String", [s, p, r]);
};
export const strlt = (a, b) => a.op === "cs" && b.op === "cs" ? bool(a.val < b.val) : a === b ? FALSE : mk("strlt", "Bool", [a, b]);
export const toCode = (s) => s.op === "cs" ? int(s.val.length === 1 ? s.val.charCodeAt(0) : -1) : mk("to_code", "Int", [s]);
export const fromCode = (n) => n.op === "ci" ? str(String.fromCharCode(Number(n.val))) : mk("from_code", "String", [n]);
export const intToStr = (n) => n.op === "ci" ? str(n.val.toString()) : ite(lt(n, int(0)), concat(str("-"), mk("from_int", "String", [neg(n)])), mk("from_int", "String", [n]));
export const strToInt = (s) => s.op === "cs" ? int(/^[0-9]+$/.test(s.val) ? BigInt(s.val) : -1n) : mk("to_int_s", "Int", [s]);
// regular languages
export const re = {
  none: () => mk("re.none", "RegLan"), all: () => mk("re.all", "RegLan"), allchar: () => mk("re.allchar", "RegLan"),
  lit: (s) => mk("re.lit", "RegLan", [str(s)]),
  range: (a, b) => a === b ? re.lit(String.fromCodePoint(a)) : mk("re.range", "RegLan", [str(String.fromCodePoint(a)), str(String.fromCodePoint(b))]),
  cat: (...xs) => { xs = xs.filter((x) => !(x.op === "re.lit" && x.args[0].val === "")); return xs.length === 0 ? re.lit("") : xs.length === 1 ? xs[0] : mk("re.++", "RegLan", xs); },
  union: (...xs) => { xs = xs.filter((x) => x.op !== "re.none"); return xs.length === 0 ? re.none() : xs.length === 1 ? xs[0] : mk("re.union", "RegLan", xs); },
  inter: (...xs) => xs.length === 1 ? xs[0] : mk("re.inter", "RegLan", xs),
  star: (x) => mk("re.*", "RegLan", [x]), plus: (x) => mk("re.+", "RegLan", [x]), opt: (x) => mk("re.opt", "RegLan", [x]),
  diff: (a, b) => mk("re.diff", "RegLan", [a, b]),
  comp: (x) => mk("re.comp", "RegLan", [x]),
  loop: (x, lo, hi) => mk("re.loop", "RegLan", [x], lo + "," + hi),
};
export const inRe = (s, r, jsTest) => {
  if (s.op === "cs" && jsTest) return bool(jsTest(s.val));
  if (r.op === "re.all") return TRUE; if (r.op === "re.none") return FALSE;
  if (r.op === "re.lit") return eq(s, r.args[0]);
  if (s.op === "cs") return bool(L.matches(r, s.val));
  if (r.op === "re.++" && r.args.length === 2 && r.args[1].op === "re.all" && r.args[0].op === "re.lit") return prefixof(r.args[0].args[0], s);
  if (r.op === "re.++" && r.args.length === 2 && r.args[0].op === "re.all" && r.args[1].op === "re.lit") return suffixof(r.args[1].args[0], s);
  if (r.op === "re.++" && r.args.length === 3 && r.args[0].op === "re.all" && r.args[2].op === "re.all" && r.args[1].op === "re.lit") return contains(s, r.args[1].args[0]);
  return mk("in_re", "Bool", [s, r]);
};

// ---------------------------------------------------------------- printing
const esc = (s) => { let o = '"'; for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i), ch = s[i]; if (ch === '"') o += '""'; else if (c < 32 || c > 126 || ch === "\\") o += `\\u{${c.toString(16)}}`; else o += ch; } return o + '"'; };
const sym = (n) => (/^[A-Za-z_$.!@%&*+\-~^<>=?/][A-Za-z0-9_$.!@%&*+\-~^<>=?/]*$/.test(n) ? n : "|" + n.replace(/[|\\]/g, "_") + "|");
const OPS = { not: "not", and: "and", or: "or", ite: "ite", eq: "=", add: "+", mul: "*", div: "/", idiv: "div", imod: "mod", lt: "<", concat: "str.++", strlen: "str.len", substr: "str.substr", prefixof: "str.prefixof", suffixof: "str.suffixof", contains: "str.contains", indexof: "str.indexof", replace: "str.replace", replace_all: "str.replace_all", strlt: "str.<", to_code: "str.to_code", from_code: "str.from_code", from_int: "str.from_int", to_int_s: "str.to_int", to_real: "to_real", to_int: "to_int", in_re: "str.in_re", "re.++": "re.++", "re.union": "re.union", "re.inter": "re.inter", "re.*": "re.*", "re.+": "re.+", "re.opt": "re.opt", "re.comp": "re.comp", "re.diff": "re.diff", "re.range": "re.range", "re.lit": "str.to_re" };
const atom = (t) => {
  switch (t.op) {
    case "cb": return t.val ? "true" : "false";
    case "ci": return t.val < 0n ? `(- ${-t.val})` : String(t.val);
    case "cr": { const [a, b] = ratOf(t); const n = a < 0n ? `(- ${-a}.0)` : `${a}.0`; return b === 1n ? n : `(/ ${n} ${b}.0)`; }
    case "cs": return esc(t.val);
    case "var": return sym(t.val);
    case "re.none": return "re.none"; case "re.all": return "re.all"; case "re.allchar": return "re.allchar";
  }
  return null;
};
export const script = (asserts, getValues = []) => {
  const decl = new Map(), count = new Map(), order = [];
  const visit = (t) => {
    const c = count.get(t) ?? 0; count.set(t, c + 1); if (c > 0) return;
    if (t.op === "var") decl.set(t.val, `(declare-const ${sym(t.val)} ${t.sort})`);
    if (t.op === "uf") decl.set(t.val + "/" + t.args.map((a) => a.sort), `(declare-fun ${sym(t.val)} (${t.args.map((a) => a.sort).join(" ")}) ${t.sort})`);
    for (const a of t.args) visit(a);
    order.push(t);
  };
  for (const a of asserts) visit(a);
  for (const a of getValues) visit(a);
  const names = new Map(); const lines = [];
  const ref = (t) => names.get(t) ?? atom(t) ?? body(t);
  const body = (t) => {
    if (t.op === "uf") return t.args.length ? `(${sym(t.val)} ${t.args.map(ref).join(" ")})` : sym(t.val);
    if (t.op === "re.loop") { const [lo, hi] = t.val.split(","); return hi === "" ? `(re.++ ((_ re.loop ${lo} ${lo}) ${ref(t.args[0])}) (re.* ${ref(t.args[0])}))` : `((_ re.loop ${lo} ${hi}) ${ref(t.args[0])})`; }
    if (t.op === "mul") return `(* ${t.args.map((a) => (t.sort === "Real" && a.sort === "Int" ? ref(toReal(a)) : ref(a))).join(" ")})`;
    return `(${OPS[t.op] ?? (() => { throw new Error("no SMT op " + t.op); })()} ${t.args.map(ref).join(" ")})`;
  };
  for (const t of order) if (!atom(t) && count.get(t) > 1 && t.sort !== "RegLan" && !(t.op === "uf" && t.args.length === 0)) { const b = body(t); const n = `_d${t.id}`; lines.push(`(define-fun ${n} () ${t.sort} ${b})`); names.set(t, n); }
  const usesVal = [...order].some((t) => t.sort === "Val");
  return ["(set-logic ALL)", ...(usesVal ? ["(declare-sort Val 0)"] : []), ...decl.values(), ...lines, ...asserts.map((a) => `(assert ${ref(a)})`), "(check-sat)", ...(getValues.length ? [`(get-value (${getValues.map(ref).join(" ")}))`] : [])].join("\n") + "\n";
};

// ---------------------------------------------------------------- solving
export const stats = { queries: 0, ms: 0, by: {} };
const SOLVERS = {
  z3: (s, ms) => ["z3-new", ["-in", `-T:${Math.max(1, Math.ceil(ms / 1000))}`, `-t:${ms}`], s],
  cvc5: (s, ms) => ["cvc5", ["--lang=smt2.6", "--strings-exp", "--quiet", `--tlimit=${ms}`], "(set-option :produce-models true)\n" + s],
  z3old: (s, ms) => ["z3", ["-in", `-T:${Math.max(1, Math.ceil(ms / 1000))}`, `-t:${ms}`], s],
};
const cache = new Map();
export const runSolver = (name, s, ms) => {
  const [cmd, args, input] = SOLVERS[name](s, ms);
  const t0 = process.hrtime.bigint();
  const r = spawnSync(cmd, args, { input, timeout: ms + 2000, maxBuffer: 1 << 26, encoding: "utf8", killSignal: "SIGKILL" });
  const dt = Number(process.hrtime.bigint() - t0) / 1e6;
  stats.queries++; stats.ms += dt;
  const b = (stats.by[name] ??= { queries: 0, ms: 0, unsat: 0, sat: 0, unknown: 0 }); b.queries++; b.ms += dt;
  const out = r.stdout ?? ""; const first = out.trim().split("\n")[0] ?? "";
  const res = first === "unsat" ? "unsat" : first === "sat" ? "sat" : "unknown"; b[res]++;
  if (res === "unknown" && /error/i.test(out + r.stderr) && !/timeout|canceled|interrupted/i.test(out)) stats.lastError = (out + r.stderr).slice(0, 400);
  return { res, out };
};
// feasibility: quick; "unknown" counts as feasible
// ---------------------------------------------------------------- rewriting with known facts
const BUILD = { not: (a) => not(a), and: (...a) => and(...a), or: (...a) => or(...a), ite, eq, add: (...a) => add(...a), mul, div, idiv, imod, lt, concat: (...a) => concat(...a), strlen, substr, prefixof, suffixof, contains, indexof, replace: strreplace, replace_all: strreplaceAll, strlt, to_code: toCode, from_code: fromCode, to_int_s: strToInt, to_real: toReal, to_int: toInt, in_re: (a, r) => inRe(a, r) };
const rebuild = (t, map, memo) => {
  const hit = map.get(t);
  if (hit) { if (hit === t || isConst(hit)) return hit; const busy = (memo.busy ??= new Set()); if (busy.has(t)) return t; busy.add(t); try { return rebuild(hit, map, memo); } finally { busy.delete(t); } }
   if (t.args.length === 0 || t.sort === "RegLan") return t;
  let r = memo.get(t); if (r) return r;
  let ch = false; const as = t.args.map((a) => { const b = rebuild(a, map, memo); if (b !== a) ch = true; return b; });
  r = !ch ? t : BUILD[t.op] ? BUILD[t.op](...as) : mk(t.op, t.sort, as, t.val);
  if (r.op === "indexof" && r.args[0].op === "concat" && r.args[1].op === "cs" && r.args[1].val.length === 1 && r.args[2] === ZERO) {
    const as = r.args[0].args, c = contains(as[0], r.args[1]), no = c === FALSE || map.get(c) === FALSE, yes = c === TRUE || map.get(c) === TRUE;
    if (yes) r = indexof(as[0], r.args[1], ZERO);
    else if (no) { const rest = rebuild(indexof(concat(...as.slice(1)), r.args[1], ZERO), map, memo); const in2 = rebuild(contains(concat(...as.slice(1)), r.args[1]), map, memo); if (in2 === TRUE) r = add(strlen(as[0]), rest); else if (in2 === FALSE) r = int(-1); else r = ite(in2, add(strlen(as[0]), rest), int(-1)); }
  }
  const h2 = r !== t ? map.get(r) : null; if (h2) r = h2;
  if (map.bounds && (r.op === "lt" || r.op === "eq") && (r.args[0].op === "ci" || r.args[1].op === "ci")) { const [c, x] = r.args[0].op === "ci" ? r.args : [r.args[1], r.args[0]]; const bd = map.bounds.get(x); if (bd) { if (r.op === "lt" && r.args[0] === c) { if (bd.lo !== undefined && c.val < bd.lo) r = TRUE; else if (bd.hi !== undefined && c.val >= bd.hi) r = FALSE; } else if (r.op === "eq") { if (bd.lo !== undefined && c.val < bd.lo || bd.hi !== undefined && c.val > bd.hi) r = FALSE; } } }
  memo.set(t, r); return r;
};
const unitOf = (f, map) => { // learn a substitution from a formula; returns true when it is a unit
  { const n = f.op === "not", a = n ? f.args[0] : f; if (a.op === "lt" && a.args[0].op === "ci") { map.bounds ??= new Map(); const b = map.bounds.get(a.args[1]) ?? {}; const k = a.args[0].val; if (!n) { if (b.lo === undefined || k + 1n > b.lo) b.lo = k + 1n; } else if (b.hi === undefined || k < b.hi) b.hi = k; map.bounds.set(a.args[1], b); } }
  if (f.op === "not") { const a = f.args[0]; if (a.op === "or" || a.op === "and") return false; map.set(a, FALSE); return true; }
  if (f.op === "or" || f.op === "and" || f.op === "ite" || isConst(f)) return false;
  if (f.op === "eq") { const [a, b] = f.args; if (isConst(b) && !isConst(a)) { if (a.sort === "Bool") return false; map.set(a, b); map.set(f, TRUE); return true; } if (isConst(a) && !isConst(b)) { map.set(b, a); map.set(f, TRUE); return true; } if (a.sort === "Bool") return false; const [lo, hi] = a.id < b.id ? [a, b] : [b, a]; if (hi.op === "var" || hi.op === "uf" || hi.op === "strlen" || hi.op === "substr") map.set(hi, lo); else if (lo.op === "strlen" || lo.op === "substr") map.set(lo, hi); }
  map.set(f, TRUE);
  if ((f.op === "prefixof" || f.op === "suffixof") && f.args[0].op === "cs" && f.args[0].val !== "") { const c = contains(f.args[1], f.args[0]); if (!isConst(c)) map.set(c, TRUE); map.set(eq(f.args[1], str("")), FALSE); map.set(lt(int(0), strlen(f.args[1])), TRUE); }
  return true;
};
// [contradiction, formulas, goal] after propagating unit facts
export const saturate = (pc, goal) => {
  const map = new Map(); const units = []; let rest = pc.flatMap((f) => (f.op === "and" ? f.args : [f]));
  for (let round = 0; round < 6; round++) {
    const memo = new Map(); let learnt = false; const next = [];
    for (const f of rest) { let g = round === 0 ? f : rebuild(f, map, memo); if (g === FALSE) return { contra: true }; if (g === TRUE) continue; for (const x of g.op === "and" ? g.args : g.op === "not" && g.args[0].op === "or" ? g.args[0].args.map(not) : [g]) { if (map.get(x) === TRUE || (x.op === "not" && map.get(x.args[0]) === FALSE)) { if (round > 0) continue; } if (unitOf(x, map)) { units.push(x); learnt = true; } else next.push(x); } }
    rest = next; if (!learnt) break;
  }
  const memo = new Map(); const fs = [];
  for (const f of rest) { const g = rebuild(f, map, memo); if (g === FALSE) return { contra: true }; if (g !== TRUE) fs.push(g); }
  const g = goal ? rebuild(goal, map, memo) : null;
  // unit formulas themselves, with their arguments (not the whole) rewritten
  const us = [];
  for (const u of units) { const a = u.op === "not" ? u.args[0] : u; const key = a.op === "eq" ? (isConst(a.args[1]) ? a.args[0] : isConst(a.args[0]) ? a.args[1] : null) : null;
    let r; if (key && u.op !== "not") { const as = key.args.map((x) => rebuild(x, map, memo)); const k2 = as.every((x, n) => x === key.args[n]) ? key : BUILD[key.op] ? BUILD[key.op](...as) : mk(key.op, key.sort, as, key.val); r = eq(k2, map.get(key)); }
    else if (u.op === "eq") r = u;
    else { const as = a.args.map((x) => (x.sort === "RegLan" ? x : rebuild(x, map, memo))); r = a.args.length === 0 || as.every((x, n) => x === a.args[n]) ? a : BUILD[a.op] ? BUILD[a.op](...as) : mk(a.op, a.sort, as, a.val); if (u.op === "not") r = not(r); }
    if (r === FALSE) return { contra: true }; if (r !== TRUE) us.push(r); }
  return { contra: false, pc: [...new Set([...us, ...fs])], goal: g };
};
// ---------------------------------------------------------------- language reasoning
// languages a string term is known to belong to (unit facts), including those of its parts
const knownLangs = (pc) => {
  const m = new Map(); const put = (t, r) => { let l = m.get(t); if (!l) m.set(t, (l = [])); if (!l.includes(r)) l.push(r); };
  const atomL = (f) => f.op === "in_re" ? [f.args[0], f.args[1]] : f.op === "prefixof" && f.args[0].op === "cs" ? [f.args[1], re.cat(re.lit(f.args[0].val), re.all())] : f.op === "suffixof" && f.args[0].op === "cs" ? [f.args[1], re.cat(re.all(), re.lit(f.args[0].val))] : f.op === "contains" && f.args[1].op === "cs" ? [f.args[0], re.cat(re.all(), re.lit(f.args[1].val), re.all())] : f.op === "eq" && f.args[0].sort === "String" && f.args[0].op === "cs" ? [f.args[1], re.lit(f.args[0].val)] : f.op === "eq" && f.args[0].sort === "String" && f.args[1].op === "cs" ? [f.args[0], re.lit(f.args[1].val)] : null;
  for (const f of pc) { const n = f.op === "not"; const a = atomL(n ? f.args[0] : f); if (a) put(a[0], n ? re.comp(a[1]) : a[1]); else if (f.op === "lt" && f.args[0].op === "ci" && f.args[0].val === 0n && f.args[1].op === "strlen") put(f.args[1].args[0], re.plus(re.allchar())); }
  const lang = (t, d = 0) => { if (t.op === "cs") return [re.lit(t.val)]; const own = m.get(t) ?? []; if (d > 6) return own.length ? own : [re.all()]; let s = [];
    if (t.op === "concat") s = [re.cat(...t.args.map((a) => inter(lang(a, d + 1))))];
    else if (t.op === "ite") s = [re.union(inter(lang(t.args[1], d + 1)), inter(lang(t.args[2], d + 1)))];
    else if (t.op === "from_int") s = [re.plus(re.range(48, 57))];
    else if (t.op === "substr" && d < 3) { const l = lang(t.args[0], d + 1).map((r) => alphabetOf(r)).filter((r) => r); if (l.length) s = l.map((r) => re.star(r)); if (t.args[2].op === "ci" && t.args[2].val === 1n) s.push(re.opt(re.allchar())); }
    return [...own, ...s]; };
  return { lang, atomL, own: m };
};
const inter = (ls) => (ls.length === 0 ? re.all() : re.inter(...ls));
// characters that words of a language may contain (over-approximation; null when that is every character)
const alphaCache = new Map();
const alphabetOf = (r) => {
  if (alphaCache.has(r)) return alphaCache.get(r); const A = r.args; let v = null;
  const un = (xs) => { const o = []; for (const x of xs) { if (x.op === "re.lit" && x.args[0].val === "") continue; const y = alphabetOf(x); if (!y) return null; if (y.op !== "re.none") o.push(y); } return o.length ? re.union(...o) : re.none(); };
  switch (r.op) {
    case "re.none": v = r; break; case "re.range": v = r; break; case "re.lit": v = A[0].val.length === 0 ? re.none() : re.union(...[...new Set(A[0].val.split(""))].map((c) => re.range(c.charCodeAt(0), c.charCodeAt(0)))); break;
    case "re.++": case "re.union": v = un(A); break; case "re.*": case "re.+": case "re.opt": case "re.loop": v = un([A[0]]); break;
    case "re.inter": for (const a of A) { const y = alphabetOf(a); if (y) v = v ? re.inter(v, y) : y; } break;
    case "re.diff": v = A[0].op === "re.allchar" ? r : alphabetOf(A[0]); break;
  }
  alphaCache.set(r, v); return v;
};
// decide membership atoms of `fs` from the languages known for their subjects; returns the decided literals
const decideLangs = (pc, atomsOf) => {
  const k = knownLangs(pc); const out = []; const seen = new Set();
  const visit = (f) => { if (seen.has(f)) return; seen.add(f); if (f.sort !== "Bool") return; const a = k.atomL(f); if (a) { const ls = k.lang(a[0]); if (ls.length) { if (L.included(ls, a[1]) === true) out.push(f); else if (L.disjoint(ls, a[1]) === true) out.push(not(f)); } return; } if (["and", "or", "not", "ite", "eq"].includes(f.op)) f.args.forEach(visit); };
  atomsOf.forEach(visit);
  const seenT = new Set(); const terms = (t) => { if (seenT.has(t) || t.sort === "RegLan") return; seenT.add(t); if (t.op === "indexof" && t.args[0].op === "concat" && t.args[1].op === "cs" && t.args[1].val.length === 1 && t.args[2] === ZERO) { for (const a of t.args[0].args) { const c = contains(a, t.args[1]); if (isConst(c)) { if (c === TRUE) break; continue; } visit(c); break; } } t.args.forEach(terms); };
  for (const f of pc) terms(f); atomsOf.forEach(terms);
  return out;
};
// do the languages known for some term (or for two equal terms) exclude each other?
const langClash = (pc) => {
  const k = knownLangs(pc); const check = (ls) => ls.length > 1 && L.disjoint(ls.slice(0, -1), ls.at(-1)) === true;
  for (const t of k.own.keys()) if (check(k.lang(t))) return true;
  for (const f of pc) if (f.op === "eq" && f.args[0].sort === "String" && f.args[0].op !== "cs" && f.args[1].op !== "cs") { const a = k.lang(f.args[0]), b = k.lang(f.args[1]); if (a.length && b.length && check([...a, ...b])) return true; }
  return false;
};
// saturate, letting language facts decide membership atoms
export const saturateL = (pc, goal) => {
  let sg = saturate(pc, goal);
  if (!sg.contra && langClash(sg.pc)) return { contra: true };
  for (let n = 0; n < 3 && !sg.contra && sg.goal !== TRUE; n++) {
    const isUnit = (f) => !(f.op === "or" || f.op === "ite" || f.op === "eq" && f.args[0].sort === "Bool");
    const cl = sg.pc.filter((f) => !isUnit(f)); if (sg.goal) cl.push(sg.goal);
    // a disjunctive goal may assume the negation of its other alternatives
    const lits = decideLangs(sg.pc, cl).filter((x) => !sg.pc.includes(x)); if (lits.length === 0) break;
    sg = saturate([...sg.pc, ...lits], sg.goal); if (!sg.contra && langClash(sg.pc)) return { contra: true };
  }
  return sg;
};
// formulas connected to `goal` through shared atoms (variables and maximal uninterpreted applications)
const atomCache = new Map();
const atoms = (t) => { let s = atomCache.get(t); if (s) return s; s = new Set(); if (t.op === "var" || t.op === "uf") s.add(t); else for (const a of t.args) for (const v of atoms(a)) s.add(v); atomCache.set(t, s); return s; };
const cone = (pc, goal, hops = Infinity) => {
  const keep = new Set(); const seen = new Set(atoms(goal));
  for (let n = 0; n < hops; n++) { let add = []; for (const p of pc) { if (keep.has(p)) continue; const s = atoms(p); let hit = s.size === 0; for (const v of s) if (seen.has(v)) { hit = true; break; } if (hit) { keep.add(p); add.push(s); } } if (add.length === 0) break; for (const s of add) for (const v of s) seen.add(v); }
  return pc.filter((p) => keep.has(p));
};
// may the conjunction hold, given that it held before its last conjunct was added? ("false" is definite)
export const feasible = (pc) => {
  const f = and(...pc); if (f === TRUE) return true; if (f === FALSE) return false;
  const sat = saturateL(pc, null); if (sat.contra) return false;
  const c0 = pc[pc.length - 1]; const sg = saturateL(pc.slice(0, -1), c0); if (sg.contra || sg.goal === FALSE) return false; if (sg.goal === TRUE) return true;
  const c = sg.goal, rest = sg.pc;
  const near = cone(rest, c, 2), mid = cone(rest, c);
  const sets = [near]; if (mid.length !== near.length) sets.push(mid);
  for (let n = 0; n < sets.length; n++) {
    const s = script([...sets[n], c]); let v = cache.get(s);
    if (v === undefined) { let r = runSolver("z3", s, 300).res; if (r === "unknown" && n === 0) r = runSolver("cvc5", s, 400).res; v = r !== "unsat"; cache.set(s, v); if (r === "unknown" && n > 0) return true; }
    if (!v) return false;
  }
  return true;
};
export const consistent = (pc, ms = 3000) => { const s = script(pc); for (const n of ["z3", "cvc5"]) { const r = runSolver(n, s, ms).res; if (r === "unsat") return false; if (r === "sat") return true; } return true; };
const relevant = (pc, goal) => { // cone of influence over shared variables / uninterpreted applications
  const vars = new Map();
  const vs = (t) => { let s = vars.get(t); if (s) return s; s = new Set(); if (t.op === "var") s.add(t.val); if (t.op === "uf") s.add("@" + t.val); for (const a of t.args) for (const v of vs(a)) s.add(v); vars.set(t, s); return s; };
  const keep = new Set(); let seen = new Set(vs(goal)); let changed = true;
  while (changed) { changed = false; for (const p of pc) { if (keep.has(p)) continue; const s = vs(p); if (s.size === 0 || [...s].some((v) => seen.has(v))) { keep.add(p); for (const v of s) seen.add(v); changed = true; } } }
  return pc.filter((p) => keep.has(p));
};
export const prove = (pc, goal, { timeout = 8000, values = [] } = {}) => {
  if (goal === TRUE || pc.includes(goal)) return { res: "proved", by: "simplifier" };
  let sg = saturateL(pc, goal); if (sg.contra || sg.goal === TRUE) return { res: "proved", by: "simplifier" };
  { const s2 = saturateL([...sg.pc, not(sg.goal)], null); if (s2.contra) return { res: "proved", by: "simplifier" }; }
  if (sg.goal.op === "or") { // assume the other alternatives false
    for (const a of sg.goal.args) { const others = sg.goal.args.filter((x) => x !== a).map(not); const s2 = saturateL([...sg.pc, ...others], a); if (s2.contra || s2.goal === TRUE) return { res: "proved", by: "simplifier" }; }
  }
  const g = sg.goal, base = sg.pc;
  const rel = g === FALSE ? base : cone(base, g);
  if (g !== FALSE) for (const hops of [1, 2, 3]) { const c = cone(base, g, hops); if (c.length === rel.length) break; const q = script([...c, not(g)]); let v = cache.get("C" + q); if (v === undefined) { let r = runSolver("z3", q, 500).res; if (r === "unknown") r = runSolver("cvc5", q, 1500).res; v = r === "unsat"; cache.set("C" + q, v); } if (v) return { res: "proved", by: "z3/cvc5" }; }
  const s = script([...rel, not(g)]);
  const hit = cache.get("P" + s); if (hit && hit.res === "proved") return hit;
  let last = null, satBy = null;
  for (const [name, ms] of [["z3", Math.min(2000, timeout)], ["cvc5", timeout], ["z3", timeout], ["z3old", timeout]]) {
    const r = runSolver(name, s, ms); last = r.res;
    if (r.res === "unsat") { const v = { res: "proved", by: name }; cache.set("P" + s, v); return v; }
    if (r.res === "sat") { satBy = name; break; }
  }
  if (satBy) {
    const full = script([...pc, not(goal)], values);
    let m = runSolver(satBy, full, timeout); if (m.res === "unknown") m = runSolver(satBy === "z3" ? "cvc5" : "z3", full, timeout);
    if (m.res === "unsat") return { res: "proved", by: satBy };
    return { res: "refuted", by: satBy, model: values.length && m.res === "sat" ? parseModel(m.out, values) : null, query: s };
  }
  return { res: "unknown", by: last, query: s };
};
export const getModel = (asserts, values, timeout = 5000) => {
  const full = script(asserts, values);
  for (const n of ["z3", "cvc5"]) { const r = runSolver(n, full, timeout); if (r.res === "sat") return parseModel(r.out, values); if (r.res === "unsat") return null; }
  return null;
};
const parseSexp = (s) => {
  let i = 0; const ws = () => { while (i < s.length && /\s/.test(s[i])) i++; };
  const p = () => { ws(); if (s[i] === "(") { i++; const l = []; for (;;) { ws(); if (i >= s.length || s[i] === ")") { i++; return l; } l.push(p()); } }
    if (s[i] === '"') { let o = ""; i++; for (;;) { if (i >= s.length) break; if (s[i] === '"') { if (s[i + 1] === '"') { o += '"'; i += 2; continue; } i++; break; } o += s[i++]; } return { str: o.replace(/\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})/g, (_, a, b) => String.fromCodePoint(parseInt(a ?? b, 16))) }; }
    if (s[i] === "|") { const j = s.indexOf("|", i + 1); const o = s.slice(i, j + 1); i = j + 1; return o; }
    let o = ""; while (i < s.length && !/[\s()"]/.test(s[i])) o += s[i++]; return o; };
  return p();
};
const sval = (x) => { if (x && x.str !== undefined) return x.str; if (x === "true") return true; if (x === "false") return false; if (typeof x === "string" && /^-?[0-9.]+$/.test(x)) return Number(x); if (Array.isArray(x)) { if (x[0] === "-" && x.length === 2) return -sval(x[1]); if (x[0] === "/") return sval(x[1]) / sval(x[2]); } return typeof x === "string" ? x : JSON.stringify(x); };
const parseModel = (out, values) => {
  const i = out.indexOf("("); if (i < 0) return null;
  try { const l = parseSexp(out.slice(i)); const m = new Map(); values.forEach((v, k) => m.set(v, sval(l[k]?.[1]))); return m; } catch { return null; }
};
