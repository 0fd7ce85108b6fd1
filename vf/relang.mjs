// Decision procedures for regular languages (Brzozowski derivatives over character classes, alphabet 0..0xffff).
const MAXC = 0xffff;
let ids = 1; const tab = new Map();
const mk = (k, a, b) => { const key = k + "|" + (Array.isArray(a) ? (typeof a[0] === "object" && a[0] && a[0].id ? a.map((x) => x.id).join(",") : JSON.stringify(a)) : a && a.id ? a.id : a) + "|" + (b && b.id ? b.id : b ?? ""); let n = tab.get(key); if (!n) { n = { id: ids++, k, a, b }; tab.set(key, n); n.nul = nullable(n); } return n; };
const nullable = (n) => n.k === "eps" || n.k === "star" ? true : n.k === "cat" ? n.a.nul && n.b.nul : n.k === "or" ? n.a.some((x) => x.nul) : n.k === "and" ? n.a.every((x) => x.nul) : n.k === "not" ? !n.a.nul : false;
const NONE = mk("none"), EPS = mk("eps");
const norm = (rs) => { rs = rs.filter(([a, b]) => a <= b).sort((x, y) => x[0] - y[0]); const o = []; for (const [a, b] of rs) { const l = o[o.length - 1]; if (l && a <= l[1] + 1) l[1] = Math.max(l[1], b); else o.push([a, b]); } return o; };
const cls = (rs) => { rs = norm(rs); return rs.length ? mk("cls", rs) : NONE; };
const ANYC = cls([[0, MAXC]]);
const not = (a) => (a.k === "not" ? a.a : mk("not", a));
const ALL = not(NONE);
const cat = (a, b) => (a === NONE || b === NONE ? NONE : a === EPS ? b : b === EPS ? a : a.k === "cat" ? cat(a.a, cat(a.b, b)) : a === ALL && b === ALL ? ALL : a === ALL && b.k === "cat" && b.a === ALL ? b : mk("cat", a, b));
const star = (a) => (a === NONE || a === EPS ? EPS : a.k === "star" ? a : a === ANYC || a === ALL ? ALL : mk("star", a));
const or = (xs) => { const s = new Map(); let cl = []; const put = (x) => { if (x.k === "or") x.a.forEach(put); else if (x.k === "cls") cl.push(...x.a.map((r) => [...r])); else if (x !== NONE) s.set(x.id, x); }; xs.forEach(put); if (s.has(ALL.id)) return ALL; if (cl.length) { const c = cls(cl); s.set(c.id, c); } for (const x of s.values()) if (s.has(not(x).id)) return ALL; const l = [...s.values()].sort((a, b) => a.id - b.id); return l.length === 0 ? NONE : l.length === 1 ? l[0] : mk("or", l); };
const and = (xs) => { const s = new Map(); const put = (x) => { if (x.k === "and") x.a.forEach(put); else if (x !== ALL) s.set(x.id, x); }; xs.forEach(put); if (s.has(NONE.id)) return NONE; for (const x of s.values()) if (s.has(not(x).id)) return NONE; const l = [...s.values()].sort((a, b) => a.id - b.id); return l.length === 0 ? ALL : l.length === 1 ? l[0] : mk("and", l); };
const lit = (s) => { let r = EPS; for (let i = s.length - 1; i >= 0; i--) { const c = s.charCodeAt(i); r = cat(cls([[c, c]]), r); } return r; };
const conv = new Map();
export const fromTerm = (t) => {
  let r = conv.get(t); if (r) return r;
  const A = t.args;
  switch (t.op) {
    case "re.none": r = NONE; break; case "re.all": r = ALL; break; case "re.allchar": r = ANYC; break;
    case "re.lit": r = lit(A[0].val); break;
    case "re.range": r = cls([[A[0].val.codePointAt(0), A[1].val.codePointAt(0)]]); break;
    case "re.++": r = A.map(fromTerm).reduceRight((b, a) => cat(a, b)); break;
    case "re.union": r = or(A.map(fromTerm)); break; case "re.inter": r = and(A.map(fromTerm)); break;
    case "re.*": r = star(fromTerm(A[0])); break; case "re.+": { const x = fromTerm(A[0]); r = cat(x, star(x)); break; }
    case "re.opt": r = or([EPS, fromTerm(A[0])]); break;
    case "re.diff": { const x = fromTerm(A[0]), y = fromTerm(A[1]); r = isCls(x) && isCls(y) ? cls(minus(x === NONE ? [] : x.a, y === NONE ? [] : y.a)) : and([x, not(y)]); break; }
    case "re.comp": r = not(fromTerm(A[0])); break;
    case "re.loop": { const [lo, hi] = t.val.split(",").map(Number); const x = fromTerm(A[0]); r = t.val.endsWith(",") ? star(x) : EPS; for (let i = lo; i < hi; i++) r = or([EPS, cat(x, r)]); for (let i = 0; i < lo; i++) r = cat(x, r); break; }
    default: throw new Error("regex term " + t.op);
  }
  conv.set(t, r); return r;
};
const isCls = (x) => x.k === "cls" || x === NONE;
const minus = (a, b) => { const o = []; for (const [x, y] of a) { let p = x; for (const [u, v] of b) { if (v < p || u > y) continue; if (u > p) o.push([p, u - 1]); p = Math.max(p, v + 1); } if (p <= y) o.push([p, y]); } return o; };
const dcache = new Map();
const deriv = (n, c) => {
  if (n.k === "none" || n.k === "eps") return NONE;
  if (n.k === "cls") return n.a.some(([a, b]) => a <= c && c <= b) ? EPS : NONE;
  const key = n.id * 65536 + c; let r = dcache.get(key); if (r) return r;
  if (n.k === "cat") { r = cat(deriv(n.a, c), n.b); if (n.a.nul) r = or([r, deriv(n.b, c)]); }
  else if (n.k === "star") r = cat(deriv(n.a, c), n);
  else if (n.k === "or") r = or(n.a.map((x) => deriv(x, c)));
  else if (n.k === "and") r = and(n.a.map((x) => deriv(x, c)));
  else r = not(deriv(n.a, c));
  dcache.set(key, r); return r;
};
const bc = new Map();
const bounds = (n) => { // starts of the character classes that the first character can be distinguished by
  let r = bc.get(n.id); if (r) return r;
  const s = new Set([0]);
  if (n.k === "cls") for (const [a, b] of n.a) { s.add(a); if (b < MAXC) s.add(b + 1); }
  else if (n.k === "cat") { for (const x of bounds(n.a)) s.add(x); if (n.a.nul) for (const x of bounds(n.b)) s.add(x); }
  else if (n.k === "star" || n.k === "not") for (const x of bounds(n.a)) s.add(x);
  else if (n.k === "or" || n.k === "and") for (const y of n.a) for (const x of bounds(y)) s.add(x);
  r = [...s]; bc.set(n.id, r); return r;
};
// a shortest member of the language, null when empty, undefined when the search was given up
export const witness = (n, limit = 4000) => {
  const seen = new Set([n.id]); let q = [[n, ""]];
  for (let i = 0; i < q.length; i++) { const [x, w] = q[i]; if (x.nul) return w; if (seen.size > limit) return undefined; for (const c of bounds(x)) { const d = deriv(x, c); if (d === NONE || seen.has(d.id)) continue; if (d === ALL) return w + String.fromCharCode(c); seen.add(d.id); q.push([d, w + String.fromCharCode(c)]); } }
  return null;
};
export const matches = (t, s) => { let n = fromTerm(t); for (let i = 0; i < s.length; i++) n = deriv(n, s.charCodeAt(i)); return n.nul; };
const ic = new Map();
// language(s) of terms ls (intersection) included in r: true, false, or undefined
export const included = (ls, r) => { const n = and([...ls.map(fromTerm), not(fromTerm(r))]); let v = ic.get(n.id); if (v === undefined) { const w = witness(n); v = w === undefined ? "?" : w === null; ic.set(n.id, v); } return v === "?" ? undefined : v; };
export const disjoint = (ls, r) => { const n = and([...ls.map(fromTerm), fromTerm(r)]); let v = ic.get(n.id); if (v === undefined) { const w = witness(n); v = w === undefined ? "?" : w === null; ic.set(n.id, v); } return v === "?" ? undefined : v; };
