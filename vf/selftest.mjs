// node vf/selftest.mjs [rounds] [seed]: the term constructors, the saturation and the regular-language procedure against direct evaluation
import * as S from "./smt.mjs"; import * as L from "./relang.mjs";
const rounds = +(process.argv[2] ?? 20000); let seed = +(process.argv[3] ?? 1);
const rnd = (n) => { seed = (Math.imul(seed, 1103515245) + 12345) >>> 0; return Math.floor((seed / 4294967296) * n); };
const pick = (xs) => xs[rnd(xs.length)];
const ALPHA = ["a", "b", "-", "A", "1", "0", "\n"]; const word = (n = 4) => Array.from({ length: rnd(n) }, () => pick(ALPHA)).join("");
const V = { String: ["s0", "s1", "s2"], Int: ["i0", "i1"], Bool: ["b0"] };
const substr = (s, i, n) => (i < 0 || n <= 0 ? "" : s.slice(i, i + n));
// regular expressions with a JavaScript equivalent
const q = (c) => "\\u" + c.charCodeAt(0).toString(16).padStart(4, "0");
const rex = (d) => { const k = rnd(d > 0 ? 9 : 3);
  if (k === 0) { const w = word(3); return [S.re.lit(w), "(?:" + [...w].map(q).join("") + ")"]; }
  if (k === 1) return [S.re.range(48, 57), "[0-9]"]; if (k === 2) return [S.re.allchar(), "[^]"];
  const a = rex(d - 1), b = rex(d - 1);
  return k === 3 ? [S.re.cat(a[0], b[0]), a[1] + b[1]] : k === 4 ? [S.re.union(a[0], b[0]), `(?:${a[1]}|${b[1]})`] : k === 5 ? [S.re.star(a[0]), `(?:${a[1]})*`] : k === 6 ? [S.re.plus(a[0]), `(?:${a[1]})+`] : k === 7 ? [S.re.opt(a[0]), `(?:${a[1]})?`] : [S.re.loop(a[0], 1, 2), `(?:${a[1]}){1,2}`]; };
// a random term: [the constructed term, its value under an assignment]
const gen = (sort, d) => {
  const g = (s) => gen(s, d - 1);
  if (d <= 0 || rnd(5) === 0) {
    if (rnd(2)) { const v = pick(V[sort]); return [S.variable(v, sort), (e) => e[v]]; }
    const c = sort === "String" ? word() : sort === "Int" ? rnd(7) - 2 : rnd(2) === 1; return [sort === "String" ? S.str(c) : sort === "Int" ? S.int(c) : S.bool(c), () => c];
  }
  if (rnd(8) === 0) { const c = g("Bool"), a = g(sort), b = g(sort); return [S.ite(c[0], a[0], b[0]), (e) => (c[1](e) ? a[1](e) : b[1](e))]; }
  if (sort === "Bool") switch (rnd(11)) {
    case 0: { const a = g("Bool"); return [S.not(a[0]), (e) => !a[1](e)]; }
    case 1: { const a = g("Bool"), b = g("Bool"); return [S.and(a[0], b[0]), (e) => a[1](e) && b[1](e)]; }
    case 2: { const a = g("Bool"), b = g("Bool"); return [S.or(a[0], b[0]), (e) => a[1](e) || b[1](e)]; }
    case 3: { const s = pick(["String", "Int", "Bool"]), a = g(s), b = g(s); return [S.eq(a[0], b[0]), (e) => a[1](e) === b[1](e)]; }
    case 4: { const a = g("Int"), b = g("Int"); return [S.lt(a[0], b[0]), (e) => a[1](e) < b[1](e)]; }
    case 5: { const a = g("Int"), b = g("Int"); return [S.le(a[0], b[0]), (e) => a[1](e) <= b[1](e)]; }
    case 6: { const a = g("String"), b = g("String"); return [S.prefixof(a[0], b[0]), (e) => b[1](e).startsWith(a[1](e))]; }
    case 7: { const a = g("String"), b = g("String"); return [S.suffixof(a[0], b[0]), (e) => b[1](e).endsWith(a[1](e))]; }
    case 8: { const a = g("String"), b = g("String"); return [S.contains(a[0], b[0]), (e) => a[1](e).includes(b[1](e))]; }
    case 9: { const a = g("String"), r = rex(2), x = new RegExp("^(?:" + r[1] + ")$"); return [S.inRe(a[0], r[0]), (e) => x.test(a[1](e)) && !(a[1](e).endsWith("\n") && !new RegExp("^(?:" + r[1] + ")$(?![^])").test(a[1](e)))]; }
    default: { const a = g("String"), b = g("String"); return [S.strlt(a[0], b[0]), (e) => a[1](e) < b[1](e)]; }
  }
  if (sort === "Int") switch (rnd(7)) {
    case 0: { const a = g("Int"), b = g("Int"); return [S.add(a[0], b[0]), (e) => a[1](e) + b[1](e)]; }
    case 1: { const a = g("Int"), b = g("Int"); return [S.sub(a[0], b[0]), (e) => a[1](e) - b[1](e)]; }
    case 2: { const a = g("Int"), k = rnd(5) - 2; return [S.mul(S.int(k), a[0]), (e) => k * a[1](e) + 0]; }
    case 3: { const a = g("String"); return [S.strlen(a[0]), (e) => a[1](e).length]; }
    case 4: { const a = g("String"), b = g("String"), c = g("Int"); return [S.indexof(a[0], b[0], c[0]), (e) => { const s = a[1](e), n = c[1](e); return n < 0 || n > s.length ? -1 : s.indexOf(b[1](e), n); }]; }
    case 5: { const a = g("Int"), k = 1 + rnd(4); return [S.imod(a[0], S.int(k)), (e) => ((a[1](e) % k) + k) % k]; }
    default: { const a = g("String"); return [S.toCode(a[0]), (e) => (a[1](e).length === 1 ? a[1](e).charCodeAt(0) : -1)]; }
  }
  switch (rnd(5)) {
    case 0: case 1: { const a = g("String"), b = g("String"); return [S.concat(a[0], b[0]), (e) => a[1](e) + b[1](e)]; }
    case 2: { const a = g("String"), i = g("Int"), n = g("Int"); return [S.substr(a[0], i[0], n[0]), (e) => substr(a[1](e), i[1](e), n[1](e))]; }
    case 3: { const a = g("String"), p = pick(["a", "-", "ab"]), r = word(3); return [S.strreplaceAll(a[0], S.str(p), S.str(r)), (e) => a[1](e).split(p).join(r)]; }
    default: { const a = g("Int"); return [S.intToStr(a[0]), (e) => String(a[1](e))]; }
  }
};
// the value of a constructed term, by an evaluator of its own
const num = (x) => Number(x); const jsRe = (r) => { const A = r.args; switch (r.op) { case "re.none": return "[]"; case "re.all": return "[^]*"; case "re.allchar": return "[^]"; case "re.lit": return "(?:" + [...A[0].val].map(q).join("") + ")"; case "re.range": return `[\\u{${A[0].val.codePointAt(0).toString(16)}}-\\u{${A[1].val.codePointAt(0).toString(16)}}]`; case "re.++": return A.map(jsRe).join(""); case "re.union": return "(?:" + A.map(jsRe).join("|") + ")"; case "re.*": return `(?:${jsRe(A[0])})*`; case "re.+": return `(?:${jsRe(A[0])})+`; case "re.opt": return `(?:${jsRe(A[0])})?`; case "re.loop": { const [lo, hi] = r.val.split(","); return `(?:${jsRe(A[0])}){${lo},${hi === "undefined" || hi === "Infinity" || hi === "null" ? "" : hi}}`; } } return null; };
const member = (s, r) => { switch (r.op) { case "re.comp": return !member(s, r.args[0]); case "re.inter": return r.args.every((x) => member(s, x)); case "re.diff": return member(s, r.args[0]) && !member(s, r.args[1]); } const j = jsRe(r); if (j === null) throw new Error("regex " + r.op); return new RegExp("^(?:" + j + ")(?![^])", "u").test(s); };
const ev = (t, e) => { const a = t.args, x = (n) => ev(a[n], e); switch (t.op) {
  case "cb": case "cs": return t.val; case "ci": return num(t.val); case "cr": { const [p, r] = t.val.split("/"); return num(p) / num(r); } case "var": return e[t.val];
  case "not": return !x(0); case "and": return a.every((y) => ev(y, e)); case "or": return a.some((y) => ev(y, e)); case "ite": return x(0) ? x(1) : x(2); case "eq": return x(0) === x(1); case "lt": return x(0) < x(1);
  case "add": return a.reduce((s, y) => s + ev(y, e), 0); case "mul": return a.reduce((s, y) => s * ev(y, e), 1) + 0; case "imod": return ((x(0) % x(1)) + x(1)) % x(1); case "idiv": return Math.floor(x(0) / x(1)); case "to_real": return x(0);
  case "concat": return a.map((y) => ev(y, e)).join(""); case "strlen": return x(0).length; case "substr": return substr(x(0), x(1), x(2)); case "prefixof": return x(1).startsWith(x(0)); case "suffixof": return x(1).endsWith(x(0)); case "contains": return x(0).includes(x(1));
  case "indexof": { const s = x(0), n = x(2); return n < 0 || n > s.length ? -1 : s.indexOf(x(1), n); } case "replace_all": return x(1) === "" ? x(0) : x(0).split(x(1)).join(x(2)); case "replace": return x(0).replace(x(1), () => x(2));
  case "strlt": return x(0) < x(1); case "to_code": return x(0).length === 1 ? x(0).charCodeAt(0) : -1; case "from_code": return String.fromCharCode(x(0)); case "from_int": return x(0) < 0 ? "" : String(x(0)); case "in_re": return member(x(0), a[1]);
} throw new Error("op " + t.op); };
const env = () => ({ s0: word(), s1: word(), s2: word(), i0: rnd(7) - 2, i1: rnd(7) - 2, b0: rnd(2) === 1 });
let bad = 0; const fail = (what, e, ...ts) => { bad++; if (bad < 6) console.log("WRONG", what, JSON.stringify(e), ...ts.map((t) => (t && t.op ? S.script([t.sort === "Bool" ? t : S.eq(t, t)]).split("\n").filter((l) => /assert/.test(l)).join(" ") : String(t)))); };
let terms = 0, sats = 0, langs = 0;
for (let k = 0; k < rounds; k++) {
  const [t, f] = gen(pick(["Bool", "Bool", "String", "Int"]), 1 + rnd(4));
  for (let m = 0; m < 4; m++) { const e = env(); terms++; if (ev(t, e) !== f(e)) { fail("constructor", e, t); break; } }
  if (k % 4 === 0) { // saturation keeps the meaning of what it is given where that holds
    const e = env(), pc = []; for (let n = 0; n < 12 && pc.length < 5; n++) { const b = gen("Bool", 1 + rnd(3)); if (b[1](e) === true) pc.push(b[0]); }
    const goal = gen("Bool", 1 + rnd(3)), want = goal[1](e);
    for (const [name, sat] of [["saturate", S.saturate], ["saturateL", S.saturateL]]) { sats++; const r = sat(pc, goal[0]); if (r.contra) fail(name + " finds a contradiction", e, ...pc); else { if (ev(r.goal, e) !== want) fail(name + " changes the goal", e, goal[0], r.goal, ...pc); for (const p of r.pc ?? []) if (ev(p, e) !== true) fail(name + " adds a falsehood", e, p, ...pc); } }
  }
  if (k % 4 === 1) { const a = rex(3), b = rex(3); langs++; const A = new RegExp("^(?:" + a[1] + ")(?![^])"), B = new RegExp("^(?:" + b[1] + ")(?![^])"), inc = L.included([a[0]], b[0]), dis = L.disjoint([a[0]], b[0]);
    for (let m = 0; m < 12; m++) { const w = word(5), x = A.test(w), y = B.test(w); if (L.matches(a[0], w) !== x) fail("matches", { w }, a[1]); if (inc === true && x && !y) fail("included", { w }, a[1], b[1]); if (dis === true && x && y) fail("disjoint", { w }, a[1], b[1]); } }
}
console.log(`${terms} term values, ${sats} saturations, ${langs} pairs of languages: ${bad} wrong`); process.exit(bad ? 1 : 0);
