// Models of the JavaScript standard library used by the evaluator.
import * as S from "./smt.mjs";
import * as R from "./regex.mjs";
import { Interp, JObj, JArr, JFn, JMap, JPromise, JRegExp, JSymbol, JAny, JThrow, PathAbort, Unsupported, Cell, Scope, NORMAL, DELETED, POISON, unsupported, el, isPrim } from "./interp.mjs";
const { T, isT } = S;
const P = Interp.prototype;
const I0 = S.int(0), I1 = S.int(1);
const isFin = (x) => typeof x === "number" && Number.isFinite(x);

// ------------------------------------------------------------------ strings
P.strAt = function (t, k) { // the one-character string at a position inside t
  const c = this.lower(S.at(t, k)); if (isT(c) && t.op === "cs" && t.val.length <= 256) this.fact(S.implies(S.and(S.ge(k, I0), S.lt(k, S.strlen(t))), S.inRe(c, R.setToRe(R.norm([...new Set(t.val)].map((x) => [x.charCodeAt(0), x.charCodeAt(0)]))))));
  const h = this.homOf.get(t); if (!h || !isT(c)) return c;
  const src = this.lift(this.strAt(h.t, k)); this.fact(S.implies(S.and(S.ge(k, I0), S.lt(k, S.strlen(h.t))), h.es.reduce((z, e) => S.ite(S.inRe(src, R.setToRe(e.cs)), S.eq(c, S.str(e.rep)), z), S.eq(c, src))));
  return c;
};
P.getStrProp = function* (s, key) {
  if (key === "length") return typeof s === "string" ? s.length : this.lower(S.strlen(s));
  if (typeof key === "string" && /^(0|[1-9][0-9]*)$/.test(key)) key = Number(key);
  if (typeof key === "number") { if (typeof s === "string") return s[key]; return this.branch(S.lt(S.int(key), S.strlen(s))) ? this.strAt(s, S.int(key)) : undefined; }
  if (isT(key)) { if (key.sort !== "Int") unsupported("symbolic property of a string"); const t = this.lift(s); return this.branch(S.and(S.ge(key, I0), S.lt(key, S.strlen(t)))) ? this.strAt(t, key) : undefined; }
  return yield* this.protoGet(this.P.String, key, s);
};
const SP = R.setToRe(R.SPACE), NSP = R.setToRe(R.negate(R.SPACE));
P.trimParts = function (t) {
  const pre = S.uf("trim.pre", "String", [t]), mid = S.uf("trim.mid", "String", [t]), post = S.uf("trim.post", "String", [t]);
  this.fact(S.and(S.eq(t, S.concat(pre, mid, post)), S.inRe(pre, S.re.star(SP)), S.inRe(post, S.re.star(SP))));
  this.fact(S.or(S.and(S.eq(mid, S.str("")), S.eq(post, S.str(""))), S.inRe(mid, S.re.cat(NSP, S.re.opt(S.re.cat(S.re.all(), NSP))))));
  return { pre, mid, post };
};
const NOUP = R.setToRe([[0, 64], [91, 127]]), NOLOW = R.setToRe([[0, 96], [123, 127]]), ASCII = R.setToRe([[0, 127]]);
const caseImage = (r, up) => { // the language of the case-mapped words of an ASCII language
  const kids = () => { const k = r.args.map((a) => caseImage(a, up)); return k.includes(null) ? null : k; };
  switch (r.op) {
    case "re.lit": { const v = r.args[0].val; return /^[\x00-\x7f]*$/.test(v) ? S.re.lit(up ? v.toUpperCase() : v.toLowerCase()) : null; }
    case "re.range": { const a = r.args[0].val.codePointAt(0), b = r.args[1].val.codePointAt(0); if (b > 127) return null; const cs = []; for (let c = a; c <= b; c++) { const x = String.fromCharCode(c); cs.push(up ? x.toUpperCase() : x.toLowerCase()); } return R.setToRe(R.ofChars(cs.join(""))); }
    case "re.union": { const k = kids(); return k && S.re.union(...k); } case "re.++": { const k = kids(); return k && S.re.cat(...k); }
    case "re.*": { const k = kids(); return k && S.re.star(k[0]); } case "re.+": { const k = kids(); return k && S.re.plus(k[0]); } case "re.opt": { const k = kids(); return k && S.re.opt(k[0]); }
    case "re.loop": { const k = kids(); return k && S.re.loop(k[0], ...r.val.split(",")); }
  }
  return null;
};
P.caseMap = function (t, up) {
  if (t.op === "cs") return S.str(up ? t.val.toUpperCase() : t.val.toLowerCase());
  const nm = up ? "toUpper" : "toLower";
  if (t.op === "uf" && t.val === nm) return t;
  if (t.op === "ite") return S.ite(t.args[0], this.caseMap(t.args[1], up), this.caseMap(t.args[2], up));
  if (t.op === "concat" && t.args.some((a) => a.op === "cs" && /^[\x00-\x7f]*$/.test(a.val))) return S.concat(...t.args.map((a) => this.caseMap(a, up)));
  if (this.entailed(S.inRe(t, S.re.star(up ? NOLOW : NOUP))) === true) return t;
  const u = S.uf(nm, "String", [t]);
  this.fact(S.implies(S.inRe(t, S.re.star(up ? NOLOW : NOUP)), S.eq(u, t)));
  this.fact(S.implies(S.inRe(t, S.re.star(ASCII)), S.and(S.eq(S.strlen(u), S.strlen(t)), S.inRe(u, S.re.star(up ? NOLOW : NOUP)))));
  this.fact(S.eq(S.eq(u, S.str("")), S.eq(t, S.str(""))));
  for (const c of [...this.pc]) if (c.op === "in_re" && c.args[0] === t) { const im = caseImage(c.args[1], up); if (im) this.fact(S.inRe(u, im)); }
  return u;
};
P.intArg = function* (v, dflt) { v = this.force(v); if (v === undefined) return dflt; const n = yield* this.toNum(v); if (isT(n)) return n.sort === "Int" ? n : (this.branch(S.ge(n, I0)) ? S.toInt(n) : S.neg(S.toInt(S.neg(n)))); return Number.isNaN(n) ? 0 : Math.trunc(n); };
const clampIdx = (I, n, len) => { // relative index -> [0,len]
  if (typeof n === "number") { if (n === Infinity) return len; if (n === -Infinity) return I0; n = S.int(n); }
  if (S.isConst(n)) return S.constVal(n) >= 0 ? (n === I0 ? I0 : S.min(n, len)) : S.max(S.add(len, n), I0);
  if (I.entailed(S.ge(n, I0)) === true) return I.entailed(S.le(n, len)) === true ? n : S.min(n, len);
  return S.ite(S.lt(n, I0), S.max(S.add(len, n), I0), S.min(n, len));
};
P.strSlice = function (t, a, b) {
  if (t.op === "concat") { // cut within the text it is known to start and end with
    const f = t.args[0], l = t.args.at(-1), from = a ?? 0, nf = f.op === "cs" ? f.val.length : 0, nl = l.op === "cs" ? l.val.length : 0;
    if (typeof from === "number" && from >= 0 && from <= nf && (b === undefined || (typeof b === "number" && b < 0 && -b <= nl))) { const k = b === undefined ? 0 : -b; return S.concat(...(nf ? [S.str(f.val.slice(from)), ...t.args.slice(1, -1)] : t.args.slice(0, -1)), k ? S.str(l.val.slice(0, nl - k)) : l); }
  }
  const len = S.strlen(t); const i = clampIdx(this, a ?? 0, len), j = b === undefined ? len : clampIdx(this, b, len);
  if (i === I0 && j === len) return t;
  return S.substr(t, i, S.sub(j, i));
};
P.splitBase = function (t, sep, key) { // parts of t separated by the non-empty constant or symbolic string sep
  const mk = "split:" + t.id + ":" + sep.id; let b = this.memo.get(mk); if (b) return b;
  const len = S.uf("split.len", "Int", [t, sep]); this.fact(S.ge(len, I1)); this.fact(S.eq(S.eq(len, I1), S.not(S.contains(t, sep))));
  const I = this;
  const part = (i) => S.uf("split.part", "String", [t, sep, i]);
  b = this.newBase("split", len, (i) => {
    const p = part(i);
    if (i === I0) { I.fact(S.implies(S.prefixof(sep, t), S.eq(p, S.str("")))); I.fact(S.eq(p, S.ite(S.contains(t, sep), S.substr(t, I0, S.indexof(t, sep, I0)), t))); }
    if (S.isConst(i) && S.constVal(i) > 0) {
      // offset of part i
      const off = (n) => { if (n === 0) return I0; const o = S.uf("split.off", "Int", [t, sep, S.int(n)]); return o; };
      const n = S.constVal(i);
      for (let m = 1; m <= n; m++) {
        const prev = off(m - 1), nx = S.indexof(t, sep, prev);
        I.fact(S.eq(S.gt(len, S.int(m)), m === 1 ? S.contains(t, sep) : S.and(S.gt(len, S.int(m - 1)), S.ge(nx, I0))));
        I.fact(S.implies(S.gt(len, S.int(m)), S.and(S.eq(off(m), S.add(nx, S.strlen(sep))), S.ge(nx, prev))));
      }
      const o = off(n), nx = S.indexof(t, sep, o);
      I.fact(S.implies(S.gt(len, i), S.eq(p, S.ite(S.ge(nx, I0), S.substr(t, o, S.sub(nx, o)), S.substr(t, o, S.sub(S.strlen(t), o))))));
    }
    I.fact(S.implies(S.and(S.ge(i, I0), S.lt(i, len)), S.and(S.not(S.contains(p, sep)), S.contains(t, p))));
    if (i !== I0) { I.fact(S.implies(S.not(S.contains(t, sep)), S.TRUE)); }
    return p;
  });
  b.splitOf = { t, sep }; this.memoSet(this.memo, mk, b); return b;
};
// the number of parts of a text that was split by one character, once it is asked for, in terms of the text
P.splitFacts = function (c) {
  const n = c.op === "eq" || c.op === "lt" ? c.args.find((x) => x.op === "ci") : undefined, len = n && c.args.find((x) => x.op === "uf" && x.val === "split.len"); if (!len) return;
  const [t, sep] = len.args, k = Number(n.val); if (sep.op !== "cs" || sep.val.length !== 1 || k < 2 || k > 6 || (c.op === "lt" && c.args[0] !== n)) return;
  const mk = "split:" + t.id + ":" + sep.id, b = this.memo.get(mk); if (!b || this.memo.get(mk + c.op + k)) return; this.memoSet(this.memo, mk + c.op + k, true);
  const cc = sep.val.charCodeAt(0), no = S.re.star(R.setToRe(R.negate([[cc, cc]]))), of = (m) => { const xs = [no]; for (let i = 1; i < m; i++) xs.push(S.re.lit(sep.val), no); return xs; };
  if (c.op === "lt") { this.fact(S.eq(c, S.inRe(t, S.re.cat(...of(k), S.re.lit(sep.val), S.re.all())))); return; }
  const parts = []; for (let i = 0; i < k; i++) { if (i) parts.push(sep); parts.push(S.uf("split.part", "String", [t, sep, S.int(i)])); }
  this.fact(S.eq(c, S.inRe(t, S.re.cat(...of(k))))); this.fact(S.implies(c, S.eq(t, S.concat(...parts))));
};
P.strSplit = function* (s, sep, lim) {
  sep = this.force(sep);
  let segs;
  if (sep === undefined) segs = [el(s)];
  else if (typeof s === "string" && typeof sep === "string") segs = s.split(sep).map(el);
  else if (sep instanceof JRegExp) {
    if (typeof s === "string") segs = s.split(new RegExp(sep.source, sep.flags)).map(el);
    else {
      const { lang } = this.regexInfo(sep); if (!lang) unsupported("split by regex " + sep.source);
      const single = R.singleSet(this.regexInfo(sep).ast);
      const free = single ? S.re.star(R.setToRe(R.negate(single))) : null, t = isT(s) ? s : S.str(s), bits0 = t.op === "concat" ? t.args : [t];
      if (free && bits0.every((a) => a.op === "cs" || this.entailed(S.inRe(a, free)) === true)) {
        const cls = (c) => S.constVal(S.inRe(S.str(c), R.setToRe(single))) === true;
        const out = [[]]; for (const a of bits0) { if (a.op !== "cs") { out[out.length - 1].push(a); continue; } let cur = ""; for (const c of a.val.split("")) { if (cls(c)) { out[out.length - 1].push(S.str(cur)); cur = ""; out.push([]); } else cur += c; } out[out.length - 1].push(S.str(cur)); }
        const a = new JArr(this.P.Array, out.map((x) => el(this.lower(S.concat(...x)))));
        if (lim !== undefined) return yield* this.arrSlice(a, 0, lim);
        return a;
      }
      const len = S.uf("rsplit.len:" + sep.source, "Int", [s]); this.fact(S.ge(len, I1)); const I = this;
      this.fact(S.implies(S.not(S.inRe(s, lang)), S.eq(len, I1)));
      const b = this.newBase("rsplit", len, (i) => { const p = S.uf("rsplit.part:" + sep.source, "String", [s, i]); I.fact(S.contains(s, p)); I.fact(S.implies(S.eq(len, I1), S.eq(p, s))); if (single) I.fact(S.inRe(p, S.re.star(R.setToRe(R.negate(single))))); return p; });
      segs = [this.rawSeg(b)];
    }
  } else {
    const t = this.lift(s), p = this.lift(sep);
    if (this.branch(S.eq(p, S.str("")))) segs = [this.charSeg(t)];
    else {
      if (p.op === "cs" && t.op === "concat" && t.args.every((a) => a.op === "cs" || this.entailed(S.not(S.contains(a, p))) === true) && p.val.length === 1) {
        const out = [[]]; for (const a of t.args) { if (a.op === "cs") { const bits = a.val.split(p.val); out[out.length - 1].push(S.str(bits[0])); for (const x of bits.slice(1)) out.push([S.str(x)]); } else out[out.length - 1].push(a); }
        segs = out.map((x) => el(this.lower(S.concat(...x))));
      } else segs = [this.rawSeg(this.splitBase(t, p))];
    }
  }
  const a = new JArr(this.P.Array, segs);
  if (lim !== undefined) return yield* this.arrSlice(a, 0, lim);
  return a;
};
P.repeatT = function (t, n) {
  if (n.op === "ci" && t.op === "cs") return S.str(t.val.repeat(Math.max(0, Math.min(Number(n.val), 1 << 20))));
  const r = S.uf("repeat", "String", [t, n]);
  this.fact(S.implies(S.ge(n, I0), t.op === "cs" ? S.eq(S.strlen(r), S.mul(S.int(t.val.length), n)) : S.TRUE));
  if (t.op === "cs") this.fact(S.inRe(r, S.re.star(S.re.lit(t.val))));
  this.fact(S.implies(S.le(n, I0), S.eq(r, S.str("")))); this.fact(S.implies(S.eq(n, I1), S.eq(r, t)));
  return r;
};
P.lastIndexT = function (t, p) {
  if (t.op === "cs" && p.op === "cs") return S.int(t.val.lastIndexOf(p.val));
  const r = S.uf("lastIndexOf", "Int", [t, p]);
  this.fact(S.ite(S.contains(t, p), S.and(S.ge(r, I0), S.le(S.add(r, S.strlen(p)), S.strlen(t)), S.eq(S.substr(t, r, S.strlen(p)), p), S.not(S.contains(S.substr(t, S.add(r, I1), S.sub(S.strlen(t), S.add(r, I1))), p))), S.eq(r, S.int(-1))));
  return r;
};

// ------------------------------------------------------------------ regular expressions
const reCache = new Map();
const reKeys = new Map();
P.reKey = function (r) { const i = this.regexInfo(r); const k = (i.ast ? JSON.stringify(i.ast) : r.source) + (/y/.test(r.flags) ? "/y" : ""); let n = reKeys.get(k); if (!n) reKeys.set(k, (n = "re" + reKeys.size)); return n; };
P.regexInfo = function (r) {
  const k = r.source + "/" + r.flags; let x = reCache.get(k); if (x) return x;
  x = { ast: null, lang: null, err: null };
  try { const p = R.parse(r.source, r.flags); x.ast = p.ast; x.names = p.names; x.ncap = p.ncap; try { x.lang = R.searchLang(p.ast); } catch (e) { x.err = e.message; } } catch (e) { x.err = e.message; }
  reCache.set(k, x); return x;
};
P.newRegExp = function (source, flags) { const r = new JRegExp(this.P.RegExp, source, flags ?? ""); this.rawSet(r, "lastIndex", 0, true); return r; };
P.reTest = function (r, s) { // Bool
  if (isT(r.source) || isT(r.flags)) return S.uf("re.test", "Bool", [this.lift(r.source), this.lift(r.flags), this.lift(s)]);
  if (typeof s === "string") { const x = new RegExp(r.source, r.flags); x.lastIndex = 0; return x.test(s); }
  const info = this.regexInfo(r); if (!info.lang) { const t = S.uf("re.test:" + this.reKey(r), "Bool", [this.lift(s)]); return t; }
  return this.lower(S.inRe(this.lift(s), info.lang));
};
P.reStateful = function (r) { return !isT(r.flags) && /[gy]/.test(r.flags); };
// match decomposition for patterns without /g: array of [whole, ...captures] or null
P.reExec = function* (r, s, from) {
  if (isT(r.source)) unsupported("exec of a symbolic regex");
  const mkArr = (caps, index) => { const a = new JArr(this.P.Array, caps.map(el)); this.rawSet(a, "index", index, true); this.rawSet(a, "input", s, true); const info = this.regexInfo(r); let g; if (info.names && Object.keys(info.names).length) { g = new JObj(null); for (const n of Object.keys(info.names)) this.rawSet(g, n, caps[info.names[n]]); } this.rawSet(a, "groups", g, true); return a; };
  if (typeof s === "string") { const x = new RegExp(r.source, r.flags); const m = x.exec(s); if (!m) return null; return mkArr([...m], m.index); }
  const t = this.lift(s), info = this.regexInfo(r);
  if (!info.ast) unsupported("regex " + info.err);
  if (!this.branch(this.lift(this.reTest(r, s)))) return null;
  const id = this.reKey(r);
  const flats = R.flat(info.ast);
  const alt = flats.length === 1 ? flats[0] : [info.ast];
  let xs = alt, pre = S.uf("re.pre:" + id, "String", [t]), post = S.uf("re.post:" + id, "String", [t]);
  if (xs[0]?.t === "bol") { pre = S.str(""); xs = xs.slice(1); }
  if (xs.at(-1)?.t === "eol") { post = S.str(""); xs = xs.slice(0, -1); }
  const caps = new Array(info.ncap + 1).fill(undefined); const pieces = []; const I = this; let n = 0;
  const piece = (x) => { if (x.t === "set" && R.sizeOf(x.cs) === 1) return S.str(String.fromCharCode(x.cs[0][0])); const v = S.uf("re.p" + n++ + ":" + id, "String", [t]); try { I.fact(S.inRe(v, R.simpleRe(x))); } catch { } const g = R.trailingGreedy(x); if (g && x.t === "rep") { } return v; };
  const capsIn = (x, out) => { if (x.t === "grp") { if (x.cap > 0) out.push(x.cap); capsIn(x.x, out); } else if (x.t === "seq") x.xs.forEach((y) => capsIn(y, out)); else if (x.t === "alt") x.as.forEach((y) => capsIn(y, out)); else if (x.t === "rep" || x.t === "look") capsIn(x.x, out); return out; };
  const walk = (x) => { // returns a term for the text matched by x; registers captures
    if (x.t === "seq") return S.concat(...x.xs.map(walk));
    if (x.t === "grp") { const inner = x.x.t === "seq" || x.x.t === "grp" ? walk(x.x) : capsIn(x.x, []).length ? walk(x.x) : piece(x.x); if (x.cap > 0) caps[x.cap] = I.lower(inner); return inner; }
    const cs = capsIn(x, []);
    if (cs.length && x.t === "rep" && x.lo === 0 && x.hi === 1) { // optional group
      if (I.branch(S.uf("re.opt" + n++ + ":" + id, "Bool", [t]))) return walk(x.x);
      return S.str("");
    }
    if (cs.length) { const v = piece(x); for (const c of cs) { const cv = S.uf("re.cap" + c + ":" + id, "String", [t]); I.fact(S.contains(v, cv)); caps[c] = I.branch(S.uf("re.has" + c + ":" + id, "Bool", [t])) ? cv : undefined; } return v; }
    if (x.t === "wb" || x.t === "look" || x.t === "bol" || x.t === "eol") return S.str("");
    return piece(x);
  };
  const items = xs.map((x) => ({ x, t: walk(x) }));
  const whole = S.concat(...items.map((p) => p.t));
  this.fact(S.eq(t, S.concat(pre, whole, post)));
  // leftmost and greedy consequences that are simple to state
  const sets = xs.map((x) => R.trailingGreedy(x));
  for (let k = 0; k < items.length; k++) { // maximal runs: the text after a greedy C+ does not start with a character of C, when what follows cannot match C
    const g = sets[k]; if (!g) continue;
    if (k === items.length - 1) { if (post !== S.str("")) this.fact(S.or(S.eq(post, S.str("")), S.inRe(post, S.re.cat(R.setToRe(R.negate(g)), S.re.all())))); }
  }
  // a lazy or greedy run followed by a literal: leftmost literal
  caps[0] = this.lower(whole);
  const first = xs[0] && R.singleSet(xs[0].t === "rep" ? xs[0].x : xs[0]);
  return mkArr(caps, this.lower(S.strlen(pre)));
};
P.stringReplacement = function (r) { return typeof r === "string" ? (r.includes("$") ? null : S.str(r)) : null; };
P.strReplace = function* (s, pat, rep, all) {
  pat = this.force(pat); rep = this.force(rep);
  const I = this;
  if (pat instanceof JRegExp) {
    const g = pat.flags.includes("g");
    if (rep instanceof JFn) {
      if (typeof s === "string") { const x = new RegExp(pat.source, pat.flags); const ms = g ? [...s.matchAll(x)] : [x.exec(s)].filter(Boolean); let out = [], p = 0; for (const m of ms) { out.push(s.slice(p, m.index)); const grp = m.groups ? [this.obj({ ...m.groups })] : []; out.push(yield* this.toStr(yield* this.call(rep, undefined, [...m, m.index, s, ...grp]))); p = m.index + m[0].length; } out.push(s.slice(p)); return this.cat(...out); }
      const t = this.lift(s), info = this.regexInfo(pat);
      const single = info.ast && R.singleSet(info.ast);
      if (single && g) { // character homomorphism given by a callback
        if (R.sizeOf(single) <= 24 && rep.node?.parameters?.length <= 1) { const es = []; for (const c of R.charsOf(single)) { const o = yield* I.merged(function* () { return I.force(yield* I.call(rep, undefined, [c])); }); if (typeof o?.v !== "string") { es.length = 0; break; } es.push({ cs: R.ofChars(c), rep: o.v }); } if (es.length) return this.lower(this.homT(t, es)); }
        const b = this.charSeg(t).base; const set = R.setToRe(single);
        const v = this.foldTerm("concat", b, function* (i) { const r = yield* I.merged(function* () { const c = S.at(t, i); if (!I.branch(S.inRe(c, set))) return c; return yield* I.toStr(yield* I.call(rep, undefined, [c, i, s])); }); if (!r) unsupported("replace callback"); return I.lift(r.v); }, "String");
        this.fact(S.implies(S.not(S.inRe(t, info.lang)), S.eq(v, t)));
        return v;
      }
      if (!this.branch(this.lift(this.reTest(pat, s)))) return s;
      if (!g) { const m = yield* this.reExec(pat, s); const idx = this.lift(yield* this.get(m, "index")), whole = this.lift(m.segs[0].v); const out = yield* this.toStr(yield* this.call(rep, undefined, [...m.segs.map((x) => x.v), idx, s])); return this.cat(S.substr(t, I0, idx), out, S.substr(t, S.add(idx, S.strlen(whole)), S.sub(S.strlen(t), S.add(idx, S.strlen(whole))))); }
      unsupported("global regex replace with a callback");
    }
    rep = yield* this.toStr(rep);
    if (typeof s === "string" && typeof rep === "string") return s.replace(new RegExp(pat.source, pat.flags), rep);
    const t = this.lift(s), info = this.regexInfo(pat);
    if (!info.ast) unsupported("regex " + info.err);
    const rt = this.stringReplacement(rep);
    const single = R.singleSet(info.ast);
    if (g && single && rt) {
      return this.lower(this.charHom(t, single, rt.val));
    }
    const id = pat.source + "/" + pat.flags;
    if (g && rt) { // X[^X]+  : every non-empty part after a separator
      const fs = R.flat(info.ast); const one = fs.length === 1 ? fs[0] : [];
      const c = one.length === 2 && one[0].t === "set" && R.sizeOf(one[0].cs) === 1 ? R.charsOf(one[0].cs)[0] : null;
      if (c && one[1].t === "rep" && one[1].lo === 1 && !Number.isFinite(one[1].hi ?? Infinity) && !one[1].lazy && one[1].x.t === "set" && JSON.stringify(R.negate(one[1].x.cs)) === JSON.stringify(one[0].cs)) {
        const b = this.splitBase(t, S.str(c)); const rest = yield* this.subSeq(new JArr(this.P.Array, [this.rawSeg(b)]), I1, b.len);
        const head = yield* this.baseGet(b, I0);
        return yield* this.joinSegs([el(head), ...rest.segs.map((s0) => (s0.k === "el" ? el(this.lower(S.ite(S.eq(this.lift(s0.v), S.str("")), S.str(c), rt))) : this.mapSeg(s0, (v) => [I.branch(S.eq(I.lift(v), S.str(""))) ? c : rep], true)))], "");
      }
    }
    if (g && rt && rt.val === "" ) { // deletion: anchored prefixes / suffixes fall through to the general case
      const fs = R.flat(info.ast);
      if (fs.length > 1 && fs.every((x) => x[0]?.t === "bol" || x.at(-1)?.t === "eol")) { let x = s; for (const f of fs) { const src = null; const m = this.anchoredDelete(this.lift(x), f); x = m; } return this.lower(x); }
    }
    if (!g && rt) { const fs = R.flat(info.ast); if (fs.length === 1 && rt.val === "" && (fs[0][0]?.t === "bol" || fs[0].at(-1)?.t === "eol")) return this.lower(this.anchoredDelete(t, fs[0])); }
    if (!this.branch(this.lift(this.reTest(pat, s)))) return s;
    if (!g && rt) { const m = yield* this.reExec(pat, s); const idx = this.lift(yield* this.get(m, "index")), whole = this.lift(m.segs[0].v); return this.cat(S.substr(t, I0, idx), rt, S.substr(t, S.add(idx, S.strlen(whole)), S.sub(S.strlen(t), S.add(idx, S.strlen(whole))))); }
    const r = S.uf("re.replace:" + id, "String", [t, this.lift(rep)]);
    return r;
  }
  const p = yield* this.toStr(pat);
  if (rep instanceof JFn) { const t = this.lift(s), pt = this.lift(p); if (all) unsupported("replaceAll with callback"); if (!this.branch(S.contains(t, pt))) return s; const idx = S.indexof(t, pt, I0); const out = yield* this.toStr(yield* this.call(rep, undefined, [p, this.lower(idx), s])); return this.cat(S.substr(t, I0, idx), out, S.substr(t, S.add(idx, S.strlen(pt)), S.sub(S.strlen(t), S.add(idx, S.strlen(pt))))); }
  rep = yield* this.toStr(rep);
  if (typeof s === "string" && typeof p === "string" && typeof rep === "string") return all ? s.replaceAll(p, rep) : s.replace(p, rep);
  const t = this.lift(s), pt = this.lift(p);
  let rt = this.stringReplacement(rep);
  if (!rt) { const x = this.lift(rep); if (this.branch(S.contains(x, S.str("$")))) { if (!this.branch(S.contains(t, pt))) return s; return S.uf("replace$" + (all ? "All" : ""), "String", [t, pt, x]); } rt = x; }
  if (all && !(p.length > 0) && !isT(p)) unsupported("replaceAll of the empty string");
  if (all && pt.op === "cs" && pt.val.length === 1 && rt.op === "cs") return this.lower(this.charHom(t, R.ofChars(pt.val), rt.val));
  return this.lower(all ? S.strreplaceAll(t, pt, rt) : S.strreplace(t, pt, rt));
};
P.anchoredDelete = function (t, f) { // remove ^X or X$ where X is simple; X greedy single-set runs are maximal
  const pre = f[0]?.t === "bol", xs = f.filter((x) => x.t !== "bol" && x.t !== "eol");
  const lang = R.simpleRe({ t: "seq", xs }); const key = (pre ? "^" : "$") + lang.id;
  if (t.op === "cs" ) { }
  const cut = S.uf("del" + key, "String", [t]), rest = S.uf("rest" + key, "String", [t]);
  this.fact(S.eq(t, pre ? S.concat(cut, rest) : S.concat(rest, cut)));
  const nullable = xs.every((x) => x.t === "rep" && x.lo === 0);
  const full = pre ? S.re.cat(lang, S.re.all()) : S.re.cat(S.re.all(), lang);
  this.fact(S.ite(S.inRe(t, full), S.inRe(cut, lang), S.eq(cut, S.str(""))));
  if (xs.length === 1 && xs[0].t === "rep" && xs[0].hi === Infinity && R.singleSet(xs[0].x)) { const c = R.setToRe(R.negate(R.singleSet(xs[0].x))); this.fact(S.or(S.eq(rest, S.str("")), S.inRe(rest, pre ? S.re.cat(c, S.re.all()) : S.re.cat(S.re.all(), c)))); }
  return rest;
};
P.charHom = function (t, set, rep) { return this.homT(t, [{ cs: set, rep }]); };
// character homomorphisms: every character of a class becomes a fixed text, all others stay; compositions are kept in one normal form
const homApply = (es, s) => s.split("").map((c) => { const k = c.charCodeAt(0); const e = es.find((x) => x.cs.some(([a, b]) => a <= k && k <= b)); return e ? e.rep : c; }).join("");
const homNorm = (es) => {
  const by = new Map();
  for (const e of es) { let cs = e.cs; if (e.rep.length === 1) cs = R.intersect(cs, R.negate(R.ofChars(e.rep))); if (cs.length) by.set(e.rep, R.unite(by.get(e.rep) ?? [], cs)); }
  return [...by].map(([rep, cs]) => ({ cs, rep })).sort((x, y) => x.cs[0][0] - y.cs[0][0]);
};
P.homParts = function (t) {
  const h = this.homs.get(t); if (h) return h;
  if (t.op === "replace_all" && t.args[1].op === "cs" && t.args[1].val.length === 1 && t.args[2].op === "cs") { const es = [{ cs: R.ofChars(t.args[1].val), rep: t.args[2].val }]; const i = this.homParts(t.args[0]); return i ? { t: i.t, es: this.homCompose(i.es, es) } : { t: t.args[0], es }; }
  return null;
};
P.homCompose = function (f, g) { let dom = []; for (const e of f) dom = R.unite(dom, e.cs); return homNorm([...f.map((e) => ({ cs: e.cs, rep: homApply(g, e.rep) })), ...g.map((e) => ({ cs: R.intersect(e.cs, R.negate(dom)), rep: e.rep }))]); };
P.homT = function (t, es) {
  if (t.op === "cs") return S.str(homApply(es, t.val));
  if (t.op === "concat") return S.concat(...t.args.map((a) => this.homT(a, es)));
  if (t.op === "ite") return S.ite(t.args[0], this.homT(t.args[1], es), this.homT(t.args[2], es));
  const h = this.homParts(t); if (h) { t = h.t; es = this.homCompose(h.es, es); } else es = homNorm(es);
  if (es.length === 0) return t;
  let dom = [], img = []; for (const e of es) { dom = R.unite(dom, e.cs); img = R.unite(img, R.ofChars(e.rep)); }
  const cs0 = this.charsets.get(t), out = R.unite(cs0 ? R.intersect(R.negate(dom), cs0) : R.negate(dom), img);
  if (es.length === 1 && R.sizeOf(dom) <= 4 && !R.intersect(dom, img).length) { let x = t; for (const c of R.charsOf(dom)) x = S.strreplaceAll(x, S.str(c), S.str(es[0].rep)); return x; }
  const u = S.uf("hom:" + JSON.stringify(es), "String", [t]);
  if (!this.homs.has(u)) this.memoSet(this.homs, u, { t, es });
  if (!this.charsets.has(u)) this.memoSet(this.charsets, u, out);
  this.fact(S.inRe(u, S.re.star(R.setToRe(out))));
  this.fact(S.implies(S.inRe(t, S.re.star(R.setToRe(R.negate(dom)))), S.eq(u, t)));
  const lo = Math.min(1, ...es.map((e) => e.rep.length)), hi = Math.max(1, ...es.map((e) => e.rep.length));
  if (lo === 1 && hi === 1) { this.fact(S.eq(S.strlen(u), S.strlen(t))); this.memoSet(this.homOf, u, { t, es }); }
  else { if (lo === 1) this.fact(S.ge(S.strlen(u), S.strlen(t))); this.fact(S.le(S.strlen(u), S.mul(S.int(hi), S.strlen(t)))); if (lo === 1) this.fact(S.eq(S.eq(u, S.str("")), S.eq(t, S.str("")))); }
  return u;
};

// ------------------------------------------------------------------ arrays
P.arrSlice = function* (a, from, to) {
  const simple = a.segs.every((s) => s.k === "el");
  if (simple && !isT(from) && !isT(to)) return new JArr(this.P.Array, a.segs.slice(from ?? 0, to ?? undefined));
  const lenT = this.arrLen(a);
  if (from === 0 && to !== undefined && !simple) { const n = clampIdx(this, to, lenT); return yield* this.subSeq(a, I0, n); }
  const i = clampIdx(this, from ?? 0, lenT), j = to === undefined ? lenT : clampIdx(this, to, lenT);
  // drop leading known elements
  if (S.isConst(i)) { let k = S.constVal(i), segs = [...a.segs]; while (k > 0 && segs.length && segs[0].k === "el") { segs.shift(); k--; } if (k === 0 && j === lenT) return new JArr(this.P.Array, segs); }
  return yield* this.subSeq(a, i, j);
};
P.subSeq = function* (a, i, j) {
  if (this.branch(S.ge(i, j))) return new JArr(this.P.Array, []);
  if (i === I0 && j === this.arrLen(a)) return new JArr(this.P.Array, [...a.segs]);
  const n = S.sub(j, i);
  if (S.isConst(n) && S.constVal(n) <= 8) { const out = []; for (let k = 0; k < S.constVal(n); k++) { const r = yield* this.arrAt(a, this.lower(S.add(i, S.int(k)))); if (!r.found) break; out.push(el(r.v)); } return new JArr(this.P.Array, out); }
  const I = this; const segs = a.segs, whole = new JArr(this.P.Array, segs);
  if (segs.length === 1 && segs[0].k === "fm" && segs[0].exact && i === I0) { const s0 = segs[0], b = s0.base; const pre = this.newBase(b.name + "<", n, function* (k) { return yield* I.baseGet(b, k); }); pre.parent = b; pre.alias = b; return new JArr(this.P.Array, [{ k: "fm", base: pre, exact: true, raw: s0.raw, f: s0.f }]); }
  const b = this.newBase("slice", n, function* (k) { const r = yield* I.arrAt(whole, S.add(i, k)); if (!r.found) throw new PathAbort(); return r.v; });
  return new JArr(this.P.Array, [this.rawSeg(b)]);
};
P.pushSegs = function (a, segs) { this.setSegs(a, [...a.segs, ...segs]); };
const cbArgs = (v, i, a, I) => [v, i === null || i === undefined ? I.fresh("idx", "Int") : I.lower(i), a];
P.outcomes = function* (gen) { // the finite set of constant strings a computation can produce, or null
  let rs; try { rs = yield* this.sub(gen); } catch (e) { if (e instanceof Unsupported) return null; throw e; }
  const out = new Set(); for (const r of rs) { if (!r.ok || r.writes.length) return null; const v = this.lower(r.v); if (typeof v !== "string") return null; out.add(v); }
  return [...out];
};
P.concatFold = function* (base, f) { // string concatenation over i of f(i)
  const I = this; const t = this.foldTerm("concat", base, f, "String");
  const x = this.fresh("i", "Int"); const cs = yield* this.outcomes(function* () { I.assume(S.and(S.ge(x, I0), S.lt(x, base.len))); I.skolem(base, x); return yield* f(x, true); });
  if (cs && cs.length) { const m = Math.min(...cs.map((c) => c.length)); if (m) this.fact(S.ge(S.strlen(t), S.mul(S.int(m), base.len))); if (m) this.fact(S.implies(S.gt(base.len, I0), S.inRe(t, S.re.plus(S.re.union(...cs.map((c) => S.re.lit(c))))))); }
  if (cs && cs.length) this.fact(S.inRe(t, S.re.star(S.re.union(...cs.map((c) => S.re.lit(c))))));
  return t;
};
P.joinSegs = function* (segs, sep) {
  if (segs.every((s) => s.k === "el")) { const out = []; for (const s of segs) { if (out.length) out.push(sep); const v = this.force(s.v); out.push(v === undefined || v === null ? "" : yield* this.toStr(v)); } return out.length === 0 ? "" : this.cat(...out); }
  // join of the untouched parts of a split by the same separator
  if (segs.length === 1 && segs[0].raw && segs[0].base.splitOf && segs[0].base.splitOf.sep === this.lift(sep)) return this.lower(segs[0].base.splitOf.t);
  if (segs.length === 1 && segs[0].raw && typeof sep === "string" && segs[0].base.splitOf?.sep.op === "cs" && segs[0].base.splitOf.sep.val.length === 1) return this.lower(this.charHom(segs[0].base.splitOf.t, R.ofChars(segs[0].base.splitOf.sep.val), sep));
  const I = this;
  if (sep === "" && segs.length === 1 && segs[0].raw && segs[0].base.charsOf) return segs[0].base.charsOf;
  const out = [];
  const sepT = this.lift(sep);
  let first = true;
  if (sep === "") { for (const s of segs) { if (s.k === "el") { const v = this.force(s.v); out.push(v === undefined || v === null ? "" : yield* this.toStr(v)); } else out.push(yield* this.concatFold(s.base, function* (i, raw) { const once = function* () { const o = []; for (const v of yield* s.f(i)) o.push(yield* I.toStr(v)); return I.cat("", ...o); }; if (raw) return yield* once(); const r = yield* I.merged(once); if (!r) unsupported("join"); return I.lift(r.v); })); } return this.cat(...out); }
  const t = this.fresh("join", "String"); this.joins ??= new Map(); this.memoSet(this.joins, t, { segs, sep });
  const len = this.arrLen(new JArr(this.P.Array, segs));
  this.fact(S.implies(S.eq(len, I0), S.eq(t, S.str(""))));
  return t;
};
P.sortSegs = function* (segs, cmp) {
  if (!segs.every((s) => s.k === "el")) return null;
  const out = [];
  for (const s of segs) {
    let k = out.length;
    while (k > 0) { let c; if (cmp) { c = this.force(yield* this.call(cmp, undefined, [out[k - 1].v, s.v])); c = yield* this.toNum(c); if (!(isT(c) ? this.branch(S.gt(c, I0)) : c > 0)) break; } else { const x = yield* this.toStr(out[k - 1].v), y = yield* this.toStr(s.v); if (!this.branch(this.lift(yield* this.less(y, x, false)))) break; } k--; }
    out.splice(k, 0, s);
  }
  return out;
};
P.flatSegs = function* (v, depth) { // elements of v flattened `depth` levels, for a single value
  v = this.force(v); if (depth > 0 && v instanceof JArr) { const out = []; for (const s of v.segs) { if (s.k === "el") out.push(...(yield* this.flatSegs(s.v, depth - 1))); else if (depth === 1) out.push(s); else unsupported("deep flat"); } return out; }
  return [el(v)];
};

// ------------------------------------------------------------------ JSON
P.inJson = function* (v, body) { // the objects being written, to notice one inside itself
  const st = (this.jsonStack ??= []); if (st.includes(v)) this.throwError("TypeError", "Converting circular structure to JSON");
  st.push(v); try { return yield* body(); } finally { st.length = st.lastIndexOf(v); }
};
P.toPlain = function* (v) { v = v instanceof JAny ? this.force(v) : v; return v instanceof JObj ? yield* this.inJson(v, () => this.toPlain1(v)) : yield* this.toPlain1(v); };
P.toPlain1 = function* (v) { // concrete JS value, or undefined marker when symbolic parts remain
  v = v instanceof JAny ? this.force(v) : v;
  if (isT(v)) return SYM; if (isPrim(v)) return v; if (v instanceof JSymbol) return SYM;
  if (v instanceof JFn) return undefined;
  if (v instanceof JArr) { const o = []; for (const s of v.segs) { if (s.k !== "el") return SYM; const x = yield* this.toPlain(s.v); if (x === SYM) return SYM; o.push(x); } return o; }
  if (v.layers || v instanceof JPromise || v.proxy) return SYM;
  const tj = yield* this.get(v, "toJSON"); if (tj instanceof JFn) return yield* this.toPlain(yield* this.call(tj, v, [""]));
  if (v instanceof JMap) return {};
  const o = {}; for (const [k, d] of v.props) { if (typeof k !== "string" || !d.enumerable) continue; const x = yield* this.toPlain(d.get !== undefined ? (d.get ? yield* this.call(d.get, v, []) : undefined) : d.value); if (x === SYM) return SYM; Object.defineProperty(o, k, { value: x, enumerable: true, writable: true, configurable: true }); }
  return o;
};
const SYM = { symbolic: true };
P.fromPlain = function (x) { if (Array.isArray(x)) return this.arr(x.map((y) => this.fromPlain(y))); if (x && typeof x === "object") { const o = new JObj(this.P.Object); for (const k of Object.keys(x)) this.rawSet(o, k, this.fromPlain(x[k])); return o; } return x; };
P.jsonNorm = function* (v, top) {
  if (v instanceof JAny && v.json && !this.inputsMutated && !top) return v;
  v = this.force(v); return v instanceof JObj ? yield* this.inJson(v, () => this.jsonNorm1(v, top)) : yield* this.jsonNorm1(v, top);
};
P.jsonNorm1 = function* (v, top) { // the value that JSON.parse(JSON.stringify(v)) denotes (undefined when omitted)
  if (v instanceof JAny && v.json && !this.inputsMutated && !top) return v;
  v = this.force(v);
  if (v === undefined || v instanceof JFn || v instanceof JSymbol) return undefined;
  if (typeof v === "number" && !Number.isFinite(v)) return null;
  if (typeof v === "bigint") this.throwError("TypeError", "Do not know how to serialize a BigInt");
  if (isPrim(v)) return v;
  if (isT(v)) return v;
  if (v.jsonNormed) return v;
  const I = this;
  if (v.ident && v.jsonInput && !this.inputsMutated) return v;
  if (v instanceof JArr) { const out = []; for (const s of v.segs) { if (s.k === "el") { const x = yield* this.jsonNorm(s.v); out.push(el(x === undefined ? null : x)); } else if (s.raw && s.base.json) out.push(s); else out.push({ ...this.mapSeg(s, function* (x) { const y = yield* I.jsonNorm(x); return [y === undefined ? null : y]; }, true) }); } const a = new JArr(this.P.Array, out); a.jsonNormed = true; return a; }
  const tj = yield* this.get(v, "toJSON"); if (tj instanceof JFn) return yield* this.jsonNorm(yield* this.call(tj, v, [""]));
  if (v instanceof JMap || v instanceof JPromise) return new JObj(this.P.Object);
  const o = new JObj(this.P.Object); o.jsonNormed = true;
  if (v.layers) { const es = yield* this.entrySegs(v); o.layers = []; for (const s of es) { if (s.k === "el") { const x = yield* this.jsonNorm(s.v.segs[1].v); if (x !== undefined) { const last = o.layers.at(-1); if (last?.props) last.props.set(s.v.segs[0].v, { value: x, enumerable: true }); else o.layers.push({ props: new Map([[s.v.segs[0].v, { value: x, enumerable: true }]]) }); } } else o.layers.push({ dict: [this.mapSeg(s, function* (p) { const x = yield* I.jsonNorm(p.segs[1].v); return x === undefined ? [] : [I.arr([p.segs[0].v, x])]; }, true)] }); } return o; }
  for (const [k, d] of v.props) { if (typeof k !== "string" || !d.enumerable) continue; const x = yield* this.jsonNorm(d.get !== undefined ? (d.get ? yield* this.call(d.get, v, []) : undefined) : d.value); if (x !== undefined) this.rawSet(o, k, x); }
  return o;
};
P.jsonStringify = function* (v, replacer, space) {
  if (v instanceof JAny && v.json && !this.inputsMutated && !this.forced.has(v.key)) { const t = S.uf("json.str", "String", [this.identOf(v.name, v.idxs)]); this.noteJson(t, v); this.fact(S.not(S.eq(t, S.str("")))); return t; }
  v = this.force(v);
  if (replacer instanceof JFn) { const h = new JObj(this.P.Object); this.rawSet(h, "", v); v = yield* this.jsonReplace(replacer, h, "", v); }
  else if (replacer instanceof JArr) unsupported("JSON.stringify property list");
  const pl = yield* this.toPlain(v);
  if (pl !== SYM) { try { return JSON.stringify(pl, null, isT(space) ? undefined : space); } catch { this.throwError("TypeError", "cannot serialise"); } }
  const n = yield* this.jsonNorm(v, true); if (n === undefined) return undefined;
  if (isT(n) && n.sort === "String") { const t = S.uf("json.quote", "String", [n]); this.noteJson(t, n); this.fact(S.and(S.prefixof(S.str('"'), t), S.suffixof(S.str('"'), t), S.ge(S.strlen(t), S.add(S.strlen(n), S.int(2))))); return t; }
  if (isT(n) && (n.sort === "Bool" || n.sort === "Int" || n.sort === "Real")) { const t = this.lift(yield* this.toStr(n)); this.noteJson(t, n); return t; }
  if (n && n.jsonInput && n.ident) { const t = S.uf("json.str", "String", [n.ident]); this.noteJson(t, n); this.fact(S.not(S.eq(t, S.str("")))); return t; }
  const sp = space === undefined || space === null || space === 0 || space === "" ? [] : [yield* this.encode(space)];
  const t = S.uf("json.of", "String", [yield* this.encode(n), ...sp]); this.fact(S.ge(S.strlen(t), S.int(2)));
  this.noteJson(t, n); return t;
};
P.jsonReplace = function* (f, holder, key, v) { // SerializeJSONProperty up to the replacer, recursively
  const I = this;
  v = this.force(v);
  if (v instanceof JObj && !(v instanceof JArr)) { const tj = yield* this.get(v, "toJSON"); if (tj instanceof JFn) v = yield* this.call(tj, v, [key]); }
  v = this.force(yield* this.call(f, holder, [key, v]));
  if (v instanceof JArr) { const out = []; let k = 0; for (const s of v.segs) { if (s.k === "el") out.push(el(yield* this.jsonReplace(f, v, String(k++), s.v))); else { const arr = v; out.push(this.mapSeg(s, function* (x) { return [yield* I.jsonReplace(f, arr, "0", x)]; }, true)); } } return new JArr(this.P.Array, out); }
  if (!(v instanceof JObj) || v instanceof JFn || v instanceof JMap || v instanceof JPromise) return v;
  if (v.layers) unsupported("JSON.stringify replacer on an object with unknown keys");
  const o = new JObj(this.P.Object), self = v;
  yield* this.inJson(v, function* () { for (const [k, d] of [...self.props]) { if (typeof k !== "string" || !d.enumerable) continue; I.rawSet(o, k, yield* I.jsonReplace(f, self, k, d.get !== undefined ? (d.get ? yield* I.call(d.get, self, []) : undefined) : d.value)); } });
  return o;
};
P.noteJson = function (t, n) { this.jsonOf ??= new Map(); if (!this.jsonOf.has(t)) this.memoSet(this.jsonOf, t, n); };
P.cloneJson = function* (v) { // fresh mutable copy
  const I = this;
  if (v instanceof JAny) return v.json ? (this.forced.has(v.key) && !(this.forced.get(v.key) instanceof JObj) ? this.forced.get(v.key) : this.copyAny(v)) : yield* this.cloneJson(this.force(v));
  if (v instanceof JObj && v.jsonInput && v.origin && !this.inputsMutated) return this.force(this.copyAny(v.origin));
  const cl = function* (x) { return [yield* I.cloneJson(x)]; }, cp = function* (p) { return [I.arr([p.segs[0].v, yield* I.cloneJson(p.segs[1].v)])]; };
  if (v instanceof JArr) { const out = []; for (const s of v.segs) { if (s.k === "el") out.push(el(yield* this.cloneJson(s.v))); else out.push(this.mapSeg(s, cl, true)); } return new JArr(this.P.Array, out); }
  if (v instanceof JObj) {
    const o = new JObj(this.P.Object);
    if (v.layers) { o.layers = []; for (const l of v.layers) { if (l.dict) o.layers.push({ dict: l.dict.map((s) => this.mapSeg(s, cp, true)) }); else { const m = new Map(); for (const [k, d] of l.props) m.set(k, d === DELETED ? d : { ...d, value: yield* this.cloneJson(d.value) }); o.layers.push({ props: m }); } } return o; }
    for (const [k, d] of v.props) this.rawSet(o, k, yield* this.cloneJson(d.value)); return o;
  }
  return v;
};
P.jsonParse = function* (s) {
  s = yield* this.toStr(s);
  if (typeof s === "string") { let x; try { x = JSON.parse(s); } catch { this.throwError("SyntaxError", "Unexpected token in JSON"); } return this.fromPlain(x); }
  if (s.op === "concat" && this.jsonOf) { const blank = (x) => x.op === "cs" && /^[ \t\r\n]*$/.test(x.val), mid = s.args.filter((x, i) => !(blank(x) && (i === 0 || i === s.args.length - 1))); if (mid.length === 1 && this.jsonOf.has(mid[0])) s = mid[0]; } // white space around a JSON text
  const hit = this.jsonOf?.get(s); if (hit !== undefined) { if (this.inputsMutated && (hit instanceof JAny || hit?.jsonInput)) unsupported("parse of text serialised before a mutation"); return this.force(yield* this.cloneJson(hit)); }
  if (!this.branch(S.uf("json.valid", "Bool", [s]))) this.throwError("SyntaxError", "Unexpected token in JSON");
  this.fact(S.not(S.eq(s, S.str(""))));
  const v = this.jsonInput("json.parse", [s]); return this.force(v);
};
P.jsonInput = function (name, idxs, kinds) { const a = new JAny(name, idxs, kinds ?? Interp.JSONKINDS); a.json = true; return a; };

// ------------------------------------------------------------------ deep equality: forks over components; returns Bool
P.sameSegs = function* (a, b, cmp) { // a, b: segs. Returns Bool term; positive position only
  const I = this; let i = 0, j = 0;
  a = a.filter((s) => !(s.k === "fm" && s.base.len === I0)); b = b.filter((s) => !(s.k === "fm" && s.base.len === I0));
  if (a.every((s) => s.k === "el") && b.every((s) => s.k === "el")) {
    if (a.length !== b.length) return false; if (a.length === 0) return true;
    const k = this.choose(a.length); return yield* cmp(a[k].v, b[k].v);
  }
  const A = new JArr(this.P.Array, a), B = new JArr(this.P.Array, b);
  const aligned = a.length === b.length && a.every((s, k) => s.k === b[k].k && (s.k === "el" || this.baseRoot(s.base) === this.baseRoot(b[k].base) && this.entailed(S.eq(s.base.len, b[k].base.len)) === true || s.exact && b[k].exact && this.entailed(S.eq(s.base.len, b[k].base.len)) === true));
  if (aligned) {
    const k = this.choose(a.length); const s = a[k], t = b[k];
    if (s.k === "el") return yield* cmp(s.v, t.v);
    const x = this.fresh("i", "Int"); this.assume(S.and(S.ge(x, I0), S.lt(x, s.base.len)));
    this.skolem(s.base, x); this.skolem(t.base, x);
    const p = yield* s.f(x), q = yield* t.f(x); if (p.length !== q.length) return false; if (p.length === 0) return true;
    const m = this.choose(p.length); return yield* cmp(p[m], q[m]);
  }
  if ([...a, ...b].every((s) => s.k === "el" || s.exact)) {
    const la = this.arrLen(A), lb = this.arrLen(B);
    if (this.choose(2)) return this.lower(S.eq(la, lb));
    if (!this.branch(S.eq(la, lb))) return false;
    const x = this.fresh("i", "Int"); this.assume(S.and(S.ge(x, I0), S.lt(x, la)));
    const p = yield* this.arrAt(A, x), q = yield* this.arrAt(B, x);
    if (!p.found || !q.found) return false;
    return yield* cmp(p.v, q.v);
  }
  return null;
};
P.baseRoot = function (b) { while (b.alias) b = b.alias; return b; };
P.deepEq = function* (a, b) { // Bool (JS boolean or term); positive position only
  if (process.env.VF_EQ) console.error("deepEq", this.show(a), a instanceof JAny ? a.key : "", this.show(b), b instanceof JAny ? b.key : "");
  if (a === b) return true;
  if (a instanceof JAny && b instanceof JAny && (a.key === b.key || a.baseKey === b.baseKey && !this.inputsMutated)) return true;
  if (a instanceof JAny && b instanceof JAny) { a = this.anyRoot(a); b = this.anyRoot(b); if (a.key === b.key) return true; const t = this.sameTerm(a, b, false); if (t && this.entailed(t) === true) return true; }
  a = this.force(a); b = this.force(b);
  if (a === b) return true;
  if (isPrim(a) || isPrim(b) || isT(a) || isT(b)) {
    if (typeof a === "number" && typeof b === "number") return Object.is(a, b) || a === b;
    const ja = this.jsonOf?.get(a), jb = this.jsonOf?.get(b);
    if (isT(a) && isT(b) && ja !== undefined && jb !== undefined) return yield* this.deepEq(ja, jb);
    const na = this.joins?.get(a), nb = this.joins?.get(b);
    if (na && nb && this.strictEq(na.sep, nb.sep) === true) { const r = yield* this.sameSegs(na.segs, nb.segs, (x, y) => this.deepEq(x, y)); if (r !== null) return r; }
    const fa = isT(a) && this.folds.get(a), fb = isT(b) && this.folds.get(b);
    if (fa && fb && fa.kind === fb.kind && this.entailed(S.eq(fa.base.len, fb.base.len)) === true) { const x = this.fresh("i", "Int"); this.assume(S.and(S.ge(x, I0), S.lt(x, fa.base.len))); this.skolem(fa.base, x); this.skolem(fb.base, x); return yield* this.deepEq(yield* fa.f(x), yield* fb.f(x)); }
    return this.strictEq(a, b);
  }
  if (a instanceof JFn || b instanceof JFn || a instanceof JSymbol || b instanceof JSymbol) return this.strictEq(a, b);
  if (a.ident && b.ident && a.ident === b.ident && a.birth === 0 && b.birth === 0 && !this.inputsMutated) return true;
  if (a instanceof JArr !== b instanceof JArr) return false;
  if (a instanceof JArr) { const r = yield* this.sameSegs(a.segs, b.segs, (x, y) => this.deepEq(x, y)); if (r === null) unsupported("comparison of differently shaped sequences"); return r; }
  if (a instanceof JMap || b instanceof JMap) { if (!(a instanceof JMap && b instanceof JMap) || a.isSet !== b.isSet) return false; const r = yield* this.sameSegs(a.store.segs, b.store.segs, (x, y) => this.deepEq(x, y)); if (r === null) unsupported("map comparison"); return r; }
  if (a instanceof JRegExp && b instanceof JRegExp) return this.strictEq(a.source, b.source) === true && this.strictEq(a.flags, b.flags) === true;
  if (a.bytes !== undefined && b.bytes !== undefined) return this.strictEq(a.bytes, b.bytes);
  if (a.isError && b.isError) { return a.cls === b.cls ? yield* this.deepEq(yield* this.get(a, "message"), yield* this.get(b, "message")) : false; }
  const ea = yield* this.entrySegs(a), eb = yield* this.entrySegs(b);
  if (ea.every((s) => s.k === "el" && typeof s.v.segs[0].v === "string") && eb.every((s) => s.k === "el" && typeof s.v.segs[0].v === "string")) {
    const ma = new Map(ea.map((s) => [s.v.segs[0].v, s.v.segs[1].v])), mb = new Map(eb.map((s) => [s.v.segs[0].v, s.v.segs[1].v]));
    const keys = [...new Set([...ma.keys(), ...mb.keys()])]; if (keys.length === 0) return true;
    for (const k of keys) if (ma.has(k) !== mb.has(k)) { const v = this.force(ma.has(k) ? ma.get(k) : mb.get(k)); if (v !== undefined || this.strictKeys) return false; }
    const k = keys[this.choose(keys.length)]; return yield* this.deepEq(ma.get(k), mb.get(k));
  }
  const pe = (x, y) => this.pairEq(x, y);
  const r = yield* this.sameSegs(ea, eb, pe);
  if (r === null) return yield* this.dictEqByKey(a, b);
  return r;
};
P.pairEq = function* (x, y) { if (x === y) return true; if (this.choose(2)) return this.strictEq(x.segs[0].v, y.segs[0].v); if (!this.branch(this.lift(this.strictEq(x.segs[0].v, y.segs[0].v)))) return true; return yield* this.deepEq(x.segs[1].v, y.segs[1].v); };
P.dictEqByKey = function* (a, b) { // at an arbitrary key both have the property or neither, with equal values
  const k = this.fresh("key", "String");
  const x = yield* this.getOwn(a, k), y = yield* this.getOwn(b, k);
  if (!x || !y) return !x && !y;
  return yield* this.deepEq(x.value, y.value);
};

// ------------------------------------------------------------------ maps and sets
P.mapFind = function* (m, key) { // -> {found, seg, v, k}
  const segs = m.store.segs;
  key = this.force(key);
  for (let n = segs.length - 1; n >= 0; n--) {
    const s = segs[n]; if (s.opaque) unsupported("lookup in a collection inside the loop that fills it");
    const keyOf = (v) => (m.isSet ? v : v.segs[0].v);
    const r = yield* this.findIn(s, (v, I) => I.sameValueZero(keyOf(v), key), "last", s.k === "el" ? null : "map:" + (s.sid ??= this.counter++) + ":" + (isT(key) ? key.id : typeof key === "string" ? "s" + key : (yield* this.encode(key)).id));
    if (r.found) return { found: true, n, s, v: m.isSet ? r.v : r.v.segs[1].v, idx: r.idx };
  }
  return { found: false };
};
P.sameValueZero = function (a, b) { if (typeof a === "number" && typeof b === "number") return a === b || (Number.isNaN(a) && Number.isNaN(b)); return this.strictEq(a, b); };
P.mapSet = function* (m, key, v) {
  key = this.force(key);
  const item = m.isSet ? key : this.arr([key, v]);
  if (m.store.segs.some((s) => s.opaque)) { this.setSegs(m.store, [...m.store.segs, el(item)]); this.setField(m, "dups", true); return; }
  const r = yield* this.mapFind(m, key);
  if (!r.found) { this.setSegs(m.store, [...m.store.segs, el(item)]); return; }
  if (m.isSet) return;
  if (r.s.k === "el") { const c = [...m.store.segs]; c[r.n] = el(item); this.setSegs(m.store, c); return; }
  const I = this; const c = [...m.store.segs]; c[r.n] = this.mapSeg(r.s, function* (p) { return [I.branch(I.lift(I.sameValueZero(p.segs[0].v, key))) ? I.arr([p.segs[0].v, v]) : p]; }, true); this.setSegs(m.store, c);
};
P.mapDelete = function* (m, key) {
  key = this.force(key); const r = yield* this.mapFind(m, key); if (!r.found) return false;
  const c = [...m.store.segs]; const I = this;
  if (r.s.k === "el") c.splice(r.n, 1); else c[r.n] = this.mapSeg(r.s, function* (p) { return I.branch(I.lift(I.sameValueZero(m.isSet ? p : p.segs[0].v, key))) ? [] : [p]; }, false);
  this.setSegs(m.store, c); return true;
};
P.newMap = function (isSet) { const m = new JMap(isSet ? this.P.Set : this.P.Map); m.isSet = isSet; m.store = new JArr(this.P.Array, []); return m; };
