// JavaScript regular expressions -> character sets, RegLan terms.
import * as S from "./smt.mjs";
export const MAXC = 0xffff;
// charset: sorted disjoint list of [lo,hi]
export const norm = (rs) => { rs = rs.filter(([a, b]) => a <= b).sort((x, y) => x[0] - y[0]); const o = []; for (const [a, b] of rs) { const l = o[o.length - 1]; if (l && a <= l[1] + 1) l[1] = Math.max(l[1], b); else o.push([a, b]); } return o; };
export const negate = (cs) => { const o = []; let p = 0; for (const [a, b] of norm(cs)) { if (a > p) o.push([p, a - 1]); p = b + 1; } if (p <= MAXC) o.push([p, MAXC]); return o; };
export const unite = (a, b) => norm([...a.map((x) => [...x]), ...b.map((x) => [...x])]);
export const intersect = (a, b) => negate(unite(negate(a), negate(b)));
export const minus = (a, b) => intersect(a, negate(b));
export const has = (cs, c) => cs.some(([a, b]) => a <= c && c <= b);
export const ofChars = (s) => norm([...s].flatMap((ch) => Array.from({ length: ch.length }, (_, i) => [ch.charCodeAt(i), ch.charCodeAt(i)])));
export const ALL = [[0, MAXC]];
export const sizeOf = (cs) => cs.reduce((n, [a, b]) => n + b - a + 1, 0);
export const charsOf = (cs) => cs.flatMap(([a, b]) => Array.from({ length: b - a + 1 }, (_, i) => String.fromCharCode(a + i)));
const DIGIT = [[48, 57]], WORD = norm([[48, 57], [65, 90], [97, 122], [95, 95]]);
export const SPACE = norm([[9, 13], [32, 32], [160, 160], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]]);
const LINETERM = norm([[10, 10], [13, 13], [0x2028, 0x2029]]);
const foldCase = (cs) => { let o = cs.map((x) => [...x]); for (let c = 65; c <= 90; c++) { if (has(cs, c)) o.push([c + 32, c + 32]); if (has(cs, c + 32)) o.push([c, c]); } return norm(o); };
const ranges = (cs) => S.re.union(...cs.map(([a, b]) => S.re.range(a, b)));
// a set that contains the last code unit is written as a difference, so that it covers the solver's whole alphabet
export const setToRe = (cs) => { if (cs.length === 0) return S.re.none(); if (!has(cs, MAXC)) return ranges(cs); const n = negate(cs); return n.length === 0 ? S.re.allchar() : S.re.diff(S.re.allchar(), ranges(n)); };

export const parse = (src, flags = "") => {
  let i = 0, ncap = 0; const icase = flags.includes("i"), dotAll = flags.includes("s"), multi = flags.includes("m"), uni = flags.includes("u") || flags.includes("v");
  const names = {};
  const fail = (m) => { throw new Error("regex: " + m + " in /" + src + "/"); };
  const mkset = (cs) => ({ t: "set", cs: icase ? foldCase(cs) : norm(cs) });
  const alt = () => { const as = [seq()]; while (src[i] === "|") { i++; as.push(seq()); } return as.length === 1 ? as[0] : { t: "alt", as }; };
  const seq = () => { const xs = []; while (i < src.length && src[i] !== "|" && src[i] !== ")") xs.push(quant(atomP())); return { t: "seq", xs }; };
  const quant = (a) => {
    let lo, hi; const c = src[i];
    if (c === "*") { lo = 0; hi = Infinity; i++; } else if (c === "+") { lo = 1; hi = Infinity; i++; } else if (c === "?") { lo = 0; hi = 1; i++; }
    else if (c === "{") { const m = /^\{(\d+)(,(\d*))?\}/.exec(src.slice(i)); if (!m) return a; lo = +m[1]; hi = m[2] === undefined ? lo : m[3] === "" ? Infinity : +m[3]; i += m[0].length; }
    else return a;
    let lazy = false; if (src[i] === "?") { lazy = true; i++; }
    return { t: "rep", x: a, lo, hi, lazy };
  };
  const escClass = (c) => ({ d: DIGIT, D: negate(DIGIT), w: WORD, W: negate(WORD), s: SPACE, S: negate(SPACE) })[c];
  const escChar = (c) => {
    const m = { n: 10, r: 13, t: 9, v: 11, f: 12, 0: 0 }; if (c in m) return m[c];
    if (c === "x") { const h = src.substr(i, 2); i += 2; return parseInt(h, 16); }
    if (c === "u") { if (src[i] === "{") { const j = src.indexOf("}", i); const h = src.slice(i + 1, j); i = j + 1; const v = parseInt(h, 16); if (v > MAXC) fail("astral"); return v; } const h = src.substr(i, 4); i += 4; return parseInt(h, 16); }
    return c.charCodeAt(0);
  };
  const atomP = () => {
    const c = src[i++];
    if (c === ".") return { t: "set", cs: dotAll ? ALL : negate(LINETERM) };
    if (c === "^") { if (multi) fail("m flag"); return { t: "bol" }; }
    if (c === "$") { if (multi) fail("m flag"); return { t: "eol" }; }
    if (c === "(") {
      let cap = -1, look = null, name;
      if (src[i] === "?") {
        if (src[i + 1] === ":") i += 2;
        else if (src[i + 1] === "=" || src[i + 1] === "!") { look = src[i + 1]; i += 2; }
        else if (src[i + 1] === "<" && src[i + 2] !== "=" && src[i + 2] !== "!") { const j = src.indexOf(">", i); name = src.slice(i + 2, j); i = j + 1; cap = ++ncap; names[name] = cap; }
        else fail("group kind");
      } else cap = ++ncap;
      const x = alt(); if (src[i++] !== ")") fail("paren");
      return look ? { t: "look", neg: look === "!", x } : { t: "grp", x, cap };
    }
    if (c === "[") {
      let neg = false; if (src[i] === "^") { neg = true; i++; }
      let cs = [];
      const one = () => { let d = src[i++]; if (d === "\\") { d = src[i++]; const k = escClass(d); if (k) return k; if (d === "b") return 8; return escChar(d); } if (uni && d.codePointAt && src.codePointAt(i - 1) > MAXC) fail("astral"); return d.charCodeAt(0); };
      while (src[i] !== "]") {
        if (i >= src.length) fail("class");
        const a = one();
        if (typeof a !== "number") { cs = cs.concat(a); continue; }
        if (src[i] === "-" && src[i + 1] !== "]") { i++; const b = one(); if (typeof b !== "number") { cs.push([a, a], [45, 45], ...b); } else cs.push([a, b]); }
        else cs.push([a, a]);
      }
      i++;
      cs = icase ? foldCase(norm(cs)) : norm(cs);
      return { t: "set", cs: neg ? negate(cs) : cs };
    }
    if (c === "\\") { const d = src[i++]; const k = escClass(d); if (k) return { t: "set", cs: k }; if (d === "b" || d === "B") return { t: "wb", neg: d === "B" }; if (/[1-9]/.test(d)) fail("backref"); if (d === "p" || d === "P") fail("unicode property"); if (d === "k") fail("named backref"); const v = escChar(d); return mkset([[v, v]]); }
    return mkset([[c.charCodeAt(0), c.charCodeAt(0)]]);
  };
  const ast = alt(); if (i < src.length) fail("trailing");
  return { ast, ncap, names };
};
const hasAnchor = (n) => n.t === "bol" || n.t === "eol" || n.t === "wb" || n.t === "look" || (n.t === "seq" && n.xs.some(hasAnchor)) || (n.t === "alt" && n.as.some(hasAnchor)) || ((n.t === "rep" || n.t === "grp") && hasAnchor(n.x));
export const simpleRe = (n) => { // no anchors inside
  switch (n.t) {
    case "set": return setToRe(n.cs);
    case "seq": { const o = []; let lit = ""; for (const x of n.xs) { if (x.t === "set" && sizeOf(x.cs) === 1) { lit += String.fromCharCode(x.cs[0][0]); continue; } if (lit) o.push(S.re.lit(lit)); lit = ""; o.push(simpleRe(x)); } if (lit) o.push(S.re.lit(lit)); return S.re.cat(...o); }
    case "alt": return S.re.union(...n.as.map(simpleRe));
    case "grp": return simpleRe(n.x);
    case "rep": { const r = simpleRe(n.x); if (n.lo === 0 && n.hi === Infinity) return S.re.star(r); if (n.lo === 1 && n.hi === Infinity) return S.re.plus(r); if (n.lo === 0 && n.hi === 1) return S.re.opt(r); return S.re.loop(r, n.lo, n.hi === Infinity ? "" : n.hi); }
  }
  throw new Error("regex: anchor in simple position " + n.t);
};
// distribute groups that contain anchors so that every alternative is a flat sequence
const flat = (n) => {
  if (n.t === "alt") return n.as.flatMap(flat);
  if (n.t === "grp" && hasAnchor(n.x)) return flat(n.x);
  if (n.t === "seq") { let acc = [[]]; for (const x of n.xs) { const opts = hasAnchor(x) && x.t !== "bol" && x.t !== "eol" && x.t !== "look" && x.t !== "wb" ? flat(x) : [[x]]; acc = acc.flatMap((a) => opts.map((o) => [...a, ...o])); } return acc; }
  if (n.t === "rep" && hasAnchor(n.x)) { if (n.lo === 0 && n.hi === 1) return [[], ...flat(n.x)]; throw new Error("regex: anchor under repetition"); }
  return [[n]];
};
// language of whole strings in which the regex finds a match
export const searchLang = (ast) => {
  const alts = flat(ast).map((xs) => {
    let pre = S.re.all(), post = S.re.all();
    while (xs.length && xs[0].t === "bol") { pre = null; xs = xs.slice(1); }
    while (xs.length && xs.at(-1).t === "eol") { post = null; xs = xs.slice(0, -1); }
    if (xs.length && xs.at(-1).t === "look") { // trailing lookahead
      const l = xs.at(-1); xs = xs.slice(0, -1);
      const cont = S.re.cat(lookLang(l), ...[]);
      post = l.neg ? S.re.comp(cont) : cont;
    }
    if (xs.length && xs[0].t === "look" && pre === null) { // ^(?!x)...
      const l = xs[0]; xs = xs.slice(1);
      const body = S.re.cat(...xs.map(simpleRe), ...(post ? [post] : []));
      const cont = lookLang(l); return S.re.inter(body, l.neg ? S.re.comp(cont) : cont);
    }
    if (xs.some(hasAnchor)) throw new Error("regex: inner anchor");
    return S.re.cat(...(pre ? [pre] : []), simpleRe({ t: "seq", xs }), ...(post ? [post] : []));
  });
  return S.re.union(...alts);
};
const lookLang = (l) => S.re.union(...flat(l.x).map((xs) => { let post = S.re.all(); while (xs.length && xs.at(-1).t === "eol") { post = null; xs = xs.slice(0, -1); } return S.re.cat(simpleRe({ t: "seq", xs }), ...(post ? [post] : [])); }));
export const singleSet = (ast) => { while (ast.t === "seq" && ast.xs.length === 1) ast = ast.xs[0]; if (ast.t === "grp") return singleSet(ast.x); if (ast.t === "alt") { let cs = []; for (const a of ast.as) { const s = singleSet(a); if (!s) return null; cs = unite(cs, s); } return cs; } return ast.t === "set" ? ast.cs : null; };
// greedy trailing C+ / C* : the character after a match is outside C
export const trailingGreedy = (ast) => { while (ast.t === "seq" && ast.xs.length) ast = ast.xs.at(-1); if (ast.t === "grp") return trailingGreedy(ast.x); return ast.t === "rep" && !ast.lazy && ast.hi === Infinity && singleSet(ast.x) ? singleSet(ast.x) : null; };
export { flat, hasAnchor };
