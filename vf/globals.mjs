// Installation of the global objects.
import * as S from "./smt.mjs";
import { Interp, JObj, JArr, JFn, JMap, JPromise, JRegExp, JSymbol, JAny, JThrow, Cell, NORMAL, unsupported, el, isPrim } from "./interp.mjs";
const { T, isT } = S; const I0 = S.int(0), I1 = S.int(1);
const ret = (v) => ({ t: "ret", v });

export const install = (I) => {
  const P = (I.P = {}); I.globals = new Map(); I.symbols = {};
  P.Object = new JObj(null); P.Function = new JObj(P.Object); P.Array = new JObj(P.Object);
  for (const n of ["Number", "Boolean", "String", "BigInt", "Promise", "RegExp", "Map", "Set", "WeakMap", "WeakSet", "Date", "Symbol"]) P[n] = new JObj(P.Object);
  for (const n of ["iterator", "asyncIterator", "hasInstance", "toStringTag", "toPrimitive", "dispose", "asyncDispose"]) I.symbols[n] = new JSymbol("Symbol." + n);
  const all = []; const fn = (name, f) => { const x = I.fn(name, f); all.push(x); return x; };
  const def = (o, name, f) => o.props.set(name, { value: fn(typeof name === "string" ? name : "sym", f), enumerable: false });
  const glob = (name, v) => { const c = new Cell(v); c.birth = 0; I.globals.set(name, c); };
  glob("__dirname", "/dist");
  const lazyGlob = (name, th) => { const c = new Cell(undefined, th); c.birth = 0; I.globals.set(name, c); };
  const ctor = (name, proto, f) => { const C = fn(name, f); C.props.set("prototype", { value: proto, enumerable: false }); proto.props.set("constructor", { value: C, enumerable: false }); glob(name, C); return C; };
  const protoOf = function* (nt, dflt) { if (!nt) return dflt; const p = yield* I.get(nt, "prototype"); return p instanceof JObj ? p : dflt; };
  glob("undefined", undefined); glob("NaN", NaN); glob("Infinity", Infinity);

  // ---------------------------------------------------------------- Object
  const O = ctor("Object", P.Object, function* (_t, [v]) { v = I.force(v); return v instanceof JObj ? v : v === undefined || v === null ? I.obj() : v; });
  def(O, "keys", function* (_t, [o]) { const segs = yield* I.entrySegs(o); return new JArr(P.Array, segs.map((s) => (s.k === "el" ? el(s.v.segs[0].v) : I.mapSeg(s, (p) => [p.segs[0].v], true)))); });
  def(O, "values", function* (_t, [o]) { const segs = yield* I.entrySegs(o); return new JArr(P.Array, segs.map((s) => (s.k === "el" ? el(s.v.segs[1].v) : I.mapSeg(s, (p) => [p.segs[1].v], true)))); });
  def(O, "entries", function* (_t, [o]) { const segs = yield* I.entrySegs(o); return new JArr(P.Array, segs.map((s) => (s.k === "el" ? el(I.arr([s.v.segs[0].v, s.v.segs[1].v])) : s))); });
  def(O, "assign", function* (_t, [o, ...src]) { o = I.force(o); for (const s of src) { const tmp = I.force(s); if (tmp === undefined || tmp === null) continue; if (o.proxy || [...(tmp.props?.keys() ?? [])].some((k) => o.props.get(k)?.set)) { for (const e of yield* I.entrySegs(tmp)) { if (e.k !== "el") unsupported("assign"); yield* I.set(o, e.v.segs[0].v, e.v.segs[1].v); } } else yield* I.copyProps(o, tmp); } return o; });
  def(O, "fromEntries", function* (_t, [it]) {
    const segs = yield* I.iterSegs(it); const o = new JObj(P.Object);
    for (const s of segs) {
      if (s.k === "el") { const k = yield* I.toKey(yield* I.get(s.v, 0)); yield* I.defineOwn(o, k, yield* I.get(s.v, 1)); }
      else { I.makeLayered(o); I.setField(o, "layers", [...o.layers, { dict: [I.mapSeg(s, function* (p) { p = I.force(p); if (p instanceof JArr && p.segs.length === 2 && p.segs.every((x) => x.k === "el")) { const k = yield* I.toKey(p.segs[0].v); return k === p.segs[0].v ? [p] : [I.arr([k, p.segs[1].v])]; } return [I.arr([yield* I.toKey(yield* I.get(p, 0)), yield* I.get(p, 1)])]; }, true)] }]); }
    }
    return o;
  });
  def(O, "freeze", function* (_t, [o]) { if (o instanceof JObj) I.setField(o, "frozen", true); return o; });
  def(O, "isFrozen", function* (_t, [o]) { return !(o instanceof JObj) || o.frozen; });
  def(O, "seal", function* (_t, [o]) { return o; });
  def(O, "create", function* (_t, [p, ds]) { const o = new JObj(I.force(p)); if (ds) for (const [k, d] of ds.props) yield* defineProp(o, k, d.value); return o; });
  def(O, "getPrototypeOf", function* (_t, [o]) { o = I.force(o); if (o instanceof JObj) return o.proto; return I.isStr(o) ? P.String : I.isNum(o) ? P.Number : P.Boolean; });
  def(O, "setPrototypeOf", function* (_t, [o, p]) { I.setField(o, "proto", p); return o; });
  const defineProp = function* (o, k, d) {
    d = I.force(d); const old = o.props.get(k); const has = function* (n) { return yield* I.hasProp(d, n); };
    const g = (yield* has("get")) ? yield* I.get(d, "get") : undefined, s = (yield* has("set")) ? yield* I.get(d, "set") : undefined;
    const en = (yield* has("enumerable")) ? I.test(yield* I.get(d, "enumerable")) : old ? old.enumerable : false;
    const writable = (yield* has("writable")) ? I.test(yield* I.get(d, "writable")) : old && !old.get ? !old.readonly : false;
    if (o instanceof JArr && typeof k === "string" && /^\d+$/.test(k)) { yield* I.set(o, k, yield* I.get(d, "value")); return; }
    if (g !== undefined || s !== undefined) I.setProp(o, k, { get: g ?? null, set: s ?? null, enumerable: en });
    else I.setProp(o, k, { value: (yield* has("value")) ? yield* I.get(d, "value") : old?.value, enumerable: en, readonly: !writable });
  };
  I.defineProp = defineProp;
  def(O, "defineProperty", function* (_t, [o, k, d]) { yield* defineProp(o, yield* I.toKey(k), d); return o; });
  def(O, "defineProperties", function* (_t, [o, ds]) { for (const [k, d] of ds.props) yield* defineProp(o, k, d.value); return o; });
  const ownDesc = function* (o, k) { o = I.force(o); if (!(o instanceof JObj)) return undefined; const r = yield* I.getOwn(o, k); if (!r) return undefined; return r.get !== undefined || r.set !== undefined ? I.obj({ get: r.get ?? undefined, set: r.set ?? undefined, enumerable: !!r.enumerable, configurable: true }) : I.obj({ value: r.value, writable: !r.readonly, enumerable: r.enumerable ?? true, configurable: true }); };
  def(O, "getOwnPropertyDescriptor", function* (_t, [o, k]) { return yield* ownDesc(o, yield* I.toKey(k)); });
  def(O, "getOwnPropertyDescriptors", function* (_t, [o]) { const r = I.obj(); for (const k of o.props.keys()) I.rawSet(r, k, yield* ownDesc(o, k)); return r; });
  def(O, "getOwnPropertyNames", function* (_t, [o]) { o = I.force(o); if (o.layers) unsupported("getOwnPropertyNames of a dictionary"); return I.arr([...o.props.keys()].filter((k) => typeof k === "string")); });
  def(O, "getOwnPropertySymbols", function* (_t, [o]) { return I.arr([...o.props.keys()].filter((k) => k instanceof JSymbol)); });
  def(O, "hasOwn", function* (_t, [o, k]) { o = I.force(o); return !!(yield* I.getOwn(o, yield* I.toKey(k))); });
  def(O, "is", function* (_t, [a, b]) { a = I.force(a); b = I.force(b); return !isT(a) && !isT(b) ? Object.is(a, b) : I.strictEq(a, b); });
  def(P.Object, "hasOwnProperty", function* (t, [k]) { return !!(yield* I.getOwn(I.force(t), yield* I.toKey(k))); });
  def(P.Object, "propertyIsEnumerable", function* (t, [k]) { const r = yield* I.getOwn(I.force(t), yield* I.toKey(k)); return !!r && r.enumerable !== false; });
  def(P.Object, "isPrototypeOf", function* (t, [o]) { for (let x = I.force(o)?.proto; x; x = x.proto) if (x === t) return true; return false; });
  def(P.Object, "toString", function* (t) { t = I.force(t); if (t === undefined) return "[object Undefined]"; if (t === null) return "[object Null]"; const tag = t instanceof JObj ? yield* I.get(t, I.symbols.toStringTag) : undefined; if (tag !== undefined) return I.cat("[object ", tag, "]"); return t instanceof JArr ? "[object Array]" : t instanceof JFn ? "[object Function]" : t.isError ? "[object Error]" : "[object Object]"; });
  def(P.Object, "toLocaleString", function* (t) { return yield* I.toStr(t); });
  def(P.Object, "valueOf", function* (t) { return t; }); P.Object.props.get("valueOf").value.isDefaultValueOf = true;
  P.Object.props.set("__proto__", { get: fn("get __proto__", function* (t) { return t instanceof JObj ? t.proto : P.Object; }), set: null, enumerable: false });

  // ---------------------------------------------------------------- Function
  const F = ctor("Function", P.Function, function* () { unsupported("Function constructor"); });
  def(P.Function, "call", function* (t, [self, ...a]) { return yield* I.call(t, self, a); });
  def(P.Function, "apply", function* (t, [self, a]) { a = I.force(a); if (a === undefined || a === null) return yield* I.call(t, self, []); const segs = yield* I.iterSegs(a); if (!segs.every((s) => s.k === "el")) { const r = []; r.restArr = new JArr(P.Array, segs); r.symbolicSpread = true; return yield* I.call(t, self, r); } return yield* I.call(t, self, segs.map((s) => s.v)); });
  def(P.Function, "bind", function* (t, [self, ...pre]) { const b = I.fn("bound " + t.name, function* (_x, a, _i, nt) { return nt ? yield* I.construct(t, [...pre, ...a]) : yield* I.call(t, self, [...pre, ...a]); }); b.birth = I.birthNow(); return b; });
  def(P.Function, "toString", function* (t) { return t.node ? t.node.getText() : `function ${t.name}() { [native code] }`; });
  def(P.Function, I.symbols.hasInstance, function* () { unsupported("explicit hasInstance"); }); P.Function.props.delete(I.symbols.hasInstance);
  P.Function.props.set("name", { get: fn("name", function* (t) { return t instanceof JFn ? t.name : ""; }), set: null, enumerable: false });
  P.Function.props.set("length", { get: fn("length", function* (t) { return t.node ? t.node.parameters?.filter((p) => p.name.text !== "this" && !p.initializer && !p.dotDotDotToken).length ?? 0 : 0; }), set: null, enumerable: false });

  // ---------------------------------------------------------------- Array
  const A = ctor("Array", P.Array, function* (_t, [n, ...rest]) { n = I.force(n); if (n === undefined) return I.arr([]); if (rest.length || !I.isNum(n)) return I.arr([n, ...rest]); if (typeof n === "number") { if (n > 5000) unsupported("big array"); return I.arr(new Array(n).fill(undefined)); } const b = I.newBase("Array", n, () => undefined); return new JArr(P.Array, [I.rawSeg(b)]); });
  def(A, "isArray", function* (_t, [v]) { return I.force(v) instanceof JArr; });
  def(A, "of", function* (_t, a) { return I.arr(a); });
  def(A, "from", function* (_t, [it, f]) {
    it = I.force(it); let segs;
    if (it instanceof JObj && !(it instanceof JArr) && !(it instanceof JMap) && !(yield* I.get(it, I.symbols.iterator))) {
      const n = I.force(yield* I.get(it, "length")); if (!I.isNum(n)) segs = []; else if (typeof n === "number") { segs = []; for (let i = 0; i < n; i++) segs.push(el(yield* I.get(it, String(i)))); } else { const b = I.newBase("from", n, () => undefined); segs = [I.rawSeg(b)]; }
    } else segs = yield* I.iterSegs(it);
    if (!f || I.force(f) === undefined) return new JArr(P.Array, [...segs]);
    return yield* mapOver(new JArr(P.Array, segs), f, undefined);
  });
  const loop = (a, f, body) => I.loopSegs(a.segs, body);
  const arrOf = function* (t) { t = I.force(t); if (t instanceof JArr) return t; if (I.isStr(t)) return new JArr(P.Array, yield* I.iterSegs(t)); if (t && t.proxy) return yield* arrOf(t.proxy.target); if (t instanceof JObj) { const n = I.force(yield* I.get(t, "length")); if (typeof n === "number") { const o = []; for (let i = 0; i < n; i++) o.push(el(yield* I.get(t, String(i)))); return new JArr(P.Array, o); } } unsupported("array method on a non-array"); };
  const mapOver = function* (a, f, self) { const out = new JArr(P.Array, []); yield* I.loopSegs(a.segs, function* (v, i) { I.pushSegs(out, [el(yield* I.call(f, self, [v, idx(i), a]))]); return NORMAL; }); return out; };
  const idx = (i) => (i === null || i === undefined ? I.fresh("idx", "Int") : I.lower(i));
  def(P.Array, "map", function* (t, [f, self]) { return yield* mapOver(yield* arrOf(t), f, self); });
  def(P.Array, "forEach", function* (t, [f, self]) { const a = yield* arrOf(t); yield* I.loopSegs(a.segs, function* (v, i) { yield* I.call(f, self, [v, idx(i), a]); return NORMAL; }); });
  def(P.Array, "filter", function* (t, [f, self]) { const a = yield* arrOf(t); const out = new JArr(P.Array, []); yield* I.loopSegs(a.segs, function* (v, i) { if (I.test(yield* I.call(f, self, [v, idx(i), a]))) I.pushSegs(out, [el(v)]); return NORMAL; }); return out; });
  def(P.Array, "some", function* (t, [f, self]) { const a = yield* arrOf(t); const c = yield* I.loopSegs(a.segs, function* (v, i) { return I.test(yield* I.call(f, self, [v, idx(i), a])) ? ret(true) : NORMAL; }); return c.t === "ret"; });
  def(P.Array, "every", function* (t, [f, self]) { const a = yield* arrOf(t); const c = yield* I.loopSegs(a.segs, function* (v, i) { return I.test(yield* I.call(f, self, [v, idx(i), a])) ? NORMAL : ret(false); }); return c.t !== "ret"; });
  const finder = (dir, wantIdx) => function* (t, [f, self]) { const a = yield* arrOf(t); const segs = dir > 0 ? a.segs : [...a.segs].reverse(); if (dir < 0) { for (const s of segs) { const r = yield* I.findIn(s, (v, II, i) => I.call(f, self, [v, idx(i), a]), "last"); if (r.found) { if (wantIdx && a.segs.length > 1) unsupported("findLastIndex"); return wantIdx ? I.lower(r.idx) : r.v; } } return wantIdx ? -1 : undefined; } const c = yield* I.loopSegs(segs, function* (v, i) { const ii = idx(i); return I.test(yield* I.call(f, self, [v, ii, a])) ? ret(wantIdx ? ii : v) : NORMAL; }); return c.t === "ret" ? c.v : wantIdx ? -1 : undefined; };
  def(P.Array, "find", finder(1, false)); def(P.Array, "findIndex", finder(1, true)); def(P.Array, "findLast", finder(-1, false)); def(P.Array, "findLastIndex", finder(-1, true));
  const idxOf = (wantIdx) => function* (t, [x, from]) {
    const a = yield* arrOf(t); let off = I0; if (from !== undefined && from !== 0) return yield* idxOf(wantIdx)(yield* I.arrSlice(a, from), [x]);
    for (const s of a.segs) { const r = yield* I.findIn(s, (v) => (wantIdx ? I.strictEq(v, x) : I.sameValueZero(v, x)), "first", s.k === "el" || !isT(x) && typeof x !== "string" ? null : "idx:" + (s.sid ??= I.counter++) + ":" + (isT(x) ? x.id : "s" + x)); if (r.found) return wantIdx ? I.lower(S.add(off, r.idx)) : true; off = S.add(off, I.segLen(s)); }
    return wantIdx ? -1 : false;
  };
  def(P.Array, "includes", function* (t, args) { // one disjunction when every element is known and primitive
    const a = yield* arrOf(t); const x = I.force(args[0]);
    if (isT(x) && a.segs.every((s) => s.k === "el" && isPrim(s.v) && !(s.v instanceof JAny))) return I.lower(S.or(...a.segs.map((s) => { const c = I.strictEq(s.v, x); return typeof c === "boolean" ? S.bool(c) : c; })));
    return yield* idxOf(false)(a, args);
  });
  def(P.Array, "indexOf", idxOf(true));
  def(P.Array, "lastIndexOf", function* (t, [x]) { const a = yield* arrOf(t); if (!a.segs.every((s) => s.k === "el")) unsupported("lastIndexOf"); for (let i = a.segs.length - 1; i >= 0; i--) if (I.branch(I.lift(I.strictEq(a.segs[i].v, x)))) return i; return -1; });
  def(P.Array, "push", function* (t, args) { const extra = args.symbolicSpread ? args.restArr.segs : args.spreadSegs ?? args.map(el); if (t instanceof JArr) { if (t.frozen) I.throwError("TypeError", "Cannot add property, object is not extensible"); I.pushSegs(t, extra); return I.lower(I.arrLen(t)); } unsupported("push"); });
  def(P.Array, "unshift", function* (t, args) { I.setSegs(t, [...args.map(el), ...t.segs]); return I.lower(I.arrLen(t)); });
  def(P.Array, "pop", function* (t) { if (t.segs.length === 0) return undefined; const l = t.segs.at(-1); if (l.k === "el") { I.setSegs(t, t.segs.slice(0, -1)); return l.v; } const len = I.arrLen(t); if (!I.branch(S.gt(len, I0))) return undefined; const r = yield* I.arrAt(t, S.sub(len, I1)); const rest = yield* I.subSeq(t, I0, S.sub(len, I1)); I.setSegs(t, rest.segs); return r.v; });
  def(P.Array, "shift", function* (t) { if (t.segs.length === 0) return undefined; const l = t.segs[0]; if (l.k === "el") { I.setSegs(t, t.segs.slice(1)); return l.v; } const len = I.arrLen(t); if (!I.branch(S.gt(len, I0))) return undefined; const r = yield* I.arrAt(t, 0); const rest = yield* I.subSeq(t, I1, len); I.setSegs(t, rest.segs); return r.v; });
  def(P.Array, "slice", function* (t, [a, b]) { const arr = yield* arrOf(t); const i = yield* I.intArg(a, 0), j = b === undefined ? undefined : yield* I.intArg(b, 0); return yield* I.arrSlice(arr, i, j); });
  def(P.Array, "splice", function* (t, [a, n, ...ins]) { const i = yield* I.intArg(a, 0); if (t.segs.every((s) => s.k === "el") && !isT(i) && !isT(n)) { const c = [...t.segs]; const rem = n === undefined ? c.splice(i) : c.splice(i, n, ...ins.map(el)); I.setSegs(t, c); return new JArr(P.Array, rem); }
    const len = I.arrLen(t); const st = I.lift(i); if (!(I.entailed(S.and(S.ge(st, I0), S.le(st, len))) === true)) unsupported("splice index"); const cnt = n === undefined ? S.sub(len, st) : I.lift(yield* I.intArg(n, 0)); const head = yield* I.subSeq(t, I0, st); const end = S.min(S.add(st, cnt), len); const mid = yield* I.subSeq(t, st, end); const tail = yield* I.subSeq(t, end, len); I.setSegs(t, [...head.segs, ...ins.map(el), ...tail.segs]); return mid; });
  def(P.Array, "concat", function* (t, args) { const out = [...t.segs]; for (const a of args) { const v = I.force(a); if (v instanceof JArr) out.push(...v.segs); else out.push(el(v)); } return new JArr(P.Array, out); });
  def(P.Array, "join", function* (t, [sep]) { const a = yield* arrOf(t); return yield* I.joinSegs(a.segs, sep === undefined ? "," : yield* I.toStr(sep)); });
  def(P.Array, "toString", function* (t) { return yield* I.joinSegs(t.segs, ","); });
  def(P.Array, "reverse", function* (t) { if (t.segs.every((s) => s.k === "el")) { I.setSegs(t, [...t.segs].reverse()); return t; } if (t.segs.length === 1 && t.segs[0].exact) { const s = t.segs[0], L = s.base.len; const b = I.newBase("rev", L, function* (i) { const r = yield* s.f(S.sub(S.sub(L, I1), i)); return r[0]; }); I.setSegs(t, [I.rawSeg(b)]); return t; } unsupported("reverse"); });
  const sortInto = function* (t, cmp) { const r = yield* I.sortSegs(t.segs, cmp); if (r) return r; return [yield* I.sortedSym(t, cmp)]; };
  I.sortedSym = I.sortedSym ?? function* () { unsupported("sort of a sequence of unknown length"); };
  def(P.Array, "sort", function* (t, [cmp]) { I.setSegs(t, yield* sortInto(t, cmp)); return t; });
  def(P.Array, "toSorted", function* (t, [cmp]) { return new JArr(P.Array, yield* sortInto(t, cmp)); });
  def(P.Array, "toReversed", function* (t) { const c = new JArr(P.Array, [...t.segs]); return yield* P.Array.props.get("reverse").value.native(c, []); });
  def(P.Array, "reduce", function* (t, args) { const a = yield* arrOf(t); let segs = a.segs; const c = new Cell(args[1]); let off = 0; if (args.length < 2) { if (segs.length === 0) I.throwError("TypeError", "Reduce of empty array with no initial value"); if (segs[0].k !== "el") { const r = yield* I.arrAt(a, 0); if (!r.found) I.throwError("TypeError", "Reduce of empty array with no initial value"); c.v = r.v; segs = (yield* I.arrSlice(a, 1)).segs; } else { c.v = segs[0].v; segs = segs.slice(1); } off = 1; } yield* I.loopSegs(segs, function* (v, i) { const r = yield* I.call(args[0], undefined, [c.v, v, i === null ? idx(i) : I.lower(S.add(i, S.int(off))), a]); if (r !== c.v) I.setCell(c, r); return NORMAL; }); return c.v; });
  def(P.Array, "reduceRight", function* (t, args) { const a = yield* arrOf(t); if (!a.segs.every((s) => s.k === "el")) unsupported("reduceRight"); let acc = args[1]; for (let i = a.segs.length - 1; i >= 0; i--) acc = yield* I.call(args[0], undefined, [acc, a.segs[i].v, i, a]); return acc; });
  def(P.Array, "flat", function* (t, [d]) { d = d === undefined ? 1 : d; return yield* flatten(t.segs.map((s) => s), d); });
  const flatten = function* (segs, d) { const out = []; for (const s of segs) { if (s.k === "el") out.push(...(yield* I.flatSegs(s.v, d))); else out.push({ k: "fm", base: s.base, exact: false, multi: true, f: function* (i) { const o = []; for (const v of yield* s.f(i)) for (const x of yield* I.flatSegs(v, d)) { if (x.k !== "el") unsupported("flat of nested sequences"); o.push(x.v); } return o; } }); } return new JArr(P.Array, out); };
  def(P.Array, "flatMap", function* (t, [f, self]) { const a = yield* arrOf(t); const m = yield* mapOver(a, f, self); return yield* flatten(m.segs, 1); });
  def(P.Array, "at", function* (t, [i]) { const n = yield* I.intArg(i, 0); const L = I.arrLen(t); const k = typeof n === "number" && n >= 0 ? n : I.lower(isT(n) ? S.ite(S.lt(n, I0), S.add(L, n), n) : S.add(L, S.int(n))); const r = yield* I.arrAt(t, k); return r.found ? r.v : undefined; });
  def(P.Array, "fill", function* (t, [v]) { const I_ = I; I.setSegs(t, t.segs.map((s) => (s.k === "el" ? el(v) : I_.mapSeg(s, () => [v], true)))); return t; });
  const iterOf = (segs) => { const it = new JObj(P.Object); it.iterSegs = segs; let pos = 0; it.props.set("next", { value: I.fn("next", function* () { const r = yield* I.arrAt(new JArr(P.Array, segs), pos); pos++; return r.found ? I.obj({ value: r.v, done: false }) : I.obj({ value: undefined, done: true }); }), enumerable: false }); it.props.set(I.symbols.iterator, { value: I.fn("iter", function* () { return it; }), enumerable: false }); return it; };
  I.iterOf = iterOf;
  const itMethods = { map: "map", filter: "filter", forEach: "forEach", some: "some", every: "every", find: "find", reduce: "reduce" };
  def(P.Array, "values", function* (t) { return iterOf(t.segs); }); P.Array.props.set(I.symbols.iterator, P.Array.props.get("values"));
  def(P.Array, "keys", function* (t) { if (t.segs.every((s) => s.k === "el")) return iterOf(t.segs.map((_, i) => el(i))); const b = I.newBase("keys", I.arrLen(t), (i) => i); return iterOf([I.rawSeg(b)]); });
  def(P.Array, "entries", function* (t) { if (t.segs.every((s) => s.k === "el")) return iterOf(t.segs.map((s, i) => el(I.arr([i, s.v])))); const whole = new JArr(P.Array, t.segs); const one = t.segs.length === 1 && t.segs[0].exact ? t.segs[0] : null; if (one) return iterOf([{ k: "fm", base: one.base, exact: true, f: function* (i) { return [I.arr([i, (yield* one.f(i))[0]])]; } }]); const b = I.newBase("entries", I.arrLen(t), function* (i) { const r = yield* I.arrAt(whole, i); return I.arr([i, r.v]); }); return iterOf([I.rawSeg(b)]); });

  // ---------------------------------------------------------------- String
  const St = ctor("String", P.String, function* (_t, a, _i, nt) { return a.length ? yield* I.toStr(a[0]) : ""; });
  def(St, "fromCharCode", function* (_t, cs) { const out = []; for (const c of cs) { const n = yield* I.toNum(c); out.push(isT(n) ? S.fromCode(n) : String.fromCharCode(n)); } return I.cat("", ...out); });
  def(St, "fromCodePoint", function* (_t, cs) { return yield* St.props.get("fromCharCode").value.native(_t, cs); });
  def(St, "raw", function* (_t, [strs, ...vals]) { unsupported("String.raw"); });
  const sdef = (name, f) => def(P.String, name, function* (t, args) { t = I.force(t); if (t === undefined || t === null) I.throwError("TypeError", "String.prototype." + name + " called on null or undefined"); const s = yield* I.toStr(t); if (typeof s === "string" && args.every((a) => !isT(a) && isPrim(a)) && typeof String.prototype[name] === "function" && !["split", "match", "matchAll", "replace", "replaceAll"].includes(name)) return String.prototype[name].apply(s, args); return yield* f(s, args, I.lift(s)); });
  sdef("toString", function* (s) { return s; }); sdef("valueOf", function* (s) { return s; });
  sdef("charAt", function* (s, [i], t) { return I.lower(S.at(t, I.lift(yield* I.intArg(i, 0)))); });
  sdef("at", function* (s, [i], t) { const n = yield* I.intArg(i, 0); const k = typeof n === "number" ? (n >= 0 ? S.int(n) : S.add(S.strlen(t), S.int(n))) : S.ite(S.lt(n, I0), S.add(S.strlen(t), n), n); return I.branch(S.and(S.ge(k, I0), S.lt(k, S.strlen(t)))) ? I.lower(S.at(t, k)) : undefined; });
  sdef("charCodeAt", function* (s, [i], t) { const k = I.lift(yield* I.intArg(i, 0)); if (!I.branch(S.and(S.ge(k, I0), S.lt(k, S.strlen(t))))) return NaN; const c = S.toCode(S.at(t, k)); I.fact(S.implies(S.and(S.ge(k, I0), S.lt(k, S.strlen(t))), S.and(S.ge(c, I0), S.lt(c, S.int(65536))))); return I.lower(c); });
  sdef("codePointAt", function* (s, a, t) { const r = yield* P.String.props.get("charCodeAt").value.native(s, a); return Number.isNaN(r) ? undefined : r; });
  sdef("indexOf", function* (s, [p, from], t) { const x = I.lift(yield* I.toStr(p)); let f = I.lift(yield* I.intArg(from, 0)); if (!S.isConst(f) || S.constVal(f) < 0) f = S.max(f, I0); return I.lower(S.indexof(t, x, S.min(f, S.strlen(t)))); });
  sdef("lastIndexOf", function* (s, [p, from], t) { const x = I.lift(yield* I.toStr(p)); if (from !== undefined) { const f = I.lift(yield* I.intArg(from, 0)); return I.lower(I.lastIndexT(S.substr(t, I0, S.add(S.max(f, I0), S.strlen(x))), x)); } return I.lower(I.lastIndexT(t, x)); });
  sdef("includes", function* (s, [p, from], t) { const x = I.lift(yield* I.toStr(p)); if (from !== undefined) { const f = yield* I.intArg(from, 0); return I.lower(S.contains(I.strSlice(t, f), x)); } return I.lower(S.contains(t, x)); });
  sdef("startsWith", function* (s, [p, from], t) { const x = I.lift(yield* I.toStr(p)); if (from !== undefined) return I.lower(S.prefixof(x, I.strSlice(t, yield* I.intArg(from, 0)))); return I.lower(S.prefixof(x, t)); });
  sdef("endsWith", function* (s, [p, end], t) { const x = I.lift(yield* I.toStr(p)); return I.lower(S.suffixof(x, end === undefined ? t : I.strSlice(t, 0, yield* I.intArg(end, 0)))); });
  sdef("slice", function* (s, [a, b], t) { return I.lower(I.strSlice(t, yield* I.intArg(a, 0), b === undefined ? undefined : yield* I.intArg(b, 0))); });
  sdef("substring", function* (s, [a, b], t) { const len = S.strlen(t); const c = (n) => S.min(S.max(I.lift(n), I0), len); const x = c(yield* I.intArg(a, 0)), y = b === undefined ? len : c(yield* I.intArg(b, 0)); const swap = I.branch(S.le(x, y)); const [lo, hi] = swap ? [x, y] : [y, x]; return I.lower(S.substr(t, lo, S.sub(hi, lo))); });
  sdef("substr", function* (s, [a, b], t) { const len = S.strlen(t); const i = I.lift(yield* I.intArg(a, 0)); const st = S.ite(S.lt(i, I0), S.max(S.add(len, i), I0), S.min(i, len)); const n = b === undefined ? S.sub(len, st) : I.lift(yield* I.intArg(b, 0)); return I.lower(S.substr(t, st, n)); });
  sdef("trim", function* (s, a, t) { return I.trimParts(t).mid; });
  sdef("trimStart", function* (s, a, t) { const p = I.trimParts(t); return S.concat(p.mid, p.post); });
  sdef("trimEnd", function* (s, a, t) { const p = I.trimParts(t); return S.concat(p.pre, p.mid); });
  sdef("toLowerCase", function* (s, a, t) { return I.lower(I.caseMap(t, false)); }); sdef("toUpperCase", function* (s, a, t) { return I.lower(I.caseMap(t, true)); });
  sdef("toLocaleLowerCase", function* (s, a, t) { return I.lower(I.caseMap(t, false)); });
  sdef("concat", function* (s, args) { const out = [s]; for (const a of args) out.push(yield* I.toStr(a)); return I.cat(...out); });
  sdef("repeat", function* (s, [n], t) { const k = I.lift(yield* I.intArg(n, 0)); if (!I.branch(S.ge(k, I0))) I.throwError("RangeError", "Invalid count value"); return I.lower(I.repeatT(t, k)); });
  const pad = (start) => function* (s, [n, p], t) { const k = I.lift(yield* I.intArg(n, 0)); const fill = p === undefined ? " " : yield* I.toStr(p); const need = S.sub(k, S.strlen(t)); if (!I.branch(S.gt(need, I0))) return s; if (typeof fill !== "string" || fill.length !== 1) { const f = S.uf("pad", "String", [I.lift(fill), need]); I.fact(S.eq(S.strlen(f), need)); return I.lower(start ? S.concat(f, t) : S.concat(t, f)); } const f = I.repeatT(S.str(fill), need); return I.lower(start ? S.concat(f, t) : S.concat(t, f)); };
  sdef("padStart", pad(true)); sdef("padEnd", pad(false));
  sdef("split", function* (s, [sep, lim]) { return yield* I.strSplit(s, sep, lim === undefined ? undefined : yield* I.intArg(lim, 0)); });
  sdef("replace", function* (s, [a, b]) { return yield* I.strReplace(s, a, b, false); });
  sdef("replaceAll", function* (s, [a, b]) { return yield* I.strReplace(s, a, b, true); });
  sdef("match", function* (s, [r]) { r = I.force(r); if (!(r instanceof JRegExp)) r = I.newRegExp(yield* I.toStr(r), ""); if (I.reStateful(r)) { if (typeof s === "string") { const m = s.match(new RegExp(r.source, r.flags)); return m ? I.arr([...m]) : null; } unsupported("global match"); } return yield* I.reExec(r, s); });
  sdef("matchAll", function* (s, [r]) { if (typeof s === "string") { const out = []; for (const m of s.matchAll(new RegExp(r.source, r.flags))) { const a = I.arr([...m]); I.rawSet(a, "index", m.index, true); I.rawSet(a, "groups", m.groups ? I.obj({ ...m.groups }) : undefined, true); out.push(el(a)); } return iterOf(out); } unsupported("matchAll of a symbolic string"); });
  sdef("search", function* (s, [r]) { const m = yield* I.reExec(r, s); return m === null ? -1 : yield* I.get(m, "index"); });
  sdef("localeCompare", function* (s, [o], t) { const x = I.lift(yield* I.toStr(o)); if (I.branch(S.eq(t, x))) return 0; const r = S.uf("localeCompare", "Int", [t, x]); I.fact(S.or(S.eq(r, I1), S.eq(r, S.int(-1)))); I.fact(S.eq(S.uf("localeCompare", "Int", [x, t]), S.neg(r))); return r; });
  sdef("normalize", function* (s, a, t) { return S.uf("normalize", "String", [t]); });
  sdef("isWellFormed", function* (s, a, t) { return S.uf("isWellFormed", "Bool", [t]); });
  def(P.String, I.symbols.iterator, function* (t) { return iterOf(yield* I.iterSegs(t)); });

  // ---------------------------------------------------------------- Number, Boolean, BigInt, Math
  const N = ctor("Number", P.Number, function* (_t, a) { if (!a.length) return 0; const v = I.force(a[0]); if (typeof v === "bigint") return Number(v); return yield* I.toNum(v); });
  for (const k of ["MAX_SAFE_INTEGER", "MIN_SAFE_INTEGER", "EPSILON", "MAX_VALUE", "MIN_VALUE", "POSITIVE_INFINITY", "NEGATIVE_INFINITY", "NaN"]) I.rawSet(N, k, Number[k], true);
  const isIntT = (v) => (isT(v) ? (v.sort === "Int" ? true : v.sort === "Real" ? I.lower(S.eq(S.toReal(S.toInt(v)), v)) : false) : Number.isInteger(v));
  def(N, "isInteger", function* (_t, [v]) { return isIntT(I.force(v)); });
  def(N, "isSafeInteger", function* (_t, [v]) { v = I.force(v); if (!isT(v)) return Number.isSafeInteger(v); const i = isIntT(v); return i === false ? false : I.lower(S.and(I.lift(i), S.le(v, S.int(Number.MAX_SAFE_INTEGER)), S.ge(v, S.int(Number.MIN_SAFE_INTEGER)))); });
  def(N, "isFinite", function* (_t, [v]) { v = I.force(v); return isT(v) ? I.isNum(v) : Number.isFinite(v); });
  def(N, "isNaN", function* (_t, [v]) { v = I.force(v); return isT(v) ? false : Number.isNaN(v); });
  glob("isNaN", fn("isNaN", function* (_t, [v]) { const n = yield* I.toNum(v); return isT(n) ? false : Number.isNaN(n); }));
  glob("isFinite", fn("isFinite", function* (_t, [v]) { const n = yield* I.toNum(v); return isT(n) ? true : Number.isFinite(n); }));
  const parseInt_ = fn("parseInt", function* (_t, [s, radix]) {
    const v = I.force(s); if (isT(v) && v.sort === "Int") return v; const t = yield* I.toStr(v); const rx = radix === undefined ? 10 : yield* I.intArg(radix, 10);
    if (typeof t === "string") return parseInt(t, rx === 10 && radix === undefined ? undefined : rx);
    if (rx === 10) { if (I.branch(S.inRe(t, S.re.plus(S.re.range(48, 57))))) return S.strToInt(t); if (I.branch(S.inRe(t, S.re.cat(S.re.lit("-"), S.re.plus(S.re.range(48, 57)))))) return S.neg(S.strToInt(S.substr(t, I1, S.sub(S.strlen(t), I1)))); if (radix === undefined && I.branch(S.or(S.prefixof(S.str("0x"), t), S.prefixof(S.str("0X"), t)))) return S.uf("parseInt16", "Int", [t]); }
    else { const r = S.uf("parseInt" + rx, "Int", [t]); if (I.branch(S.uf("parseInt" + rx + ".nan", "Bool", [t]))) return NaN; if (rx === 16) { const hex = S.re.union(S.re.range(48, 57), S.re.range(65, 70), S.re.range(97, 102)); I.fact(S.implies(S.inRe(t, S.re.plus(hex)), S.and(S.not(S.uf("parseInt16.nan", "Bool", [t])), S.ge(r, I0)))); for (const w of [2, 4]) I.fact(S.implies(S.inRe(t, S.re.loop(hex, w, w)), S.lt(r, S.int(16 ** w)))); } return r; }
    // leading digits followed by something else, leading space, or no digits at all
    const lead = S.re.cat(S.re.star(S.re.union(S.re.lit(" "), S.re.range(9, 13))), S.re.opt(S.re.union(S.re.lit("+"), S.re.lit("-"))), S.re.range(48, 57), S.re.all());
    if (I.branch(S.inRe(t, lead))) { const r = S.uf("parseInt", "Int", [t]); I.fact(S.implies(S.inRe(t, S.re.cat(S.re.range(48, 57), S.re.all())), S.ge(r, I0))); return r; }
    if (I.branch(S.inRe(t, S.re.star(S.re.range(0, 127))))) return NaN;
    if (I.branch(S.uf("parseInt.weird", "Bool", [t]))) return S.uf("parseInt", "Int", [t]);
    return NaN;
  });
  glob("parseInt", parseInt_); N.props.set("parseInt", { value: parseInt_, enumerable: false });
  const parseFloat_ = fn("parseFloat", function* (_t, [s]) { const v = I.force(s); if (I.isNum(v)) return v; const t = yield* I.toStr(v); if (typeof t === "string") return parseFloat(t); if (I.branch(S.inRe(t, S.re.plus(S.re.range(48, 57))))) return S.strToInt(t); if (I.branch(S.uf("parseFloat.nan", "Bool", [t]))) return NaN; return S.uf("parseFloat", "Real", [t]); });
  glob("parseFloat", parseFloat_); N.props.set("parseFloat", { value: parseFloat_, enumerable: false });
  const hexSet = S.re.union(S.re.range(48, 57), S.re.range(97, 102)), b36 = S.re.union(S.re.range(48, 57), S.re.range(97, 122));
  def(P.Number, "toString", function* (t, [radix]) { t = I.force(t); if (!isT(t)) return t.toString(radix); const r = radix === undefined ? 10 : radix; if (r === 10) return yield* I.toStr(t); const u = S.uf("toString" + r, "String", [t]); I.fact(S.ge(S.strlen(u), I1)); if (t.sort === "Int") { I.fact(S.implies(S.ge(t, I0), S.inRe(u, S.re.plus(r === 16 ? hexSet : b36)))); if (r === 16) for (const k of [1, 2, 4, 8]) I.fact(S.implies(S.and(S.ge(t, I0), S.lt(t, S.int(16n ** BigInt(k)))), S.le(S.strlen(u), S.int(k)))); } return u; });
  def(P.Number, "toFixed", function* (t, [d]) { t = I.force(t); if (!isT(t)) return t.toFixed(d); const u = S.uf("toFixed" + (d ?? 0), "String", [S.toReal(t)]); return u; });
  def(P.Number, "toLocaleString", function* (t) { return isT(t) ? S.uf("numLocale", "String", [S.toReal(t)]) : t.toLocaleString(); });
  def(P.Number, "valueOf", function* (t) { return t; });
  ctor("Boolean", P.Boolean, function* (_t, [v]) { const b = I.truthy(v); return b; });
  def(P.Boolean, "toString", function* (t) { return yield* I.toStr(t); }); def(P.Boolean, "valueOf", function* (t) { return t; });
  const B = ctor("BigInt", P.BigInt, function* (_t, [v]) { v = I.force(v); if (isT(v)) unsupported("symbolic BigInt"); try { return BigInt(v); } catch (e) { I.throwError(e instanceof RangeError ? "RangeError" : "SyntaxError", e.message); } });
  def(P.BigInt, "toString", function* (t, [r]) { return t.toString(r); });
  def(B, "asUintN", function* (_t, [n, v]) { return BigInt.asUintN(n, v); });
  const M = I.obj(); glob("Math", M);
  for (const k of ["PI", "E", "LN2", "LN10", "SQRT2"]) I.rawSet(M, k, Math[k], true);
  const mdef = (name, f) => def(M, name, function* (_t, args) { const xs = []; for (const a of args) xs.push(yield* I.toNum(a)); if (args.symbolicSpread) return yield* f(xs, args.restArr); if (xs.every((x) => !isT(x))) return Math[name](...xs); return yield* f(xs); });
  mdef("floor", function* ([x]) { return I.lower(S.toInt(x)); });
  mdef("ceil", function* ([x]) { return I.lower(x.sort === "Int" ? x : S.neg(S.toInt(S.neg(x)))); });
  mdef("round", function* ([x]) { return I.lower(x.sort === "Int" ? x : S.toInt(S.add(x, S.real(1, 2)))); });
  mdef("trunc", function* ([x]) { return x.sort === "Int" ? x : I.branch(S.ge(x, I0)) ? S.toInt(x) : S.neg(S.toInt(S.neg(x))); });
  mdef("abs", function* ([x]) { return I.lower(S.ite(S.lt(x, I0), S.neg(x), x)); });
  mdef("sign", function* ([x]) { return I.branch(S.gt(x, I0)) ? 1 : I.branch(S.eq(x, I0)) ? 0 : -1; });
  const mm = (isMin) => function* (xs, rest) {
    if (rest) { const out = new Cell(isMin ? Infinity : -Infinity); const b = rest; const len = I.arrLen(b); if (!I.branch(S.gt(len, I0))) return out.v; const r = I.fresh(isMin ? "min" : "max", "Real"); const j = I.fresh("mj", "Int"); I.assume(S.and(S.ge(j, I0), S.lt(j, len))); const w = yield* I.arrAt(b, j); I.assume(S.eq(r, S.toReal(I.lift(yield* I.toNum(w.v))))); for (const s of b.segs) { if (s.k === "el") I.assume(isMin ? S.le(r, I.lift(s.v)) : S.ge(r, I.lift(s.v))); else I.addUniv(s.base, (i) => S.lt(i, s.base.len), function* (i) { const o = yield* s.f(i); return S.and(...o.map((v) => (isMin ? S.le(r, I.lift(I.force(v))) : S.ge(r, I.lift(I.force(v)))))); }); } return r; }
    let acc = xs[0]; for (const x of xs.slice(1)) { if (typeof acc === "number" && !Number.isFinite(acc)) { if (Number.isNaN(acc)) return NaN; acc = (acc > 0) === isMin ? x : acc; continue; } if (typeof x === "number" && !Number.isFinite(x)) { if (Number.isNaN(x)) return NaN; acc = (x > 0) === isMin ? acc : x; continue; } const a = I.lift(acc), b = I.lift(x); acc = I.lower(isMin ? S.min(a, b) : S.max(a, b)); } return acc; };
  mdef("min", mm(true)); mdef("max", mm(false));
  mdef("random", function* () { return 0; });
  M.props.set("random", { value: fn("random", function* () { const t = I.fresh("random", "Real"); I.fact(S.and(S.ge(t, I0), S.lt(t, I1))); return t; }), enumerable: false });
  mdef("pow", function* ([x, y]) { return I.arith("**", x, y); });
  for (const n of ["sqrt", "log", "log2", "log10", "exp", "cbrt"]) mdef(n, function* ([x]) { return S.uf("math." + n, "Real", [S.toReal(x)]); });
  mdef("imul", function* ([x, y]) { const t = S.uf("imul", "Int", [I.lift(x), I.lift(y)]); I.fact(S.and(S.ge(t, S.int(-2147483648)), S.lt(t, S.int(2147483648)))); return t; });
  mdef("clz32", function* ([x]) { return S.uf("clz32", "Int", [x]); }); mdef("hypot", function* (xs) { return S.uf("hypot", "Real", xs.map((x) => S.toReal(I.lift(x)))); });

  // ---------------------------------------------------------------- Symbol
  const Sy = ctor("Symbol", P.Symbol, function* (_t, [d]) { return new JSymbol(typeof d === "string" ? d : "symbol"); });
  for (const k of Object.keys(I.symbols)) Sy.props.set(k, { value: I.symbols[k], enumerable: false });
  const registry = new Map(); def(Sy, "for", function* (_t, [k]) { k = yield* I.toStr(k); if (!registry.has(k)) registry.set(k, new JSymbol(k)); return registry.get(k); });

  // ---------------------------------------------------------------- Errors
  const errProto = new JObj(P.Object); P.Error = errProto;
  const mkErr = (name, proto, parent) => {
    const C = ctor(name, proto, function* (_t, [msg, opts], _i, nt) { const e = new JObj(yield* protoOf(nt, proto)); e.isError = true; e.cls = nt?.name ?? name; if (name === "AggregateError") { I.setProp(e, "errors", { value: msg, enumerable: false }); msg = opts; opts = undefined; } msg = I.force(msg); if (msg !== undefined) I.rawSet(e, "message", yield* I.toStr(msg), true); I.rawSet(e, "stack", I.fresh("stack", "String"), true); opts = I.force(opts); if (opts instanceof JObj && (yield* I.hasProp(opts, "cause"))) I.rawSet(e, "cause", yield* I.get(opts, "cause"), true); return e; });
    I.rawSet(proto, "name", name, true); I.rawSet(proto, "message", "", true); if (parent) C.proto = parent; return C;
  };
  const E = mkErr("Error", errProto);
  def(errProto, "toString", function* (t) { const n = yield* I.toStr(yield* I.get(t, "name")), m = yield* I.toStr(yield* I.get(t, "message")); return m === "" ? n : I.cat(n, ": ", m); });
  def(E, "captureStackTrace", function* () { });
  for (const n of ["TypeError", "RangeError", "SyntaxError", "ReferenceError", "EvalError", "URIError", "AggregateError"]) mkErr(n, new JObj(errProto), E);

  // ---------------------------------------------------------------- JSON
  const J = I.obj(); glob("JSON", J);
  def(J, "stringify", function* (_t, [v, r, s]) { return yield* I.jsonStringify(v, r, s); });
  def(J, "parse", function* (_t, [s, rev]) { if (rev !== undefined) unsupported("JSON reviver"); return yield* I.jsonParse(s); });

  // ---------------------------------------------------------------- Map, Set
  for (const [name, isSet, proto] of [["Map", false, P.Map], ["Set", true, P.Set], ["WeakMap", false, P.WeakMap], ["WeakSet", true, P.WeakSet]]) {
    ctor(name, proto, function* (_t, [it], _i, nt) {
      const m = I.newMap(isSet); m.proto = yield* protoOf(nt, proto); it = I.force(it); if (it === undefined || it === null) return m;
      const segs = yield* I.iterSegs(it);
      for (const s of segs) { if (s.k === "el") { if (isSet) yield* I.mapSet(m, s.v); else yield* I.mapSet(m, yield* I.get(s.v, 0), yield* I.get(s.v, 1)); } else { I.setField(m, "dups", !(it instanceof JMap && !it.dups) && !s.base.distinctKeys); I.setSegs(m.store, [...m.store.segs, s]); } }
      return m;
    });
    def(proto, "has", function* (t, [k]) { return (yield* I.mapFind(t, k)).found; });
    def(proto, "delete", function* (t, [k]) { return yield* I.mapDelete(t, k); });
    if (isSet) def(proto, "add", function* (t, [k]) { yield* I.mapSet(t, k); return t; });
    else { def(proto, "get", function* (t, [k]) { const r = yield* I.mapFind(t, k); return r.found ? r.v : undefined; }); def(proto, "set", function* (t, [k, v]) { yield* I.mapSet(t, k, v); return t; }); }
    if (name === "Map" || name === "Set") {
      def(proto, "clear", function* (t) { I.setSegs(t.store, []); I.setField(t, "dups", false); });
      proto.props.set("size", { get: fn("size", function* (t) { if (t.dups) { const n = I.fresh("size", "Int"); const L = I.arrLen(t.store); I.fact(S.and(S.ge(n, I0), S.le(n, L), S.eq(S.eq(n, I0), S.eq(L, I0)))); return n; } return I.lower(I.arrLen(t.store)); }), set: null, enumerable: false });
      const segsOf = (t, f) => { const segs = t.dups ? t.store.segs.map((s) => dedup(s)) : t.store.segs; return f ? segs.map((s) => (s.k === "el" ? el(f(s.v)) : I.mapSeg(s, (p) => [f(p)], true))) : segs; };
      const dedup = (s) => s.k === "el" ? s : { k: "fm", base: s.base, exact: false, f: function* (i) { return I.branch(S.uf("uniq!" + (s.sid ??= I.counter++), "Bool", [i])) ? yield* s.f(i) : []; } };
      I.setSegsOf = segsOf;
      def(proto, "values", function* (t) { return iterOf(segsOf(t, isSet ? null : (p) => p.segs[1].v)); });
      def(proto, "keys", function* (t) { return iterOf(segsOf(t, isSet ? null : (p) => p.segs[0].v)); });
      def(proto, "entries", function* (t) { return iterOf(segsOf(t, isSet ? (x) => I.arr([x, x]) : (p) => I.arr([p.segs[0].v, p.segs[1].v]))); });
      def(proto, I.symbols.iterator, function* (t) { return iterOf(segsOf(t, isSet ? null : (p) => I.arr([p.segs[0].v, p.segs[1].v]))); });
      def(proto, "forEach", function* (t, [f, self]) { yield* I.loopSegs(segsOf(t), function* (p) { yield* I.call(f, self, isSet ? [p, p, t] : [p.segs[1].v, p.segs[0].v, t]); return NORMAL; }); });
    }
  }

  // ---------------------------------------------------------------- Promise
  const Pr = ctor("Promise", P.Promise, function* (_t, [ex]) {
    const p = I.newPromise();
    try { yield* I.call(ex, undefined, [I.fn("resolve", function* (_x, [v]) { if (!p.locked) { I.setField(p, "locked", true); yield* I.resolveWith(p, v); } }), I.fn("reject", function* (_x, [v]) { if (!p.locked) { I.setField(p, "locked", true); I.settle(p, false, v); } })]); } catch (e) { if (!(e instanceof JThrow)) throw e; if (!p.locked) I.settle(p, false, e.value); }
    return p;
  });
  const then = (p, f, g) => { const q = I.newPromise(); I.onSettle(p, (ok, v) => { const h = ok ? f : g; if (!(h instanceof JFn)) { I.settle(q, ok, v); return; } I.runSync(function* () { try { yield* I.resolveWith(q, yield* I.call(h, undefined, [v])); } catch (e) { if (!(e instanceof JThrow)) throw e; I.settle(q, false, e.value); } }); }); return q; };
  I.thenP = then;
  const toP = function* (v) { v = I.force(v); if (v instanceof JPromise) return v; const p = I.newPromise(); yield* I.resolveWith(p, v); return p; };
  I.toPromise = toP;
  def(P.Promise, "then", function* (t, [f, g]) { return then(t, I.force(f), I.force(g)); });
  def(P.Promise, "catch", function* (t, [g]) { return then(t, undefined, g); });
  def(P.Promise, "finally", function* (t, [f]) { return then(t, I.fn("fin", function* (_x, [v]) { const r = yield* I.call(f, undefined, []); const q = yield* toP(r); return then(q, I.fn("v", function* () { return v; })); }), I.fn("fin", function* (_x, [v]) { const r = yield* I.call(f, undefined, []); const q = yield* toP(r); return then(q, I.fn("t", function* () { throw new JThrow(v); })); })); });
  def(Pr, "resolve", function* (_t, [v]) { return yield* toP(v); });
  def(Pr, "reject", function* (_t, [v]) { return I.rejectedP(v); });
  def(Pr, "withResolvers", function* () { const p = I.newPromise(); return I.obj({ promise: p, resolve: I.fn("resolve", function* (_x, [v]) { if (!p.locked) { I.setField(p, "locked", true); yield* I.resolveWith(p, v); } }), reject: I.fn("reject", function* (_x, [v]) { if (!p.locked) { I.setField(p, "locked", true); I.settle(p, false, v); } }) }); });
  // combinators over sequences of unknown length: every member is already settled or settles by microtasks alone
  const drain = (p) => { for (let n = 0; p.state === "pending"; n++) { if (I.micro.length && n < 5000) I.micro.shift()(); else unsupported("combinator over a sequence of pending promises"); } };
  const combo = (name) => function* (_t, [it]) {
    const segs = yield* I.iterSegs(it); const out = I.newPromise();
    if (segs.every((s) => s.k === "el")) {
      const n = segs.length; const vals = new JArr(P.Array, segs.map(() => el(undefined))); const box = { left: n, birth: I.birthNow() };
      if (n === 0) { if (name === "race") return out; if (name === "any") I.settle(out, false, I.makeError("AggregateError", "All promises were rejected")); else I.settle(out, true, vals); return out; }
      const done = () => { I.setField(box, "left", box.left - 1); return box.left === 0; };
      for (let i = 0; i < n; i++) {
        const p = yield* toP(segs[i].v); const put = (v) => { const c = [...vals.segs]; c[i] = el(v); I.setSegs(vals, c); };
        I.onSettle(p, (ok, v) => {
          if (name === "all") { if (!ok) { I.settle(out, false, v); return; } put(v); if (done()) I.settle(out, true, vals); }
          else if (name === "allSettled") { put(ok ? I.obj({ status: "fulfilled", value: v }) : I.obj({ status: "rejected", reason: v })); if (done()) I.settle(out, true, vals); }
          else if (name === "race") I.settle(out, ok, v);
          else { if (ok) { I.settle(out, true, v); return; } put(v); if (done()) { const e = I.makeError("AggregateError", "All promises were rejected"); I.rawSet(e, "errors", vals, true); I.settle(out, false, e); } }
        });
      }
      return out;
    }
    if (name !== "all" && name !== "allSettled") unsupported("Promise." + name + " over a sequence of unknown length");
    const res = new JArr(P.Array, []);
    const c = yield* I.loopSegs(segs, function* (v) {
      const p = yield* toP(v); if (p.state === "pending") drain(p);
      if (name === "allSettled") { I.pushSegs(res, [el(p.state === "fulfilled" ? I.obj({ status: "fulfilled", value: p.value }) : I.obj({ status: "rejected", reason: p.value }))]); return NORMAL; }
      if (p.state === "rejected") return ret(p.value);
      I.pushSegs(res, [el(p.value)]); return NORMAL;
    });
    if (c.t === "ret") I.settle(out, false, c.v); else I.settle(out, true, res);
    return out;
  };
  for (const n of ["all", "allSettled", "race", "any"]) def(Pr, n, combo(n));
  glob("queueMicrotask", fn("queueMicrotask", function* (_t, [f]) { I.micro.push(I.bindAls(() => I.runSync(function* () { yield* I.call(f, undefined, []); }))); }));

  // ---------------------------------------------------------------- timers and dates
  const timer = (repeat) => function* (_t, [f, d, ...args]) { let n = d === undefined ? 0 : yield* I.toNum(d); if (typeof n === "number") n = Number.isFinite(n) ? Math.max(n, 1) : 1; const t = I.addTimer(f, args, isT(n) ? S.max(n, I1) : S.fromJsNumber(n), repeat); const h = I.obj(); h.timer = t.id; def0(h, "unref", function* () { return h; }); def0(h, "ref", function* () { return h; }); return h; };
  const def0 = (o, k, f) => o.props.set(k, { value: I.fn(k, f), enumerable: false });
  const clear = function* (_t, [h]) { h = I.force(h); if (h && h.timer) for (const t of I.timers) if (t.id === h.timer) I.setField(t, "dead", true); };
  glob("setTimeout", fn("setTimeout", timer(false))); glob("setInterval", fn("setInterval", timer(true))); glob("clearTimeout", fn("clearTimeout", clear)); glob("clearInterval", fn("clearInterval", clear));
  glob("setImmediate", fn("setImmediate", function* (_t, [f, ...a]) { return yield* timer(false)(_t, [f, 0, ...a]); }));
  const nowT = () => { if (!I.nowBase) I.nowBase = true; return I.lower(S.add(I.leaf("now0", [], "Int"), I.lift(I.now))); };
  const D = ctor("Date", P.Date, function* (_t, args, _i, nt) { const d = new JObj(yield* protoOf(nt, P.Date)); d.isDate = true; if (!nt) return S.uf("dateStr", "String", [I.lift(nowT())]); let v = I.force(args[0]); if (args.length === 0) v = nowT(); else if (args.length > 1) unsupported("Date components"); else if (I.isStr(v)) { if (typeof v === "string") v = new Date(v).getTime(); else if (I.branch(S.uf("date.nan", "Bool", [v]))) v = NaN; else v = S.uf("date.parse", "Int", [v]); } else if (v && v.isDate) v = v.ms; else v = yield* I.toNum(v); d.ms = v; return d; });
  def(D, "now", function* () { return nowT(); });
  def(D, "UTC", function* (_t, args) { if (args.some((a) => isT(a))) unsupported("Date.UTC of an unknown time"); return Date.UTC(...args); });
  def(D, "parse", function* (_t, [v]) { return typeof v === "string" ? Date.parse(v) : I.branch(S.uf("date.nan", "Bool", [v])) ? NaN : S.uf("date.parse", "Int", [v]); });
  def(P.Date, "getTime", function* (t) { return t.ms; }); def(P.Date, "valueOf", function* (t) { return t.ms; });
  const isoDigits = (n) => S.re.loop(S.re.range(48, 57), n, n);
  def(P.Date, "toISOString", function* (t) { if (!isT(t.ms)) { if (Number.isNaN(t.ms)) I.throwError("RangeError", "Invalid time value"); return new Date(t.ms).toISOString(); } const u = S.uf("iso", "String", [t.ms]); I.fact(S.inRe(u, S.re.cat(isoDigits(4), S.re.lit("-"), isoDigits(2), S.re.lit("-"), isoDigits(2), S.re.lit("T"), isoDigits(2), S.re.lit(":"), isoDigits(2), S.re.lit(":"), isoDigits(2), S.re.lit("."), isoDigits(3), S.re.lit("Z")))); return u; });
  def(P.Date, "toJSON", function* (t) { return yield* P.Date.props.get("toISOString").value.native(t, []); });
  def(P.Date, "toString", function* (t) { return isT(t.ms) ? S.uf("dateStr", "String", [t.ms]) : new Date(t.ms).toString(); });

  // ---------------------------------------------------------------- RegExp
  const RE = ctor("RegExp", P.RegExp, function* (_t, [s, f]) { s = I.force(s); if (s instanceof JRegExp) return I.newRegExp(s.source, f === undefined ? s.flags : f); s = yield* I.toStr(s); f = f === undefined ? "" : yield* I.toStr(f); if (isT(s) || isT(f)) { if (I.branch(S.uf("re.invalid", "Bool", [I.lift(s), I.lift(f)]))) I.throwError("SyntaxError", "Invalid regular expression"); } else { try { new RegExp(s, f); } catch (e) { I.throwError("SyntaxError", e.message); } } return I.newRegExp(s, f); });
  for (const k of ["source", "flags"]) P.RegExp.props.set(k, { get: fn(k, function* (t) { return t[k]; }), set: null, enumerable: false });
  for (const [k, c] of [["global", "g"], ["sticky", "y"], ["ignoreCase", "i"]]) P.RegExp.props.set(k, { get: fn(k, function* (t) { return isT(t.flags) ? I.lower(S.contains(t.flags, S.str(c))) : t.flags.includes(c); }), set: null, enumerable: false });
  def(P.RegExp, "test", function* (t, [s]) {
    s = yield* I.toStr(s);
    const stateful = isT(t.flags) ? I.branch(S.or(S.contains(t.flags, S.str("g")), S.contains(t.flags, S.str("y")))) : I.reStateful(t);
    if (!stateful) return I.reTest(t, s);
    const li = I.force(yield* I.get(t, "lastIndex"));
    if (typeof s === "string" && typeof li === "number" && !isT(t.source)) { const x = new RegExp(t.source, t.flags); x.lastIndex = li; const r = x.test(s); yield* I.set(t, "lastIndex", x.lastIndex); return r; }
    if (li === 0 && (isT(t.flags) || !t.flags.includes("y"))) { const r = I.branch(I.lift(I.reTest(t, s))); if (r) { const e = I.fresh("lastIndex", "Int"); I.fact(S.and(S.ge(e, I0), S.le(e, S.strlen(I.lift(s))))); yield* I.set(t, "lastIndex", e); } else yield* I.set(t, "lastIndex", 0); return r; }
    const r = I.branch(S.uf("re.testFrom", "Bool", [I.lift(t.source), I.lift(t.flags), I.lift(s), I.lift(li)])); yield* I.set(t, "lastIndex", r ? I.fresh("lastIndex", "Int") : 0); return r;
  });
  def(P.RegExp, "exec", function* (t, [s]) { s = yield* I.toStr(s); if (!I.reStateful(t)) return yield* I.reExec(t, s); if (typeof s === "string") { const x = new RegExp(t.source, t.flags); x.lastIndex = I.force(yield* I.get(t, "lastIndex")); const m = x.exec(s); yield* I.set(t, "lastIndex", x.lastIndex); if (!m) return null; const a = I.arr([...m]); I.rawSet(a, "index", m.index, true); I.rawSet(a, "groups", m.groups ? I.obj({ ...m.groups }) : undefined, true); return a; } unsupported("stateful exec on a symbolic string"); });
  def(P.RegExp, "toString", function* (t) { return I.cat("/", t.source, "/", t.flags); });

  // ---------------------------------------------------------------- misc
  const con = I.obj(); glob("console", con); for (const n of ["log", "warn", "error", "info", "debug", "trace"]) def(con, n, function* () { });
  const uriEnc = (name) => fn(name, function* (_t, [s]) { s = yield* I.toStr(s); if (typeof s === "string") { try { return globalThis[name](s); } catch { I.throwError("URIError", "URI malformed"); } } return yield* encodeT(name, s); });
  const UNRES = S.re.union(S.re.range(48, 57), S.re.range(65, 90), S.re.range(97, 122), ...[..."-_.!~*'()"].map((c) => S.re.lit(c)));
  const encodeT = function* (name, s) {
    if (s.op === "concat") { const out = []; for (const a of s.args) out.push(a.op === "cs" ? globalThis[name](a.val) : yield* encodeT(name, a)); return I.cat(...out); }
    const u = S.uf(name, "String", [s]);
    if (name === "encodeURIComponent") { I.fact(S.inRe(u, S.re.star(S.re.union(UNRES, S.re.lit("%"))))); I.fact(S.implies(S.inRe(s, S.re.star(UNRES)), S.eq(u, s))); I.fact(S.eq(S.eq(u, S.str("")), S.eq(s, S.str("")))); I.fact(S.eq(S.uf("decodeURIComponent", "String", [u]), s)); I.fact(S.not(S.uf("uri.malformed", "Bool", [u]))); }
    return u;
  };
  I.encodeT = encodeT;
  glob("encodeURIComponent", uriEnc("encodeURIComponent")); glob("encodeURI", uriEnc("encodeURI"));
  const uriDec = (name) => fn(name, function* (_t, [s]) { s = yield* I.toStr(s); if (typeof s === "string") { try { return globalThis[name](s); } catch { I.throwError("URIError", "URI malformed"); } } if (s.op === "uf" && s.val === "encodeURIComponent") return I.lower(s.args[0]); if (I.branch(S.uf("uri.malformed", "Bool", [s]))) I.throwError("URIError", "URI malformed"); const u = S.uf(name, "String", [s]); I.fact(S.implies(S.not(S.contains(s, S.str("%"))), S.eq(u, s))); return u; });
  glob("decodeURIComponent", uriDec("decodeURIComponent")); glob("decodeURI", uriDec("decodeURI"));
  glob("structuredClone", fn("structuredClone", function* (_t, [v]) { return yield* I.cloneJson(yield* I.jsonNorm(v, true)); }));
  const Rf = I.obj(); glob("Reflect", Rf);
  def(Rf, "apply", function* (_t, [f, self, a]) { return yield* P.Function.props.get("apply").value.native(f, [self, a]); });
  def(Rf, "construct", function* (_t, [F_, a, nt]) { const segs = yield* I.iterSegs(a); return yield* I.construct(F_, segs.map((s) => s.v), nt); });
  def(Rf, "get", function* (_t, [o, k, r]) { return yield* I.get(o, yield* I.toKey(k), r); });
  def(Rf, "set", function* (_t, [o, k, v]) { yield* I.set(o, yield* I.toKey(k), v); return true; });
  def(Rf, "has", function* (_t, [o, k]) { return yield* I.hasProp(o, yield* I.toKey(k)); });
  def(Rf, "ownKeys", function* (_t, [o]) { return I.arr([...o.props.keys()]); });
  def(Rf, "deleteProperty", function* (_t, [o, k]) { return yield* I.del(o, yield* I.toKey(k)); });
  def(Rf, "getOwnPropertyDescriptor", function* (_t, [o, k]) { return yield* ownDesc(o, yield* I.toKey(k)); });
  def(Rf, "getPrototypeOf", function* (_t, [o]) { return o.proto; });
  def(Rf, "defineProperty", function* (_t, [o, k, d]) { yield* defineProp(o, yield* I.toKey(k), d); return true; });
  glob("Proxy", fn("Proxy", function* (_t, [target, handler]) {
    const p = target instanceof JFn ? new JFn(target.proto) : new JObj(target.proto); p.proxy = { target, handler };
    if (target instanceof JFn) { p.name = target.name; p.native = function* (self, args, _i, nt) { if (nt) { const tr = yield* I.get(handler, "construct"); if (tr !== undefined) return yield* I.call(tr, handler, [target, I.arr(args), p]); return yield* I.construct(target, args, nt === p ? target : nt); } const tr = yield* I.get(handler, "apply"); if (tr !== undefined) return yield* I.call(tr, handler, [target, self, I.arr(args)]); return yield* I.call(target, self, args); }; }
    return p;
  }));
  const pf = I.obj(); glob("performance", pf); def(pf, "now", function* () { return I.lower(S.add(I.leaf("perf0", [], "Real"), I.lift(I.now))); });
  // the global object: property access goes to the global cells
  const g = new JObj(P.Object); g.isGlobal = true; glob("globalThis", g); glob("global", g);
  I.birthNow = () => { const o = new JObj(null); return o.birth; };
  const zero = (o, seen) => { if (!(o instanceof JObj) || seen.has(o)) return; seen.add(o); o.birth = 0; for (const d of o.props.values()) { zero(d.value, seen); zero(d.get, seen); zero(d.set, seen); } zero(o.proto, seen); };
  const seen = new Set(); for (const c of I.globals.values()) zero(c.v, seen); for (const k of Object.keys(P)) zero(P[k], seen); for (const f of all) zero(f, seen);
};
