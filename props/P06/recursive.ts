import { contract } from "vf";
import { redactRecursively } from "repo:redaction/src/generic/redact-recursively";

const P = (p) => p.length + ":" + p.join("/");
const uf = (g) => ({
  redactString: (s, p) => g.uf("str", "string", s, P(p)),
  redactNumber: (n, p) => g.uf("num", "int", n, P(p)),
  redactBoolean: (b, p) => g.uf("bool", "bool", b, P(p)),
});
const reference = (o, hooks) => (v, p) =>
  typeof v === "string" ? (o.redactString ? o.redactString(v, p) : v) : typeof v === "number" ? (o.redactNumber ? o.redactNumber(v, p) : v) : typeof v === "boolean" ? (o.redactBoolean ? o.redactBoolean(v, p) : v)
    : Array.isArray(v) ? v.map((e, i) => reference(o, hooks)(e, [...p, String(i)])) : v !== null && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, e]) => [k, reference(o, hooks)(e, [...p, k])])) : v;

contract("every leaf of a nested value is passed to the callback for its kind, with its path", { bounded: "three levels of nesting" }, (g) => {
  const o = uf(g);
  const value = { a: [g.string("x"), g.int("n"), { b: g.string("y"), c: g.bool("t") }, [g.string("w")]], m: g.int("m"), c: { d: [g.string("z")], e: null }, big: 5n };
  const copy = { a: [value.a[0], value.a[1], { b: value.a[2].b, c: value.a[2].c }, [value.a[3][0]]], m: value.m, c: { d: [value.c.d[0]], e: null }, big: 5n };
  const out = redactRecursively(value, { ...o, redactBigInt: (b, p) => (p.length === 1 && p[0] === "big" ? b + 1n : b) });
  g.eq("input kept", value, copy);
  g.eq("result", out, { a: [o.redactString(copy.a[0], ["a", "0"]), o.redactNumber(copy.a[1], ["a", "1"]), { b: o.redactString(copy.a[2].b, ["a", "2", "b"]), c: o.redactBoolean(copy.a[2].c, ["a", "2", "c"]) }, [o.redactString(copy.a[3][0], ["a", "3", "0"])]], m: o.redactNumber(copy.m, ["m"]), c: { d: [o.redactString(copy.c.d[0], ["c", "d", "0"])], e: null }, big: 6n });
});
contract("lists of any length", {}, (g) => {
  const o = uf(g);
  const xs = g.array("xs", () => g.string("x"));
  const out = redactRecursively(xs, o);
  g.ensure("length", out.length === xs.length);
  const i = g.int("i", 0);
  g.assume(i < xs.length);
  g.ensure("element", out[i] === o.redactString(xs[i], [String(i)]));
});
contract("objects with any number of fields", {}, (g) => {
  const o = uf(g);
  const d = g.dict("d", () => g.string("x"));
  const a = Object.entries(d), b = Object.entries(redactRecursively(d, o));
  g.ensure("number of fields", a.length === b.length);
  const i = g.int("i", 0);
  g.assume(i < a.length);
  g.ensure("key", b[i][0] === a[i][0]);
  g.ensure("value", b[i][1] === o.redactString(a[i][1], [a[i][0]]));
});
contract("a replaced object or list is final, an unreplaced one is descended into", { bounded: "two levels of nesting" }, (g) => {
  const o = uf(g);
  const value = { list: [g.string("x")], obj: { k: g.string("y") }, other: [g.string("z")] };
  const replacement = ["gone"], token = { gone: true };
  const dropList = g.bool("drop list"), dropObj = g.bool("drop object");
  const out = redactRecursively(value, { ...o, redactArray: (a, p) => (dropList && p.join("/") === "list" ? replacement : a), redactObject: (v, p) => (dropObj && p.join("/") === "obj" ? token : v) });
  g.eq("result", out, { list: dropList ? ["gone"] : [o.redactString(value.list[0], ["list", "0"])], obj: dropObj ? { gone: true } : { k: o.redactString(value.obj.k, ["obj", "k"]) }, other: [o.redactString(value.other[0], ["other", "0"])] });
});
contract("kinds without a callback are kept", {}, (g) => {
  const value = { a: g.string("x"), n: g.int("n"), b: g.bool("b"), u: undefined, z: null };
  g.ensure("same value", redactRecursively(value, {}) === value);
});
