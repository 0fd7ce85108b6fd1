import { contract } from "vf";
import { NestedFieldsRedactor } from "repo:redaction/src/generic/redact-nested-fields/redact-nested-fields";

// what the recursion may do to a child: leave it as it is, or put some text in its place
const token = (g) => (v, key) => (g.isSymbolic() ? (g.uf("keep", "bool", v, key) ? v : g.uf("token", "string", v, key)) : reference(g)(v, key));
const reference = (g) => (v, key) =>
  typeof v === "string" ? g.uf("def", "string", v) : typeof v === "number" ? (key === "count" ? g.uf("num", "int", v) : v) : Array.isArray(v) ? v.map((e) => reference(g)(e, key)) : v !== null && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, e]) => [k, reference(g)(e, k)])) : v;
const make = (g) => NestedFieldsRedactor.builder().createRedactorLax({ strings: {}, numbers: { count: (n) => g.uf("num", "int", n) }, defaultStringRedactor: (s) => g.uf("def", "string", s) });
contract("every element of a list is redacted under the key of the list", {}, (g) => {
  const redact = make(g);
  const value = g.json("value", ["arr"]);
  const sub = token(g);
  const out = g.induct(redact, sub, () => redact(value, "count"));
  g.ensure("length", out.length === value.length);
  const i = g.int("i", 0);
  g.assume(i < value.length);
  g.eq("element", out[i], sub(value[i], "count"));
});
contract("every field is redacted under its own key", {}, (g) => {
  const redact = make(g);
  const value = g.json("value", ["obj"]);
  const sub = token(g);
  const out = g.induct(redact, sub, () => redact(value, "count"));
  const before = Object.entries(value), after = Object.entries(out);
  g.ensure("number of fields", after.length === before.length);
  const i = g.int("i", 0);
  g.assume(i < before.length);
  g.ensure("key", after[i][0] === before[i][0]);
  g.eq("value", after[i][1], sub(before[i][1], before[i][0]));
});
contract("values that hold no text are kept", {}, (g) => {
  const value = g.json("value", ["undef", "null", "bool"]);
  g.ensure("kept", make(g)(value) === value);
});
contract("redaction does not change its input", { bounded: "two levels of nesting" }, (g) => {
  const value = { a: [g.string("x"), g.int("n"), { b: g.string("y") }], count: g.int("m"), c: { d: [g.string("z")], e: null } };
  const before = { a: [value.a[0], value.a[1], { b: value.a[2].b }], count: value.count, c: { d: [value.c.d[0]], e: null } };
  const out = make(g)(value);
  g.eq("input", value, before);
  g.eq("all levels", out, { a: [g.uf("def", "string", value.a[0]), value.a[1], { b: g.uf("def", "string", value.a[2].b) }], count: g.uf("num", "int", value.count), c: { d: [g.uf("def", "string", value.c.d[0])], e: null } });
});
