import { contract } from "vf";
import { NestedFieldsRedactor } from "repo:redaction/src/generic/redact-nested-fields/redact-nested-fields";
import { redactKey, redactKeysEndingWith, PatternBasedRedactorSet } from "repo:redaction/src/generic/redact-nested-fields/pattern-based-redactors";
import * as common from "repo:redaction/src/generic/redact-nested-fields/common-redactors";
import { redactString } from "repo:redaction/src/generic/redact-string";

const KEYS = ["name", "user_name", "email", "email2", "k", "wk", "x", "constructor", "toString", "__proto__", "first", "rename", "", "ame"];
const mk = (g, t) => (s) => g.uf(t, "string", s);
const own = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
const build = (g) => NestedFieldsRedactor.builder()
  .withPatternBasedStringRedactor(redactKeysEndingWith("ame", mk(g, "byName")))
  .withPatternBasedStringRedactors(PatternBasedRedactorSet.create().with(redactKey("email", mk(g, "byEmail"))).with(redactKey("k", mk(g, "byK"))).withSet(PatternBasedRedactorSet.create().with(redactKeysEndingWith("X", mk(g, "byX")))));
const pattern = (key) => (key.endsWith("ame") ? "byName" : key === "email" ? "byEmail" : key === "k" ? "byK" : key.endsWith("X") ? "byX" : null);

contract("an explicit field redactor beats every pattern", {}, (g) => {
  const s = g.string("s");
  const which = g.oneOf("entry point", ["lax", "strict", "plain"]);
  const opts = { strings: { name: mk(g, "exact"), other: mk(g, "exact"), email: mk(g, "exact") }, dates: {}, numbers: {}, bigints: {}, defaultStringRedactor: mk(g, "def") };
  const b = build(g);
  const redact = which === "lax" ? b.createRedactorLax(opts) : which === "strict" ? b.createRedactorStrict(opts) : b.createRedactor(opts);
  const key = g.oneOf("key", ["name", "other", "email"]);
  g.eq("explicit", redact({ [key]: s }), { [key]: g.uf("exact", "string", s) });
});
contract("otherwise a matching pattern decides, else the default redactor", {}, (g) => {
  const s = g.string("s"), key = g.string("key", KEYS);
  g.assume(key !== "name" && key !== "other");
  const which = g.oneOf("entry point", ["lax", "strict", "plain"]);
  const opts = { strings: { name: mk(g, "exact"), other: mk(g, "exact") }, dates: {}, numbers: {}, bigints: {}, defaultStringRedactor: mk(g, "def") };
  const b = build(g);
  const redact = which === "lax" ? b.createRedactorLax(opts) : which === "strict" ? b.createRedactorStrict(opts) : b.createRedactor(opts);
  const out = redact({ [key]: s });
  const p = key === "" ? null : pattern(key);
  g.ensure("same key", Object.keys(out).length === 1 && Object.keys(out)[0] === key);
  g.ensure("chosen redactor", Object.values(out)[0] === (p === null ? g.uf("def", "string", s) : g.uf(p, "string", s)));
});
contract("without a default redactor an unmatched text stays", {}, (g) => {
  const s = g.string("s"), key = g.string("key", KEYS);
  g.assume(key !== "name" && key !== "" && pattern(key) === null);
  const out = build(g).createRedactorLax({ strings: { name: mk(g, "exact") } })({ [key]: s });
  g.ensure("unchanged", Object.values(out)[0] === s);
});
contract("the builder's default redactor is used, whenever it was set", {}, (g) => {
  const s = g.string("s"), key = g.string("key", KEYS);
  g.assume(key !== "" && pattern(key) === null);
  const first = g.bool("set first");
  const a = NestedFieldsRedactor.builder(), d = mk(g, "def");
  const set = (b) => b.withPatternBasedStringRedactor(redactKeysEndingWith("ame", mk(g, "byName"))).withPatternBasedDateRedactor(redactKey("when", (x) => x)).withPatternBasedStringRedactors(PatternBasedRedactorSet.create().with(redactKey("email", mk(g, "byEmail"))).with(redactKey("k", mk(g, "byK")))).withPatternBasedDateRedactors(common.DOB_REDACTORS);
  const b = first ? set(a.withDefaultStringRedactor(d)) : set(a).withDefaultStringRedactor(d);
  const which = g.oneOf("entry point", ["lax", "strict", "plain"]);
  const opts = { strings: {}, dates: {}, numbers: {}, bigints: {} };
  const redact = which === "lax" ? b.createRedactorLax(opts) : which === "strict" ? b.createRedactorStrict(opts) : b.createRedactor(opts);
  g.ensure("default redactor", Object.values(redact({ [key]: s }))[0] === g.uf("def", "string", s));
});
contract("numbers are touched only by an explicit redactor", {}, (g) => {
  const n = g.int("n"), key = g.string("key", [...KEYS, "count"]);
  const out = build(g).createRedactorLax({ strings: {}, numbers: { count: (x) => g.uf("num", "int", x) }, defaultStringRedactor: mk(g, "def") })({ [key]: n });
  g.ensure("number", Object.values(out)[0] === (key === "count" ? g.uf("num", "int", n) : n));
});
contract("dates follow the explicit redactor, then the date patterns", {}, (g) => {
  const key = g.string("key", ["dob", "userdob", "when", "count", "constructor"]);
  const d = new Date(g.int("t", 0, 4102444800000)), mark1 = new Date(1), mark2 = new Date(2);
  const out = NestedFieldsRedactor.builder().withPatternBasedDateRedactor(redactKeysEndingWith("dob", () => mark1)).createRedactorLax({ strings: {}, dates: { when: () => mark2 }, defaultStringRedactor: mk(g, "def") })({ [key]: d });
  g.ensure("date", Object.values(out)[0] === (key === "when" ? mark2 : key.endsWith("dob") ? mark1 : d));
});
