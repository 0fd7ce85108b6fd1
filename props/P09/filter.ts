import { contract } from "vf";
import { validateSessionFilter } from "repo:session-filters/src/session-filters";

const TYPE = "session-start-url-matches-any-regex";
const bad = (g, r) => g.ensure("rejected with a reason", r.valid === false && typeof r.error === "string" && r.error.length > 0 && r.filter === undefined);
contract("what is no object is rejected", {}, (g) => {
  const v = g.json("v", ["undef", "null", "bool", "num", "str", "arr"]);
  bad(g, validateSessionFilter(v));
});
contract("any other type is rejected", {}, (g) => {
  const type = g.json("type", ["undef", "null", "bool", "num", "str"]);
  g.assume(type !== TYPE);
  bad(g, validateSessionFilter({ type, regexes: ["a"] }));
});
contract("regexes must be a list", {}, (g) => {
  const regexes = g.json("regexes", ["undef", "null", "bool", "num", "str", "obj"]);
  bad(g, validateSessionFilter({ type: TYPE, regexes }));
});
contract("a list is accepted exactly when it holds 1 to 500 texts of 1 to 1000 characters", {}, (g) => {
  const regexes = g.array("regexes", (e) => e.any("x", ["null", "bool", "num", "str", "obj"]));
  const extra = g.string("extra");
  const r = validateSessionFilter({ type: TYPE, regexes, extra });
  const ok = regexes.length >= 1 && regexes.length <= 500 && regexes.every((x) => typeof x === "string" && x.length >= 1 && x.length <= 1000);
  g.ensure("accepted exactly when valid", r.valid === ok);
  if (r.valid) {
    g.ensure("no error", r.error === undefined);
    g.ensure("only the known fields", Object.keys(r.filter).sort().join() === "regexes,type" && r.filter.type === TYPE);
    g.eq("the same list", r.filter.regexes, regexes);
  } else g.ensure("rejected with a reason", typeof r.error === "string" && r.error.length > 0 && r.filter === undefined);
});
contract("one text is accepted exactly when it has 1 to 1000 characters", {}, (g) => {
  const s = g.string("s", ["", "a", "a b", " ".repeat(1001), "x" + " ".repeat(1000), "\n".repeat(1000)]);
  g.ensure("accepted exactly when valid", validateSessionFilter({ type: TYPE, regexes: [s] }).valid === (s.length >= 1 && s.length <= 1000));
});
contract("limits", {}, (g) => {
  const n = g.int("n", 1, 1200);
  const s = "a".repeat(n);
  g.ensure("length limit", validateSessionFilter({ type: TYPE, regexes: ["x", s] }).valid === (n <= 1000));
});
