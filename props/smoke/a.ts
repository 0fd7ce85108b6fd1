import { contract } from "vf";
import { asterixOut } from "repo:redaction/src/generic/string-redactors";
contract("arith", {}, (g) => {
  const x = g.int("x"); const y = g.int("y", 0);
  g.ensure("sum", x + y >= x);
  if (x > 5) g.ensure("gt", x * 2 > 10); else g.ensure("le", x <= 5);
});
contract("bad", {}, (g) => { const x = g.int("x"); g.ensure("neg", x < 10); });
contract("arr", {}, (g) => {
  const a = g.array("a", (e) => e.string("s"));
  const b = a.map((x) => x + "!");
  g.forall(b, (v) => g.ensure("ends", v.endsWith("!")));
  g.ensure("len", b.length === a.length);
});
contract("str", {}, (g) => { const s = g.string("s"); g.ensure("trim", s.trim().length <= s.length); g.ensure("idx", s.indexOf("a") < s.length || s.length === 0); });
contract("json", {}, (g) => { const v = g.json("v"); const w = JSON.parse(JSON.stringify(v)); g.eq("rt", v, w); });
