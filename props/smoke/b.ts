import { contract } from "vf";
const f = (g, value) => { let has = false; const r = value.map((v) => { const x = g.uf("h", "string", v); if (x !== v) has = true; return x; }); return has ? r : value; };
contract("m1", {}, (g) => {
  const xs = g.array("xs", (e) => e.string("s"));
  const out = f(g, xs);
  g.eq("same", out, xs.map((v) => g.uf("h", "string", v)));
});
contract("m2", {}, (g) => {
  const xs = g.json("xs", ["arr"]);
  const h = (v) => g.uf("h", "json", v);
  let has = false; const r = xs.map((v) => { const x = h(v); if (x !== v) has = true; return x; });
  g.eq("same", has ? r : xs, xs.map((v) => h(v)));
});
