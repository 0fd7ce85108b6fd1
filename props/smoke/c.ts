import { contract } from "vf";
const spec = (value, names) => value.split(";").map((c) => c.trim()).map((c) => {
  const at = c.indexOf("=");
  const name = at < 0 ? null : c.slice(0, at).trim();
  return name !== null && names.some((n) => n.toLowerCase() === name.toLowerCase()) ? name + "=******" : c;
}).join("; ");
contract("c1", {}, (g) => {
  const s = g.string("s"); 
  g.ensure("a", spec(s, ["a"]) === spec(s,["a"]));
});
contract("c2", {}, (g) => {
  const s = g.string("s"); const names = g.array("names", () => g.string("cookie"));
  g.ensure("a", spec(s, names) === spec(s,names));
});
contract("c3", {}, (g) => {
  const s = g.string("s"); const names = g.array("names", () => g.string("cookie")); const lc = names.map((n)=>n.toLowerCase());
  g.ensure("a", lc.includes(s) === names.some((n)=>n.toLowerCase() === s));
});
