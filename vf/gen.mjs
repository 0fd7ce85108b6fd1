// regenerate properties.jsonl and MANIFEST.json from props/*/property.json
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
const ROOT = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
const ids = fs.readdirSync(path.join(ROOT, "props")).filter((d) => /^[A-Z]\d\d/.test(d) && fs.existsSync(path.join(ROOT, "props", d, "property.json"))).sort();
const lines = [], checks = [], na = [];
for (const id of ids) {
  const p = JSON.parse(fs.readFileSync(path.join(ROOT, "props", id, "property.json"), "utf8"));
  if (p.title.length > 80) throw Error(id + " title too long");
  lines.push(JSON.stringify({ id, title: p.title, statement: p.statement, quantifier: p.quantifier, why_tests_cant: p.why_tests_cant, anchors: p.anchors }));
  if (p.not_applicable) { na.push({ property: id, reason: p.not_applicable }); continue; }
  checks.push({ property: id, quick_cmd: `node vf/runner.mjs ${id} --tier quick`, thorough_cmd: `node vf/runner.mjs ${id} --tier thorough`, evidence_file: `evidence/${id}.json`, technique: "contract-based deductive verification of the real TypeScript (own verification-condition generator; z3 and cvc5)", level: p.level ?? "proof", level_note: p.level_note });
}
fs.writeFileSync(path.join(ROOT, "properties.jsonl"), lines.join("\n") + "\n");
fs.writeFileSync(path.join(ROOT, "MANIFEST.json"), JSON.stringify({ version: 1, setup_cmd: "mkdir -p evidence && node --version && z3-new --version && cvc5 --version | head -1", checks, not_applicable: na, notes: "Each check parses the functions it needs from /repo's working tree on every run; nothing is cached. See DESIGN.md." }, null, 1) + "\n");
console.log(checks.length + " checks, " + na.length + " not applicable");
