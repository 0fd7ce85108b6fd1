// Which contracts of a harness file rest on an internal function of the code under test that is no longer there (renamed, inlined, other parameters)?
// Such a contract says nothing about the current code; it is reported as not applicable in the evidence, and the contracts on the public functions decide.
import fs from "node:fs";
import { ts } from "./interp.mjs";
import path from "node:path";
import { resolveSpec, ROOT, REPO } from "./sym.mjs";
const parsed = new Map();
const parse = (f) => { let s = parsed.get(f); if (!s) { s = ts.createSourceFile(f, fs.readFileSync(f, "utf8"), ts.ScriptTarget.ES2022, true); parsed.set(f, s); } return s; };
const isExp = (n) => n.modifiers?.some((m) => m.kind === ts.SyntaxKind.ExportKeyword);
// what the module has at top level: name -> { exported, fn (declaration with parameters) }
const topLevel = (f) => {
  const out = new Map(); let star = false;
  const put = (n, v) => { if (!out.has(n)) out.set(n, v); };
  for (const st of parse(f).statements) {
    if (ts.isFunctionDeclaration(st) && st.name && st.body) put(st.name.text, { exported: !!isExp(st), fn: st });
    else if ((ts.isClassDeclaration(st) || ts.isEnumDeclaration(st)) && st.name) put(st.name.text, { exported: !!isExp(st) });
    else if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) { const v = (n) => { if (ts.isIdentifier(n)) { let i = d.initializer; while (i && (ts.isAsExpression(i) || ts.isParenthesizedExpression(i))) i = i.expression; put(n.text, { exported: !!isExp(st), fn: n === d.name && i && (ts.isArrowFunction(i) || ts.isFunctionExpression(i)) ? i : undefined }); } else n.elements.forEach((e) => e.name && v(e.name)); }; v(d.name); }
    else if (ts.isImportDeclaration(st)) { const ic = st.importClause; if (ic && !ic.isTypeOnly && ic.namedBindings && ts.isNamedImports(ic.namedBindings)) for (const e of ic.namedBindings.elements) if (!e.isTypeOnly) put(e.name.text, { exported: false, spec: st.moduleSpecifier.text, orig: (e.propertyName ?? e.name).text }); }
    else if (ts.isExportDeclaration(st)) { if (!st.exportClause) star = true; else if (ts.isNamedExports(st.exportClause)) for (const e of st.exportClause.elements) out.set(e.name.text, { exported: true }); }
  }
  return { out, star };
};
const lookup = (f, name, depth = 0) => { // undefined: not there
  const t = topLevel(f); const d = t.out.get(name);
  if (!d) return t.star ? { exported: true, file: f } : undefined;
  if (d.spec && depth < 5) { let g; try { g = resolveSpec(d.spec, f, false); } catch { return d; } return g && g.startsWith("/") ? lookup(g, d.orig, depth + 1) : d; }
  return { ...d, file: f, name };
};
const arity = (fn) => { const ps = fn.parameters.filter((p) => !(ts.isIdentifier(p.name) && p.name.text === "this")); const rest = ps.some((p) => p.dotDotDotToken); return { min: ps.filter((p) => !p.initializer && !p.questionToken && !p.dotDotDotToken).length, max: rest ? Infinity : ps.length }; };
const usage = (sf, name) => { const ns = []; const v = (n) => { if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === name && !n.arguments.some((a) => ts.isSpreadElement(a))) ns.push(n.arguments.length); ts.forEachChild(n, v); }; v(sf); return ns; };
const cache = new Map();
// names bound by imports of `file` that cannot be used, with the reason
export const missing = (file) => {
  let r = cache.get(file); if (r) return r; r = new Map(); cache.set(file, r);
  const sf = parse(file);
  for (const st of sf.statements) {
    if (!ts.isImportDeclaration(st) || !st.importClause?.namedBindings || !ts.isNamedImports(st.importClause.namedBindings)) continue;
    const spec = st.moduleSpecifier.text; const names = st.importClause.namedBindings.elements;
    if (spec.startsWith("repo:")) {
      let f = null; try { f = resolveSpec(spec, file, false); } catch { }
      for (const e of names) {
        const nm = (e.propertyName ?? e.name).text; const d = f ? lookup(f, nm) : undefined;
        if (!d) { r.set(e.name.text, `${spec.slice(5)} has no ${nm}`); continue; }
        if (!d.exported && d.fn) { const a = arity(d.fn); if (usage(sf, e.name.text).some((n) => n < a.min || n > a.max)) r.set(e.name.text, `${nm} in ${spec.slice(5)} takes other parameters`); }
      }
    } else if (spec.startsWith(".")) { let f = null; try { f = resolveSpec(spec, file, false); } catch { } if (f && f.startsWith(ROOT)) { const m = dependents(f); for (const e of names) { const nm = (e.propertyName ?? e.name).text; if (m.has(nm)) r.set(e.name.text, m.get(nm)); } } }
  }
  return r;
};
// top-level names of a harness file that use something missing, directly or through other top-level names
const dependents = (file) => {
  const bad = new Map(missing(file)); const decls = new Map();
  for (const st of parse(file).statements) if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) { if (ts.isIdentifier(d.name)) decls.set(d.name.text, d); } else if ((ts.isFunctionDeclaration(st) || ts.isClassDeclaration(st)) && st.name) decls.set(st.name.text, st);
  for (let go = true; go;) { go = false; for (const [n, d] of decls) if (!bad.has(n)) { const w = uses(d, bad); if (w) { bad.set(n, w); go = true; } } }
  return bad;
};
const uses = (node, bad) => { let w = null; const v = (n) => { if (w) return; if (ts.isPropertyAccessExpression(n)) { v(n.expression); return; } if (ts.isIdentifier(n) && bad.has(n.text)) { w = bad.get(n.text); return; } ts.forEachChild(n, v); }; ts.forEachChild(node, v); return w; };
// reason per contract (in order), or null
export const notApplicable = (file) => {
  const bad = dependents(file); const out = [];
  for (const st of parse(file).statements) if (ts.isExpressionStatement(st) && ts.isCallExpression(st.expression) && st.expression.expression.getText() === "contract") out.push(bad.size ? uses(st.expression, bad) : null);
  return out;
};
// the harness file as the concrete runner loads it: imports of missing names become undefined, names that moved are taken from where they are now
export const softImports = (file, text) => {
  const bad = missing(file); const sf = ts.createSourceFile(file, text, ts.ScriptTarget.ES2022, true); let out = text; const cut = [];
  for (const st of sf.statements) if (ts.isImportDeclaration(st) && st.importClause?.namedBindings && ts.isNamedImports(st.importClause.namedBindings) && st.moduleSpecifier.text.startsWith("repo:")) {
    let f = null; try { f = resolveSpec(st.moduleSpecifier.text, file, false); } catch { }
    const keep = [], gone = [], moved = [];
    for (const e of st.importClause.namedBindings.elements) {
      const nm = (e.propertyName ?? e.name).text, d = f ? lookup(f, nm) : undefined;
      if (!d) gone.push(e.name.text); else if (!d.exported && d.file && d.file !== f || d.file && d.file !== f && !topLevel(f).out.get(nm)?.exported) moved.push(`import { ${d.name} as ${e.name.text} } from ${JSON.stringify("repo:" + path.relative(path.join(REPO, "packages"), d.file))};`); else keep.push(e.getText());
    }
    if (gone.length || moved.length) cut.push([st.getStart(), st.getEnd(), (keep.length ? `import { ${keep.join(", ")} } from ${st.moduleSpecifier.getText()};` : "") + moved.join("") + (gone.length ? `const ${gone.map((n) => n + " = undefined").join(", ")};` : "")]);
  }
  for (const [a, b, t] of cut.reverse()) out = out.slice(0, a) + t + out.slice(b);
  return out;
};
