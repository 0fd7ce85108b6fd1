// node notes/mutate.mjs PID [-f file]... [-n max] [-j jobs]: mutates the anchored source files and lists the mutants no contract of the property notices
import fs from "node:fs"; import path from "node:path"; import { spawn, execSync } from "node:child_process"; import { createRequire } from "node:module";
const ts = createRequire("/opt/veriftools/node/node_modules/")("typescript");
const V = "/verif"; const a = process.argv.slice(2); const pid = a[0]; let files = [], max = 1e9, jobs = 7, only = null, also = [];
for (let i = 1; i < a.length; i++) { if (a[i] === "-f") files.push(a[++i]); else if (a[i] === "-p") also.push(...a[++i].split(",")); else if (a[i] === "-n") max = +a[++i]; else if (a[i] === "-j") jobs = +a[++i]; else if (a[i] === "-fn") only = new RegExp(a[++i]); }
const prop = JSON.parse(fs.readFileSync(`${V}/props/${pid}/property.json`, "utf8")); if (!files.length) files = prop.anchors.files;
const muts = [];
const skipCall = /^(console|logger|log|warn|debug)\b|[lL]og(ger)?\.(warn|info|debug|error)|initLogger|warnOnce|debugLog|logProgress/;
for (const f of files) {
  const full = "/repo/" + f, src = fs.readFileSync(full, "utf8"), sf = ts.createSourceFile(full, src, ts.ScriptTarget.Latest, true, full.endsWith("x") ? ts.ScriptKind.TSX : ts.ScriptKind.TS);
  const add = (n, text, what) => { const s = n.getStart ? n.getStart(sf) : n.pos, e = n.end; const cur = src.slice(s, e); if (cur === text) return; muts.push({ f, s, e, text, what, line: sf.getLineAndCharacterOfPosition(s).line + 1, cur }); };
  const t = (n) => n.getText(sf);
  const OPS = { "===": ["!=="], "!==": ["==="], "==": ["!="], "!=": ["=="], "<": ["<=", ">="], "<=": ["<", ">"], ">": [">=", "<="], ">=": [">", "<"], "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "??": ["&&"], "%": ["*"] };
  const METH = { startsWith: ["endsWith", "includes"], endsWith: ["startsWith", "includes"], some: ["every"], every: ["some"], includes: ["startsWith"], indexOf: ["lastIndexOf"], lastIndexOf: ["indexOf"], push: ["unshift"], min: ["max"], max: ["min"], floor: ["ceil"], ceil: ["floor"], replaceAll: ["replace"], toUpperCase: ["toLowerCase"], append: ["set"], trimEnd: ["trim"], trimStart: ["trim"] };
  const walk = (n, fn) => {
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) return;
    if (ts.isCallExpression(n) && skipCall.test(t(n.expression))) return;
    if (ts.isNewExpression(n) && /Error$/.test(t(n.expression))) return;
    if ((ts.isFunctionLike(n) || ts.isVariableDeclaration(n)) && n.name && ts.isIdentifier(n.name) && !ts.isParameter(n)) fn = fn && ts.isVariableDeclaration(n) && !(n.initializer && ts.isFunctionLike(n.initializer)) ? fn : n.name.text;
    if (!only || only.test(fn ?? "")) {
      if (ts.isBinaryExpression(n)) { const o = t(n.operatorToken); for (const r of OPS[o] ?? []) add(n.operatorToken, r, "op"); if (o === "&&" || o === "||") { add(n, t(n.left), "drop right"); add(n, t(n.right), "drop left"); } if (o === "??") add(n, t(n.left), "drop default"); if (o === "+=") add(n.operatorToken, "=", "op"); if (o === "??=") add(n.operatorToken, "=", "op"); }
      if (ts.isIfStatement(n)) { add(n.expression, "true", "if true"); add(n.expression, "false", "if false"); if (n.elseStatement === undefined && ts.isBlock(n.thenStatement)) { } }
      if (ts.isConditionalExpression(n)) { add(n, "(" + t(n.whenTrue) + ")", "cond true"); add(n, "(" + t(n.whenFalse) + ")", "cond false"); }
      if (ts.isWhileStatement(n) || ts.isForStatement(n)) { }
      if (ts.isExpressionStatement(n) && ts.isCallExpression(n.expression) && skipCall.test(t(n.expression.expression))) return;
      if (ts.isExpressionStatement(n) && !ts.isAwaitExpression(n.expression)) add(n, ";", "drop statement");
      if (ts.isExpressionStatement(n) && ts.isAwaitExpression(n.expression)) { add(n, ";", "drop statement"); add(n, t(n.expression.expression) + ";", "drop await"); }
      if (ts.isNumericLiteral(n)) { add(n, "(" + t(n) + "+1)", "number"); if (t(n) !== "0") add(n, "0", "zero"); else add(n, "(-1)", "number"); }
      if (ts.isStringLiteral(n) && !/ /.test(n.text) && !ts.isPropertyAssignment(n.parent) || ts.isStringLiteral(n) && n.parent.initializer === n) add(n, JSON.stringify(n.text + "X"), "string");
      if (n.kind === ts.SyntaxKind.TrueKeyword) add(n, "false", "bool"); if (n.kind === ts.SyntaxKind.FalseKeyword) add(n, "true", "bool");
      if (ts.isPrefixUnaryExpression(n) && n.operator === ts.SyntaxKind.ExclamationToken) add(n, t(n.operand), "drop not");
      if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) { const m = n.expression.name.text; for (const r of Object.hasOwn(METH, m) ? METH[m] : []) add(n.expression.name, r, "method"); if (["trim", "toLowerCase", "toUpperCase", "trimEnd", "trimStart", "reverse", "sort", "filter", "flat", "slice", "replace", "replaceAll", "clone", "concat", "catch", "finally"].includes(m)) add(n, t(n.expression.expression), "drop ." + m); }
      if (ts.isCallExpression(n) && n.questionDotToken) { }
      if (ts.isReturnStatement(n) && n.expression && t(n.expression) !== "undefined") add(n.expression, "undefined as any", "return undefined");
      if (ts.isReturnStatement(n) && !n.expression) add(n, ";", "drop return"); if (ts.isContinueStatement(n)) { add(n, ";", "drop continue"); add(n, "break;", "break"); } if (ts.isBreakStatement(n) && !ts.isCaseClause(n.parent)) add(n, ";", "drop break");
      if (ts.isSpreadAssignment(n)) add(n, "...({} as any)", "drop spread");
      if (ts.isPropertyAssignment(n) && !ts.isFunctionLike(n.initializer)) add(n, "...({} as any)", "drop property");
      if (ts.isShorthandPropertyAssignment(n)) add(n, "...({} as any)", "drop property");
      if (ts.isAwaitExpression(n) && !ts.isExpressionStatement(n.parent)) { }
      if (ts.isRegularExpressionLiteral(n)) { const x = n.text; const li = x.lastIndexOf("/"); const body = x.slice(1, li), fl = x.slice(li + 1); if (fl) { for (const c of fl) add(n, "/" + body + "/" + fl.replace(c, ""), "regex flag"); } else add(n, "/" + body + "/i", "regex flag"); if (body.startsWith("^")) add(n, "/" + body.slice(1) + "/" + fl, "regex ^"); if (body.endsWith("$")) add(n, "/" + body.slice(0, -1) + "/" + fl, "regex $"); if (body.includes("+")) add(n, "/" + body.replace("+", "*") + "/" + fl, "regex +"); }
      if (ts.isArrayLiteralExpression(n) && n.elements.length > 1 && n.elements.length < 60) { for (let i = 0; i < n.elements.length; i += Math.max(1, Math.floor(n.elements.length / 4))) add(n, "[" + n.elements.filter((_, k) => k !== i).map(t).join(", ") + "]", "drop element " + t(n.elements[i])); }
      if (ts.isTryStatement(n) && n.catchClause) add(n.catchClause.block, "{ throw new Error('mut'); }", "catch throws");
      if (ts.isThrowStatement(n)) add(n, ";", "drop throw");
    }
    ts.forEachChild(n, (c) => walk(c, fn));
  };
  walk(sf, null);
}
let list = muts; if (list.length > max) { const k = list.length / max; list = Array.from({ length: max }, (_, i) => muts[Math.floor(i * k)]); }
const env0 = { ...process.env, VERIF_SEED: "1" };
const run = (args, env, ms) => new Promise((res) => { const p = spawn(process.execPath, ["--stack-size=8000", "--max-old-space-size=3000", ...args], { env, stdio: ["ignore", "pipe", "ignore"], detached: false }); let o = ""; p.stdout.on("data", (d) => { o += d; }); const k = setTimeout(() => p.kill("SIGKILL"), ms); p.on("close", () => { clearTimeout(k); try { res(JSON.parse(o.trim().split("\n").at(-1))); } catch { res({ error: "no answer" }); } }); });
const pfiles = [pid, ...also].flatMap((q) => { const dir = `${V}/props/${q}`; return fs.readdirSync(dir).filter((x) => x.endsWith(".ts") && !x.startsWith("_")).sort().map((x) => path.join(dir, x)); });
const { listContracts } = await import(V + "/vf/sym.mjs");
const tasks = pfiles.flatMap((f) => listContracts(f).map((c, i) => ({ f, i, name: c.name, opts: c.opts }))).filter((t) => t.opts.tier !== "thorough" && !t.opts.known);
const score = new Map();
const worker = async (w) => {
  const W = `/tmp/mut/w${pid}_${w}`; execSync(`mkdir -p ${W}; cd /repo && cp --parents -r packages/*/src ${W}/ && cp --parents packages/*/package.json ${W}/; [ -e ${W}/node_modules ] || ln -s /repo/node_modules ${W}/node_modules; for p in /repo/packages/*; do n=$(basename $p); [ -e ${W}/packages/$n/node_modules ] || [ ! -e $p/node_modules ] || ln -s $p/node_modules ${W}/packages/$n/node_modules; done`);
  const env = { ...env0, VF_REPO: W };
  for (;;) {
    const m = list[next++]; if (!m) break;
    const src = fs.readFileSync("/repo/" + m.f, "utf8"); fs.writeFileSync(`${W}/${m.f}`, src.slice(0, m.s) + m.text + src.slice(m.e));
    let killed = null; const order = [...tasks].sort((x, y) => (score.get(y) ?? 0) - (score.get(x) ?? 0));
    for (const t of order) { const c = await run([V + "/vf/cworker.mjs", t.f, String(t.i), JSON.stringify({ seed: "1", iters: 300, ms: 2500 })], env, 30000); if (c.failure || c.error) { killed = "concrete " + t.name; score.set(t, (score.get(t) ?? 0) + 1); break; } }
    if (!killed) for (const t of order) { const s = await run([V + "/vf/sym.mjs", t.f, String(t.i)], { ...env, VF_BUDGET_MS: "90000" }, 150000); if (s.error || (s.obligations ?? []).some((o) => o.failedCount > 0)) { killed = "sym " + t.name + " " + (s.error ?? ""); score.set(t, (score.get(t) ?? 0) + 1); break; } }
    fs.writeFileSync(`${W}/${m.f}`, src); done++;
    if (killed) { k++; if (killed.startsWith("sym")) symk++; } else console.log(`SURVIVED ${m.f.replace("packages/", "")}:${m.line} [${m.what}] ${m.cur.replace(/\s+/g, " ").slice(0, 110)}  =>  ${m.text.replace(/\s+/g, " ").slice(0, 60)}`);
  }
  execSync(`rm -rf /tmp/mut/w${pid}_${w}`);
};
let next = 0, done = 0, k = 0, symk = 0; const t0 = Date.now();
await Promise.all(Array.from({ length: jobs }, (_, w) => worker(w)));
console.log(`${pid}: ${list.length} mutants of ${muts.length}, ${k} noticed (${symk} only by proof), ${Math.round((Date.now() - t0) / 1000)} s`);
