// refactor.mjs MODE ROOT: rewrites every source file under ROOT/packages/*/src without changing what it does
import fs from "node:fs"; import path from "node:path";
import ts from "/opt/veriftools/node/node_modules/typescript/lib/typescript.js";
const [mode, root] = process.argv.slice(2); const f = ts.factory, K = ts.SyntaxKind; let count = 0, uid = 0;
const files = []; const walk = (d) => { for (const e of fs.readdirSync(d, { withFileTypes: true })) { if (["node_modules", "dist", "__tests__"].includes(e.name)) continue; const p = path.join(d, e.name); if (e.isDirectory()) walk(p); else if (/\.tsx?$/.test(e.name) && !/\.(spec|test|d)\.ts/.test(e.name)) files.push(p); } };
for (const p of fs.readdirSync(path.join(root, "packages"))) { const d = path.join(root, "packages", p, "src"); if (fs.existsSync(d)) walk(d); }
const has = (n, pred, stopFn = true) => { let r = false; const v = (m) => { if (r) return; if (pred(m)) { r = true; return; } if (stopFn && m !== n && ts.isFunctionLike(m)) return; ts.forEachChild(m, v); }; v(n); return r; };
const id = (s) => f.createIdentifier(s + "$" + ++uid);
const con = (name, init, flags = ts.NodeFlags.Const, type) => f.createVariableStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(name, undefined, type, init)], flags));
const simple = (e) => ts.isIdentifier(e) || (ts.isPropertyAccessExpression(e) && !e.questionDotToken && simple(e.expression)) || e.kind === K.ThisKeyword;
const any = () => f.createKeywordTypeNode(K.AnyKeyword);
const paren = (e) => f.createParenthesizedExpression(e);
const not = (e) => f.createPrefixUnaryExpression(K.ExclamationToken, paren(e));
const block = (s) => ts.isBlock(s) ? s : f.createBlock([s], true);
const call = (e, name, args) => f.createCallExpression(f.createPropertyAccessExpression(e, name), undefined, args);
const method = (n, name) => ts.isCallExpression(n) && !n.questionDotToken && ts.isPropertyAccessExpression(n.expression) && !n.expression.questionDotToken && n.expression.name.text === name;
const arrow1 = (fn) => (ts.isArrowFunction(fn) && fn.parameters.length >= 1 && fn.parameters.length <= 2 && !fn.parameters.some((p) => p.initializer || p.dotDotDotToken) && !fn.modifiers);
const hasChain = (e) => has(e, (m) => !!m.questionDotToken, false);
const spreadAll = (e) => f.createArrayLiteralExpression([f.createSpreadElement(e)]);
const stmts = { // statement -> list of statements
  ifelse: (s) => {
    if (ts.isReturnStatement(s) && s.expression && ts.isConditionalExpression(s.expression)) { count++; const c = s.expression; return [f.createIfStatement(c.condition, f.createBlock([f.createReturnStatement(c.whenTrue)], true)), f.createReturnStatement(c.whenFalse)]; }
    if (ts.isVariableStatement(s) && !s.modifiers && s.declarationList.declarations.length === 1) { const d = s.declarationList.declarations[0]; if (ts.isIdentifier(d.name) && d.initializer && ts.isConditionalExpression(d.initializer)) { count++; const c = d.initializer; const set = (e) => f.createBlock([f.createExpressionStatement(f.createAssignment(d.name, e))], true); return [con(d.name, undefined, ts.NodeFlags.Let, d.type ?? any()), f.createIfStatement(c.condition, set(c.whenTrue), set(c.whenFalse))]; } }
  },
  index: (s) => {
    if (ts.isForOfStatement(s) && !s.awaitModifier && ts.isVariableDeclarationList(s.initializer)) { count++; const a = id("list"), i = id("i"); const d = s.initializer.declarations[0];
      return [con(a, spreadAll(s.expression)), f.createForStatement(f.createVariableDeclarationList([f.createVariableDeclaration(i, undefined, undefined, f.createNumericLiteral(0))], ts.NodeFlags.Let), f.createBinaryExpression(i, K.LessThanToken, f.createPropertyAccessExpression(a, "length")), f.createPostfixUnaryExpression(i, K.PlusPlusToken), f.createBlock([con(d.name, f.createElementAccessExpression(a, i)), ...block(s.statement).statements], true))]; }
  },
  windex: (s) => { // for…of as a while loop over indices
    if (ts.isForOfStatement(s) && !s.awaitModifier && ts.isVariableDeclarationList(s.initializer) && !has(s.statement, (m) => m.kind === K.ContinueStatement)) { count++; const a = id("list"), i = id("i"); const d = s.initializer.declarations[0];
      return [con(a, spreadAll(s.expression)), con(i, f.createNumericLiteral(0), ts.NodeFlags.Let), f.createWhileStatement(f.createBinaryExpression(i, K.LessThanToken, f.createPropertyAccessExpression(a, "length")), f.createBlock([con(d.name, f.createElementAccessExpression(a, i)), ...block(s.statement).statements, f.createExpressionStatement(f.createPostfixUnaryExpression(i, K.PlusPlusToken))], true))]; }
  },
  foreach: (s) => {
    if (ts.isForOfStatement(s) && !s.awaitModifier && ts.isVariableDeclarationList(s.initializer) && !has(s.statement, (m) => [K.ReturnStatement, K.BreakStatement, K.ContinueStatement, K.AwaitExpression, K.YieldExpression].includes(m.kind))) { count++; const d = s.initializer.declarations[0];
      return [f.createExpressionStatement(call(spreadAll(s.expression), "forEach", [f.createArrowFunction(undefined, undefined, [f.createParameterDeclaration(undefined, undefined, d.name, undefined, any())], undefined, undefined, block(s.statement))]))]; }
  },
  forof: (s) => {
    if (ts.isExpressionStatement(s) && method(s.expression, "forEach") && arrow1(s.expression.arguments[0]) && s.expression.arguments[0].parameters.length === 1 && !has(s.expression.arguments[0].body, (m) => m.kind === K.ReturnStatement)) { count++; const fn = s.expression.arguments[0];
      return [f.createForOfStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(fn.parameters[0].name)], ts.NodeFlags.Const), s.expression.expression.expression, ts.isBlock(fn.body) ? fn.body : f.createBlock([f.createExpressionStatement(fn.body)], true))]; }
  },
  map: (s) => {
    const go = (e, wrap) => { if (!e || hasChain(e)) return; for (const m of ["map", "filter"]) if (method(e, m) && arrow1(e.arguments[0]) && e.arguments[0].parameters.length === 1 && !ts.isBlock(e.arguments[0].body)) { count++; const out = id("out"), fn = e.arguments[0]; const push = f.createExpressionStatement(call(out, "push", [m === "map" ? fn.body : fn.parameters[0].name]));
      if (m === "filter" && !ts.isIdentifier(fn.parameters[0].name)) return;
      return [con(out, f.createArrayLiteralExpression([]), ts.NodeFlags.Const, f.createArrayTypeNode(any())), f.createForOfStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(fn.parameters[0].name)], ts.NodeFlags.Const), e.expression.expression, f.createBlock([m === "map" ? push : f.createIfStatement(fn.body, f.createBlock([push], true))], true)), wrap(out)]; } };
    if (ts.isReturnStatement(s)) return go(s.expression, (o) => f.createReturnStatement(o));
    if (ts.isVariableStatement(s) && !s.modifiers && s.declarationList.declarations.length === 1 && ts.isIdentifier(s.declarationList.declarations[0].name)) return go(s.declarationList.declarations[0].initializer, (o) => con(s.declarationList.declarations[0].name, o));
  },
  some: (s) => {
    const go = (e, wrap) => { if (!e || hasChain(e)) return; for (const m of ["some", "every"]) if (method(e, m) && arrow1(e.arguments[0]) && e.arguments[0].parameters.length === 1 && !ts.isBlock(e.arguments[0].body)) { count++; const out = id("out"), fn = e.arguments[0];
      return [con(out, m === "some" ? f.createFalse() : f.createTrue(), ts.NodeFlags.Let), f.createForOfStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(fn.parameters[0].name)], ts.NodeFlags.Const), e.expression.expression, f.createBlock([f.createIfStatement(m === "some" ? fn.body : not(fn.body), f.createBlock([f.createExpressionStatement(f.createAssignment(out, m === "some" ? f.createTrue() : f.createFalse())), f.createBreakStatement()], true))], true)), wrap(out)]; } };
    if (ts.isReturnStatement(s)) return go(s.expression, (o) => f.createReturnStatement(o));
    if (ts.isVariableStatement(s) && !s.modifiers && s.declarationList.declarations.length === 1 && ts.isIdentifier(s.declarationList.declarations[0].name)) return go(s.declarationList.declarations[0].initializer, (o) => con(s.declarationList.declarations[0].name, o));
    if (ts.isIfStatement(s)) { let w; const r = go(s.expression, (o) => f.createIfStatement(o, s.thenStatement, s.elseStatement)); return r; }
  },
  hoist: (s) => { if (ts.isReturnStatement(s) && s.expression && !ts.isIdentifier(s.expression)) { count++; const r = id("result"); return [con(r, s.expression), f.createReturnStatement(r)]; } if (ts.isIfStatement(s) && !ts.isIdentifier(s.expression) && !(s.parent && ts.isIfStatement(s.parent) && s.parent.elseStatement === s)) { count++; const r = id("cond"); return [con(r, s.expression), f.createIfStatement(r, s.thenStatement, s.elseStatement)]; } },
  nestif: (s) => { if (ts.isIfStatement(s) && !s.elseStatement && ts.isBinaryExpression(s.expression) && s.expression.operatorToken.kind === K.AmpersandAmpersandToken) { count++; return [f.createIfStatement(s.expression.left, f.createBlock([f.createIfStatement(s.expression.right, s.thenStatement)], true))]; } },
  invert: (s) => { if (ts.isIfStatement(s) && s.elseStatement && !ts.isIfStatement(s.elseStatement)) { count++; return [f.createIfStatement(not(s.expression), block(s.elseStatement), block(s.thenStatement))]; } },
  destructure: (s) => { if (ts.isVariableStatement(s) && !s.modifiers && s.declarationList.declarations.length === 1) { const d = s.declarationList.declarations[0]; if (ts.isObjectBindingPattern(d.name) && d.initializer && d.name.elements.every((e) => !e.dotDotDotToken && !e.initializer && ts.isIdentifier(e.name) && (!e.propertyName || ts.isIdentifier(e.propertyName)))) { count++; const o = id("o"); return [con(o, d.initializer, ts.NodeFlags.Const, any()), ...d.name.elements.map((e) => con(e.name, f.createPropertyAccessExpression(o, (e.propertyName ?? e.name).text)))]; } } },
  while: (s) => { if (ts.isForStatement(s) && s.initializer && ts.isVariableDeclarationList(s.initializer) && s.condition && s.incrementor && !has(s.statement, (m) => m.kind === K.ContinueStatement)) { count++; return [f.createBlock([f.createVariableStatement(undefined, s.initializer), f.createWhileStatement(s.condition, f.createBlock([...block(s.statement).statements, f.createExpressionStatement(s.incrementor)], true))], true)]; } },
  switch: (s) => { if (ts.isSwitchStatement(s)) { const cs = s.caseBlock.clauses; const ends = (c) => c.statements.length === 0 || (c.statements.length === 1 && ts.isReturnStatement(c.statements[0])) || (ts.isReturnStatement(c.statements.at(-1)) && !has(f.createBlock(c.statements), (m) => m.kind === K.BreakStatement)); if (cs.every(ends) && cs.length && (!cs.some(ts.isDefaultClause) || ts.isDefaultClause(cs.at(-1)))) { count++; const v = id("v"); const out = [con(v, s.expression)]; let pend = []; for (const c of cs) { if (ts.isDefaultClause(c)) { out.push(...c.statements); break; } pend.push(f.createBinaryExpression(v, K.EqualsEqualsEqualsToken, c.expression)); if (c.statements.length) { out.push(f.createIfStatement(pend.reduce((a, b) => f.createBinaryExpression(a, K.BarBarToken, b)), f.createBlock(c.statements, true))); pend = []; } } return out; } } },
  helper: (s, top) => { if (top && ts.isVariableStatement(s) && s.declarationList.declarations.length === 1) { const d = s.declarationList.declarations[0]; if (ts.isIdentifier(d.name) && d.initializer && ts.isArrowFunction(d.initializer) && !d.type && d.initializer.parameters.every((p) => ts.isIdentifier(p.name) && !p.dotDotDotToken && !p.initializer)) { count++; const n = id(d.name.text + "Impl"); const fn = d.initializer; return [con(n, fn), f.createVariableStatement(s.modifiers, f.createVariableDeclarationList([f.createVariableDeclaration(d.name, undefined, undefined, f.createArrowFunction(undefined, fn.typeParameters, fn.parameters, fn.type, undefined, f.createCallExpression(n, undefined, fn.parameters.map((p) => p.name))))], ts.NodeFlags.Const))]; } } },
  funcdecl: (s, top) => { if (top && ts.isVariableStatement(s) && s.declarationList.declarations.length === 1) { const d = s.declarationList.declarations[0]; if (ts.isIdentifier(d.name) && d.initializer && ts.isArrowFunction(d.initializer) && !has(d.initializer, (m) => m.kind === K.ThisKeyword)) { count++; const fn = d.initializer; return [f.createFunctionDeclaration([...(s.modifiers ?? []), ...(fn.modifiers ?? [])], undefined, d.name, fn.typeParameters, fn.parameters, fn.type, ts.isBlock(fn.body) ? fn.body : f.createBlock([f.createReturnStatement(fn.body)], true))]; } } },
  extract: (s, top) => { // the then-branch of an if becomes a local helper, when it has no control flow out of it
    if (ts.isIfStatement(s) && ts.isBlock(s.thenStatement) && s.thenStatement.statements.length && !has(s.thenStatement, (m) => [K.ReturnStatement, K.BreakStatement, K.ContinueStatement, K.AwaitExpression, K.YieldExpression].includes(m.kind))) { count++; const h = id("step"); return [con(h, f.createArrowFunction(undefined, undefined, [], undefined, undefined, s.thenStatement)), f.createIfStatement(s.expression, f.createBlock([f.createExpressionStatement(f.createCallExpression(h, undefined, []))], true), s.elseStatement)]; } },
  trycond: (s) => { if (ts.isIfStatement(s) && s.elseStatement === undefined && ts.isBlock(s.thenStatement) && ts.isReturnStatement(s.thenStatement.statements.at(-1) ?? s)) { return; } },
  noop: (s) => { if (ts.isReturnStatement(s)) { count++; return [f.createExpressionStatement(f.createVoidZero()), s]; } },
};
const exprs = {
  concat: (n) => { if (ts.isTemplateExpression(n)) { count++; let e = f.createStringLiteral(n.head.text); for (const sp of n.templateSpans) { e = f.createAdd(e, f.createCallExpression(f.createIdentifier("String"), undefined, [sp.expression])); if (sp.literal.text) e = f.createAdd(e, f.createStringLiteral(sp.literal.text)); } return paren(e); } },
  nullish: (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.QuestionQuestionToken && simple(n.left)) { count++; return paren(f.createConditionalExpression(f.createLogicalAnd(f.createStrictInequality(n.left, f.createIdentifier("undefined")), f.createStrictInequality(n.left, f.createNull())), undefined, n.left, undefined, n.right)); } },
  chain: (n) => { if (ts.isPropertyAccessExpression(n) && n.questionDotToken && simple(n.expression) && !(n.parent && ((ts.isPropertyAccessExpression(n.parent) || ts.isElementAccessExpression(n.parent) || ts.isCallExpression(n.parent) || ts.isNonNullExpression(n.parent)) && n.parent.expression === n)) && !(n.parent && ts.isDeleteExpression(n.parent))) { count++; return paren(f.createConditionalExpression(f.createLogicalOr(f.createStrictEquality(n.expression, f.createIdentifier("undefined")), f.createStrictEquality(n.expression, f.createNull())), undefined, f.createIdentifier("undefined"), undefined, f.createPropertyAccessExpression(n.expression, n.name))); } },
  assign: (n) => { if (ts.isObjectLiteralExpression(n) && n.properties.length && n.properties.some(ts.isSpreadAssignment) && !(n.parent && ts.isAsExpression(n.parent) && n.parent.type.getText?.() === "const")) { count++; const parts = []; let cur = []; for (const p of n.properties) { if (ts.isSpreadAssignment(p)) { if (cur.length) parts.push(f.createObjectLiteralExpression(cur)); cur = []; parts.push(p.expression); } else cur.push(p); } if (cur.length) parts.push(f.createObjectLiteralExpression(cur)); return call(f.createIdentifier("Object"), "assign", [f.createAsExpression(f.createObjectLiteralExpression([]), any()), ...parts]); } },
  includes: (n) => { if (method(n, "includes") && n.arguments.length === 1) { count++; return paren(f.createStrictInequality(call(n.expression.expression, "indexOf", n.arguments), f.createPrefixMinus(f.createNumericLiteral(1)))); } if (method(n, "at") && n.arguments[0]?.getText?.() === "-1" && simple(n.expression.expression)) { count++; return f.createElementAccessExpression(n.expression.expression, f.createSubtract(f.createPropertyAccessExpression(n.expression.expression, "length"), f.createNumericLiteral(1))); } },
  starts: (n) => { if ((method(n, "startsWith")) && n.arguments.length === 1 && ts.isStringLiteral(n.arguments[0]) && simple(n.expression.expression)) { count++; return paren(f.createStrictEquality(call(n.expression.expression, "slice", [f.createNumericLiteral(0), f.createNumericLiteral(n.arguments[0].text.length)]), n.arguments[0])); } if (method(n, "endsWith") && n.arguments.length === 1 && ts.isStringLiteral(n.arguments[0]) && n.arguments[0].text.length) { count++; return paren(f.createStrictEquality(call(n.expression.expression, "slice", [f.createPrefixMinus(f.createNumericLiteral(n.arguments[0].text.length))]), n.arguments[0])); } },
  demorgan: (n) => { if (ts.isBinaryExpression(n) && n.parent && (ts.isIfStatement(n.parent)) && n.parent.expression === n && (n.operatorToken.kind === K.AmpersandAmpersandToken || n.operatorToken.kind === K.BarBarToken)) { count++; return not(f.createBinaryExpression(not(n.left), n.operatorToken.kind === K.BarBarToken ? K.AmpersandAmpersandToken : K.BarBarToken, not(n.right))); } },
  swapeq: (n) => { if (ts.isBinaryExpression(n) && (n.operatorToken.kind === K.EqualsEqualsEqualsToken || n.operatorToken.kind === K.ExclamationEqualsEqualsToken) && !has(n, (m) => ts.isCallExpression(m) || ts.isAwaitExpression(m))) { count++; return f.createBinaryExpression(paren(n.right), n.operatorToken, n.left); } },
  test: (n) => { if (method(n, "test") && n.arguments.length === 1) { count++; return paren(f.createStrictInequality(call(n.expression.expression, "exec", n.arguments), f.createNull())); } if (method(n, "match") && 0) return; },
  then: (n) => { if (ts.isArrowFunction(n) && n.modifiers?.some((m) => m.kind === K.AsyncKeyword) && !ts.isBlock(n.body) && !has(n.body, (m) => m.kind === K.AwaitExpression)) { count++; return f.createArrowFunction(n.modifiers, n.typeParameters, n.parameters, n.type, undefined, f.createBlock([f.createReturnStatement(f.createAwaitExpression(n.body))], true)); } },
};
const stf = stmts[mode], exf = exprs[mode]; if (!stf && !exf) { console.error("modes: " + [...Object.keys(stmts), ...Object.keys(exprs)].join(" ")); process.exit(2); }
const printer = ts.createPrinter();
for (const p of files) {
  const text = fs.readFileSync(p, "utf8"), sf = ts.createSourceFile(p, text, ts.ScriptTarget.ES2022, true, p.endsWith("x") ? ts.ScriptKind.TSX : ts.ScriptKind.TS); const c0 = count;
  const r = ts.transform(sf, [(ctx) => { const list = (ss, top) => f.createNodeArray(ss.flatMap((s) => { const orig = s; const t = stf?.(orig, top); const xs = t ?? [s]; return xs.map((x) => ts.visitNode(x, t ? visitChildren : visit)); })); const visitChildren = (n) => ts.visitEachChild(n, visit, ctx);
    const visit = (n) => { if (ts.isBlock(n)) return f.updateBlock(n, list(n.statements, false)); if (ts.isCaseClause(n)) return f.updateCaseClause(n, ts.visitNode(n.expression, visit), list(n.statements, false)); if (exf) { const e = exf(n); if (e) return ts.visitEachChild(e, visit, ctx); } return ts.visitEachChild(n, visit, ctx); };
    return (s) => f.updateSourceFile(s, list(s.statements, true)); }]);
  if (count !== c0) fs.writeFileSync(p, printer.printFile(r.transformed[0]));
}
console.log(mode, count, "changes");
