// Rewrites JavaScript so that every operation that may meet a symbolic value goes through the runtime `$`.
'use strict';
const ts = require('/opt/veriftools/node/node_modules/typescript');
const f = ts.factory, K = ts.SyntaxKind;
const BIN = new Map([[K.EqualsEqualsToken, '=='], [K.ExclamationEqualsToken, '!='], [K.EqualsEqualsEqualsToken, '==='], [K.ExclamationEqualsEqualsToken, '!=='], [K.LessThanToken, '<'], [K.GreaterThanToken, '>'], [K.LessThanEqualsToken, '<='], [K.GreaterThanEqualsToken, '>='],
  [K.PlusToken, '+'], [K.MinusToken, '-'], [K.AsteriskToken, '*'], [K.SlashToken, '/'], [K.PercentToken, '%'], [K.AsteriskAsteriskToken, '**'], [K.AmpersandToken, '&'], [K.BarToken, '|'], [K.CaretToken, '^'], [K.LessThanLessThanToken, '<<'], [K.GreaterThanGreaterThanToken, '>>'], [K.GreaterThanGreaterThanGreaterThanToken, '>>>'], [K.InKeyword, 'in'], [K.InstanceOfKeyword, 'instanceof']]);
const COMPOUND = new Map([[K.PlusEqualsToken, '+'], [K.MinusEqualsToken, '-'], [K.AsteriskEqualsToken, '*'], [K.SlashEqualsToken, '/'], [K.PercentEqualsToken, '%'], [K.AmpersandEqualsToken, '&'], [K.BarEqualsToken, '|'], [K.CaretEqualsToken, '^']]);
const LOGICAL = new Map([[K.BarBarEqualsToken, K.BarBarToken], [K.AmpersandAmpersandEqualsToken, K.AmpersandAmpersandToken], [K.QuestionQuestionEqualsToken, K.QuestionQuestionToken]]);
const call = (n, ...a) => f.createCallExpression(f.createPropertyAccessExpression(f.createIdentifier('$'), n), undefined, a);
const str = s => f.createStringLiteral(s);
const v = e => call("v", e);
const simple = e => ts.isIdentifier(e) || e.kind === K.ThisKeyword || ts.isPropertyAccessExpression(e) && simple(e.expression);
function instrument(js, names) {
  const sf = ts.createSourceFile('x.js', js, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
  const out = ts.transform(sf, [ctx => {
    const sub = n => ts.visitEachChild(n, visit, ctx);
    // name of a function for the record of what was executed
    const title = n => n.name && ts.isIdentifier(n.name) ? n.name.text : n.parent && (ts.isVariableDeclaration(n.parent) || ts.isPropertyAssignment(n.parent)) && ts.isIdentifier(n.parent.name) ? n.parent.name.text : n.parent && ts.isBinaryExpression(n.parent) && ts.isPropertyAccessExpression(n.parent.left) ? n.parent.left.name.text : '';
    function visit(n) {
      if (ts.isFunctionLike(n) && n.body) {
        const t = title(n) || 'anonymous at ' + sf.getLineAndCharacterOfPosition(n.getStart()).line;
        names.add(t);
        const m = sub(n);
        const mark = f.createExpressionStatement(call('fn', str(t)));
        const body = ts.isBlock(m.body) ? f.updateBlock(m.body, [...m.body.statements.filter(s => directive(s)), mark, ...m.body.statements.filter(s => !directive(s))]) : f.createBlock([mark, f.createReturnStatement(m.body)], true);
        if (ts.isArrowFunction(m)) return f.updateArrowFunction(m, m.modifiers, m.typeParameters, m.parameters, m.type, m.equalsGreaterThanToken, body);
        if (ts.isFunctionDeclaration(m)) return f.updateFunctionDeclaration(m, m.modifiers, m.asteriskToken, m.name, m.typeParameters, m.parameters, m.type, body);
        if (ts.isFunctionExpression(m)) return f.updateFunctionExpression(m, m.modifiers, m.asteriskToken, m.name, m.typeParameters, m.parameters, m.type, body);
        if (ts.isMethodDeclaration(m)) return f.updateMethodDeclaration(m, m.modifiers, m.asteriskToken, m.name, m.questionToken, m.typeParameters, m.parameters, m.type, body);
        return m;
      }
      if (ts.isBinaryExpression(n)) {
        const op = n.operatorToken.kind;
        if (op === K.InKeyword && ts.isPrivateIdentifier(n.left)) return sub(n);
        if (BIN.has(op)) return call('bin', str(BIN.get(op)), visit(n.left), visit(n.right));
        if (op === K.AmpersandAmpersandToken || op === K.BarBarToken) return f.createParenthesizedExpression(f.createBinaryExpression(v(visit(n.left)), n.operatorToken, visit(n.right)));
        if (COMPOUND.has(op) && simple(n.left)) return f.createParenthesizedExpression(f.createAssignment(visit(n.left), call('bin', str(COMPOUND.get(op)), visit(n.left), visit(n.right))));
        if (LOGICAL.has(op) && simple(n.left)) return f.createParenthesizedExpression(f.createAssignment(visit(n.left), f.createBinaryExpression(op === K.QuestionQuestionEqualsToken ? visit(n.left) : v(visit(n.left)), LOGICAL.get(op), f.createParenthesizedExpression(visit(n.right)))));
        if (op === K.EqualsToken && ts.isElementAccessExpression(n.left) && !literal(n.left.argumentExpression)) return call('set', visit(n.left.expression), visit(n.left.argumentExpression), visit(n.right));
        return sub(n);
      }
      if (ts.isPrefixUnaryExpression(n)) {
        const x = n.operand;
        if (n.operator === K.ExclamationToken) return f.createPrefixUnaryExpression(K.ExclamationToken, v(visit(x)));
        if ((n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) && simple(x)) return f.createParenthesizedExpression(f.createAssignment(visit(x), call('bin', str(n.operator === K.PlusPlusToken ? '+' : '-'), visit(x), f.createNumericLiteral(1))));
        if (n.operator === K.MinusToken && !ts.isNumericLiteral(x)) return call('neg', visit(x));
        return sub(n);
      }
      if (ts.isPostfixUnaryExpression(n) && simple(n.operand)) {
        const x = n.operand;
        return call('first', visit(x), f.createAssignment(visit(x), call('bin', str(n.operator === K.PlusPlusToken ? '+' : '-'), visit(x), f.createNumericLiteral(1))));
      }
      if (ts.isTypeOfExpression(n)) {
        if (ts.isIdentifier(n.expression)) return f.createParenthesizedExpression(f.createConditionalExpression(f.createStrictEquality(f.createTypeOfExpression(n.expression), str('undefined')), undefined, str('undefined'), undefined, call('type', n.expression)));
        return call('type', visit(n.expression));
      }
      if (ts.isConditionalExpression(n)) return f.createParenthesizedExpression(f.createConditionalExpression(v(visit(n.condition)), n.questionToken, visit(n.whenTrue), n.colonToken, visit(n.whenFalse)));
      if (ts.isIfStatement(n)) return f.updateIfStatement(n, v(visit(n.expression)), ts.visitNode(n.thenStatement, visit), n.elseStatement && ts.visitNode(n.elseStatement, visit));
      if (ts.isWhileStatement(n)) return f.updateWhileStatement(n, v(visit(n.expression)), ts.visitNode(n.statement, visit));
      if (ts.isDoStatement(n)) return f.updateDoStatement(n, ts.visitNode(n.statement, visit), v(visit(n.expression)));
      if (ts.isForStatement(n)) { const m = sub(n); return n.condition ? f.updateForStatement(m, m.initializer, v(m.condition), m.incrementor, m.statement) : m }
      if (ts.isSwitchStatement(n)) {
        const t = f.createUniqueName('sw');
        const clauses = n.caseBlock.clauses.map(c => ts.isCaseClause(c) ? f.updateCaseClause(c, v(call('bin', str('==='), t, visit(c.expression))), c.statements.map(visit)) : sub(c));
        // a block around it keeps the name to itself; `break` still leaves the switch
        return f.createBlock([f.createVariableStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(t, undefined, undefined, visit(n.expression))], ts.NodeFlags.Const)), f.createSwitchStatement(f.createTrue(), f.createCaseBlock(clauses))], true);
      }
      if (ts.isTemplateExpression(n)) return call('text', f.createArrayLiteralExpression([str(n.head.text), ...n.templateSpans.flatMap(s => [visit(s.expression), str(s.literal.text)])]));
      if (ts.isDeleteExpression(n) && ts.isElementAccessExpression(n.expression) && !literal(n.expression.argumentExpression)) return call('del', visit(n.expression.expression), visit(n.expression.argumentExpression));
      if (ts.isCallExpression(n) && ts.isElementAccessExpression(n.expression) && !n.expression.questionDotToken && !n.questionDotToken && !literal(n.expression.argumentExpression)) return call('invoke', visit(n.expression.expression), visit(n.expression.argumentExpression), f.createArrayLiteralExpression(n.arguments.map(visit)));
      if (ts.isElementAccessExpression(n) && !literal(n.argumentExpression) && !n.questionDotToken && !(n.flags & ts.NodeFlags.OptionalChain) && n.expression.kind !== K.SuperKeyword && !target(n)) return call('get', visit(n.expression), visit(n.argumentExpression));
      return sub(n);
    }
    return s => ts.visitNode(s, visit);
  }]);
  return ts.createPrinter().printFile(out.transformed[0]);
}
const directive = s => ts.isExpressionStatement(s) && ts.isStringLiteral(s.expression);
const literal = e => ts.isStringLiteralLike(e) || ts.isNumericLiteral(e);
// an element that is assigned to by a pattern or an operator is left alone
function target(n) {
  const p = n.parent;
  return p && (ts.isBinaryExpression(p) && p.left === n && p.operatorToken.kind >= K.FirstAssignment && p.operatorToken.kind <= K.LastAssignment || ts.isPostfixUnaryExpression(p) || ts.isPrefixUnaryExpression(p) && p.operator !== K.ExclamationToken && p.operator !== K.MinusToken && p.operator !== K.PlusToken && p.operator !== K.TildeToken || (ts.isForOfStatement(p) || ts.isForInStatement(p)) && p.initializer === n || ts.isArrayLiteralExpression(p) && target(p) || ts.isPropertyAssignment(p) && p.initializer === n && target(p.parent) || ts.isObjectLiteralExpression(n) && ts.isParenthesizedExpression(p) && target(p));
}
/** TypeScript to JavaScript, without types */
function strip(text) {
  const r = ts.transpileModule(text, { reportDiagnostics: true, compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS, removeComments: true } });
  const bad = (r.diagnostics || []).filter(d => d.category === ts.DiagnosticCategory.Error);
  if (bad.length) throw new Error('the generated client is no TypeScript: ' + ts.flattenDiagnosticMessageText(bad[0].messageText, ' ') + ' at ' + bad[0].start);
  return r.outputText;
}
module.exports = { instrument, strip };
