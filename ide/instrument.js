// Rewrites a TypeScript or JavaScript module so that operators and conditions go through the runtime
// (`$op`, `$v`, `$typeof`, `$u`): what the module computes from symbolic numbers is recorded as terms, and every
// comparison becomes a recorded branch.
const ts = require("/opt/veriftools/node/node_modules/typescript");

const K = ts.SyntaxKind;
const BIN = {
  [K.PlusToken]: "+", [K.MinusToken]: "-", [K.AsteriskToken]: "*", [K.SlashToken]: "/", [K.PercentToken]: "%",
  [K.LessThanToken]: "<", [K.LessThanEqualsToken]: "<=", [K.GreaterThanToken]: ">", [K.GreaterThanEqualsToken]: ">=",
  [K.EqualsEqualsToken]: "==", [K.EqualsEqualsEqualsToken]: "===", [K.ExclamationEqualsToken]: "!=", [K.ExclamationEqualsEqualsToken]: "!==",
};
const ASSIGN = {
  [K.PlusEqualsToken]: "+", [K.MinusEqualsToken]: "-", [K.AsteriskEqualsToken]: "*", [K.SlashEqualsToken]: "/", [K.PercentEqualsToken]: "%",
};

const transformer = (ctx) => {
  const f = ctx.factory;
  const call = (name, ...args) => f.createCallExpression(f.createIdentifier(name), undefined, args);
  const literal = (n) => ts.isNumericLiteral(n) || ts.isStringLiteral(n) || n.kind === K.NullKeyword;
  const visit = (node) => {
    node = ts.visitEachChild(node, visit, ctx);
    if (ts.isBinaryExpression(node)) {
      const k = node.operatorToken.kind;
      if (BIN[k]) return call("$op", f.createStringLiteral(BIN[k]), node.left, node.right);
      if (k === K.AmpersandAmpersandToken || k === K.BarBarToken)
        return f.updateBinaryExpression(node, call("$v", node.left), node.operatorToken, node.right);
      if (ASSIGN[k] && (ts.isIdentifier(node.left) || ts.isPropertyAccessExpression(node.left) || ts.isElementAccessExpression(node.left)))
        return f.createParenthesizedExpression(f.createAssignment(node.left, call("$op", f.createStringLiteral(ASSIGN[k]), node.left, node.right)));
      if ((k === K.AmpersandAmpersandEqualsToken || k === K.BarBarEqualsToken) && ts.isIdentifier(node.left))
        return f.createParenthesizedExpression(f.createBinaryExpression(call("$v", node.left), k === K.BarBarEqualsToken ? K.BarBarToken : K.AmpersandAmpersandToken,
          f.createParenthesizedExpression(f.createAssignment(node.left, node.right))));
      return node;
    }
    if (ts.isPrefixUnaryExpression(node)) {
      if (node.operator === K.ExclamationToken) return f.createLogicalNot(call("$v", node.operand));
      if (node.operator === K.MinusToken && !literal(node.operand)) return call("$op", f.createStringLiteral("-"), f.createNumericLiteral(0), node.operand);
      if (node.operator === K.PlusToken) return call("$plus", node.operand);
      return node;
    }
    if (ts.isTypeOfExpression(node) && !ts.isIdentifier(node.expression)) return call("$typeof", node.expression);
    if (ts.isTypeOfExpression(node))
      // the name may not be bound at all
      return f.createConditionalExpression(
        f.createBinaryExpression(f.createTypeOfExpression(node.expression), K.EqualsEqualsEqualsToken, f.createStringLiteral("undefined")), undefined,
        f.createStringLiteral("undefined"), undefined, call("$typeof", node.expression));
    if (ts.isConditionalExpression(node)) return f.updateConditionalExpression(node, call("$v", node.condition), node.questionToken, node.whenTrue, node.colonToken, node.whenFalse);
    if (ts.isIfStatement(node)) return f.updateIfStatement(node, call("$v", node.expression), node.thenStatement, node.elseStatement);
    if (ts.isWhileStatement(node)) return f.updateWhileStatement(node, call("$v", node.expression), node.statement);
    if (ts.isDoStatement(node)) return f.updateDoStatement(node, node.statement, call("$v", node.expression));
    if (ts.isForStatement(node) && node.condition) return f.updateForStatement(node, node.initializer, call("$v", node.condition), node.incrementor, node.statement);
    if (ts.isSwitchStatement(node)) return f.updateSwitchStatement(node, call("$u", node.expression), node.caseBlock);
    return node;
  };
  return (file) => ts.visitNode(file, visit);
};

exports.compile = (source, fileName, instrumented) =>
  ts.transpileModule(source, {
    fileName,
    compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, esModuleInterop: true, allowJs: true, useDefineForClassFields: true },
    transformers: instrumented ? { after: [transformer] } : {},
  }).outputText;
