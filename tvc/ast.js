// dumps the syntax tree of TypeScript files as JSON: {file: tree}
const ts = require("/opt/veriftools/node/node_modules/typescript"), fs = require("fs");
const SKIP = new Set(["parent", "pos", "end", "flags", "modifierFlagsCache", "transformFlags", "id", "emitNode", "jsDoc", "original", "symbol", "localSymbol", "locals", "nextContainer", "flowNode", "endFlowNode", "returnFlowNode", "contextualType", "inferenceContext", "typeParameters", "type", "questionToken", "exclamationToken", "endOfFileToken", "lineMap", "nodeCount", "identifierCount", "symbolCount", "bindDiagnostics", "parseDiagnostics", "kind"]);
function conv(n, sf) {
  if (Array.isArray(n)) return n.map(x => conv(x, sf));
  if (n === null || typeof n !== "object") return n;
  if (typeof n.kind !== "number") return undefined;
  const o = { k: ts.SyntaxKind[n.kind] };
  if (n.kind === ts.SyntaxKind.NumericLiteral) o.k = "NumericLiteral";
  if (n.pos !== undefined && n.pos >= 0) o.line = sf.getLineAndCharacterOfPosition(ts.skipTrivia(sf.text, n.pos)).line + 1;
  for (const p of Object.keys(n)) if (!SKIP.has(p)) {
    let v = n[p];
    if (p === "operator") v = ts.tokenToString(v);
    else if (v && typeof v === "object") v = conv(v, sf);
    if (v !== undefined && typeof v !== "function") o[p] = v;
  }
  if (n.kind === ts.SyntaxKind.VariableDeclarationList) o.const = (n.flags & 2) !== 0;
  for (const m of n.modifiers || []) o[ts.tokenToString(m.kind) || "mod"] = true;
  if (n.kind === ts.SyntaxKind.BinaryExpression) o.op = ts.tokenToString(n.operatorToken.kind);
  return o;
}
const out = {};
for (const f of process.argv.slice(2)) {
  const sf = ts.createSourceFile(f, fs.readFileSync(f, "utf8"), ts.ScriptTarget.ES2022, true);
  if (sf.parseDiagnostics.length) { out[f] = { error: sf.parseDiagnostics.map(d => ts.flattenDiagnosticMessageText(d.messageText, " ")).join("; ") }; continue; }
  out[f] = { k: "SourceFile", statements: conv(sf.statements, sf) };
}
process.stdout.write(JSON.stringify(out));
