// Dumps the syntax trees of TypeScript files as JSON (TypeScript compiler API, parse only).
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const NAME = {};
for (const k of Object.keys(ts.SyntaxKind)) {
  const v = ts.SyntaxKind[k];
  if (typeof v === "number" && !(v in NAME && !/^(First|Last)/.test(NAME[v])) ) NAME[v] = k;
}
function go(n) {
  const o = { k: NAME[n.kind] };
  for (const key of Object.keys(n)) {
    if (["parent", "kind", "pos", "end", "flags", "id", "modifierFlagsCache", "transformFlags", "jsDoc", "emitNode", "original", "symbol", "locals", "nextContainer", "localSymbol", "flowNode", "endFlowNode", "returnFlowNode", "hasExtendedUnicodeEscape", "rawText", "templateFlags", "numericLiteralFlags", "endOfFileToken", "escapedText"].includes(key)) continue;
    const v = n[key];
    if (v === undefined || v === null) continue;
    if (Array.isArray(v)) { o[key] = v.filter(x => x && x.kind !== undefined).map(go); }
    else if (typeof v === "object" && v.kind !== undefined) o[key] = go(v);
    else if (["string", "number", "boolean"].includes(typeof v)) o[key] = v;
  }
  if (n.escapedText !== undefined) o.text = String(n.escapedText);
  return o;
}
const out = {};
for (const f of process.argv.slice(2)) {
  const s = ts.createSourceFile(f, fs.readFileSync(f, "utf8"), ts.ScriptTarget.Latest, false, ts.ScriptKind.TS);
  out[f] = { diags: (s.parseDiagnostics || []).length, statements: s.statements.map(go) };
}
process.stdout.write(JSON.stringify(out));
