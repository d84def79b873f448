// syntax tree of a script as JSON (nothing is run)
const ts = require(process.argv[2]), file = process.argv[3], fs = require("fs");
const names = {};
for (const k of Object.keys(ts.SyntaxKind)) if (isNaN(k) && !/^(First|Last)/.test(k)) names[ts.SyntaxKind[k]] = k;
const src = ts.createSourceFile(file, fs.readFileSync(file, "utf8"), ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
if (src.parseDiagnostics.length) { console.error(ts.flattenDiagnosticMessageText(src.parseDiagnostics[0].messageText, "\n")); process.exit(3); }
const skip = new Set(["parent", "jsDoc", "modifiers", "symbol", "locals", "nextContainer", "endFlowNode", "flowNode", "emitNode", "original", "endOfFileToken", "text", "id", "transformFlags", "modifierFlagsCache", "pos", "end", "flags"]);
function dump(n) {
  const o = { k: names[n.kind], line: src.getLineAndCharacterOfPosition(n.getStart(src)).line + 1 };
  if (typeof n.text === "string") o.text = n.text;
  for (const key of Object.keys(n)) {
    if (skip.has(key)) continue;
    const v = n[key];
    if (key === "operator") o.op = names[v];
    else if (Array.isArray(v)) { if (v.every(x => x && x.kind !== undefined)) o[key] = v.map(dump); }
    else if (v && typeof v === "object" && v.kind !== undefined && v.pos !== undefined) o[key] = dump(v);
  }
  return o;
}
console.log(JSON.stringify(src.statements.map(dump)));
