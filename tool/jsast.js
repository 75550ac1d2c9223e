// Dumps the syntax tree of a JavaScript file as JSON (TypeScript's parser; nothing is executed).
const ts = require(process.env.TS_PATH || "/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const text = fs.readFileSync(process.argv[2], "utf8");
const sf = ts.createSourceFile("client.js", text, ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
if (sf.parseDiagnostics && sf.parseDiagnostics.length) {
    console.log(JSON.stringify({ error: sf.parseDiagnostics.map((d) => ts.flattenDiagnosticMessageText(d.messageText, " ") + " at line " + (sf.getLineAndCharacterOfPosition(d.start).line + 1)) }));
    process.exit(0);
}
const skip = new Set(["parent", "pos", "end", "flags", "modifierFlagsCache", "transformFlags", "id", "symbol", "localSymbol", "locals", "nextContainer", "flowNode", "emitNode", "jsDoc", "endFlowNode", "returnFlowNode", "jsDocCache", "original", "kind", "hasExtendedUnicodeEscape", "numericLiteralFlags", "templateFlags", "singleQuote", "multiLine"]);
function names(kind) {
    // the first name of the kind (SyntaxKind has aliases such as FirstAssignment)
    for (const k of Object.keys(ts.SyntaxKind)) {
        if (ts.SyntaxKind[k] === kind && !/^(First|Last)/.test(k)) return k;
    }
    return ts.SyntaxKind[kind];
}
const cache = new Map();
function kindName(k) {
    if (!cache.has(k)) cache.set(k, names(k));
    return cache.get(k);
}
function conv(n) {
    const r = { k: kindName(n.kind), line: sf.getLineAndCharacterOfPosition(n.getStart ? n.getStart(sf) : n.pos).line + 1 };
    if (n.kind === ts.SyntaxKind.VariableDeclarationList) r.decl = n.flags & ts.NodeFlags.Let ? "let" : n.flags & ts.NodeFlags.Const ? "const" : "var";
    for (const p of Object.keys(n)) {
        if (skip.has(p)) continue;
        const v = n[p];
        if (v === undefined || v === null || typeof v === "function") continue;
        if (Array.isArray(v)) r[p] = v.filter((x) => x && typeof x.kind === "number").map(conv);
        else if (typeof v === "object" && typeof v.kind === "number") r[p] = conv(v);
        else if (typeof v === "string" || typeof v === "number" || typeof v === "boolean") r[p] = v;
        else if (p === "text") r[p] = String(v);
    }
    if (n.kind === ts.SyntaxKind.PrefixUnaryExpression || n.kind === ts.SyntaxKind.PostfixUnaryExpression) r.op = kindName(n.operator);
    return r;
}
console.log(JSON.stringify({ body: sf.statements.map(conv) }));
