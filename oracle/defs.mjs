// Reference inventory of definitions: the TypeScript compiler's syntax tree.
import { ts } from './tsc.mjs';
import { byteMap } from './syntax.mjs';
const NOTEXT = /^([-<\d.]|Infinity$)/;
const K = ts.SyntaxKind;
// Only what HIR gives a definition of its own, under its source name ('~' stands for "no name in the source").
export function inventory(c) {
  const sf = ts.createSourceFile('in.ts', c.src, { languageVersion: ts.ScriptTarget.Latest, jsDocParsingMode: 1 }, true, ts.ScriptKind.TS);
  if (sf.parseDiagnostics.length) return null;
  // the reparse of top-level await can leave statements twice in the tree
  for (let i = 1; i < sf.statements.length; i++) if (sf.statements[i].pos < sf.statements[i - 1].end) return null;
  const out = [];
  const put = (kind, name, node) => out.push([kind, name, node.getStart(sf, false), node.end, nameEnd(node), ts.isImportEqualsDeclaration(node) || ts.isFunctionDeclaration(node) && !node.body]);
  // where the parameter list (or what follows the name) starts
  const nameEnd = n => { const t = n.parameters ? sf.text.indexOf('(', n.name ? n.name.end : n.getStart(sf, false)) : -1; return t >= 0 && t < n.end ? t : n.name ? n.name.end : n.getStart(sf, false); };
  const nm = n => !n ? '~' : ts.isIdentifier(n) || ts.isPrivateIdentifier(n) ? ts.idText(n) : ts.isStringLiteral(n) && !NOTEXT.test(n.text) ? n.text.toWellFormed() : '~';
  const bind = (n, kind) => { if (ts.isIdentifier(n)) put(kind, ts.idText(n), n); else for (const e of n.elements) if (ts.isBindingElement(e)) bind(e.name, kind); };
  let odd = false, bad = false;
  const walk = n => {
    // a contextual keyword read as an expression: the two parsers disagree about the statement, not about its definitions
    if (n.kind === K.ExpressionStatement && ts.isIdentifier(n.expression)) odd = true;
    if (c.ts && n.kind === K.Parameter && n.questionToken && !n.type) odd = true; // the parser cannot read `(p?) => T`
    if (c.ts && (n.kind === K.ArrowFunction || n.kind === K.TypeAssertionExpression || n.kind === K.Block && n.parent === sf || n.kind === K.NewExpression || n.kind === K.CallExpression || n.kind === K.BinaryExpression && n.operatorToken.kind === K.LessThanToken)) odd = odd || c.src.includes('<');
    // a member whose name is a modifier keyword, followed by another member on the next line
    if (n.parent && ts.isClassLike(n.parent) && n.modifiers?.some(m => m.kind === K.ExportKeyword || m.kind === K.DefaultKeyword || m.kind === K.ConstKeyword || m.kind === K.InKeyword || m.kind === K.OutKeyword)) bad = true;
    const cls = n.parent && ts.isClassLike(n.parent);
    switch (n.kind) {
      case K.FunctionDeclaration: case K.FunctionExpression: case K.ArrowFunction: put('Function', nm(n.name), n); break;
      case K.ClassDeclaration: case K.ClassExpression: put('Class', nm(n.name), n); break;
      case K.VariableDeclaration: { const o = n.parent.parent.kind; if (ts.isVariableStatement(n.parent.parent) || o === K.ForStatement) bind(n.name, 'Var'); break; }
      case K.Parameter: { const p = n.parent; if (p.body || (ts.isFunctionDeclaration(p) || ts.isClassLike(p.parent) && !ts.isIndexSignatureDeclaration(p))) bind(n.name, 'Param'); break; }
      case K.TypeAliasDeclaration: put('TypeAlias', nm(n.name), n); break;
      case K.InterfaceDeclaration: put('Interface', nm(n.name), n); break;
      case K.EnumDeclaration: put('Enum', nm(n.name), n); break;
      case K.EnumMember: put('EnumMember', nm(n.name), n); break;
      case K.MethodDeclaration: put('Method', nm(n.name), n); break;
      case K.GetAccessor: if (n.body || cls) put('Getter', nm(n.name), n); break;
      case K.SetAccessor: if (n.body || cls) put('Setter', nm(n.name), n); break;
      case K.PropertyDeclaration: put('Field', nm(n.name), n); break;
      case K.ImportClause: if (n.name) put('ImportBinding', nm(n.name), n.name); break;
      case K.NamespaceImport: case K.ImportSpecifier: case K.ImportEqualsDeclaration: put('ImportBinding', nm(n.name), n); break;
    }
    ts.forEachChild(n, walk);
  };
  walk(sf);
  return bad || odd && c.ts ? null : out;
}
const KINDS = new Set(['Function', 'Class', 'Var', 'Param', 'TypeAlias', 'Interface', 'Enum', 'EnumMember', 'Method', 'Getter', 'Setter', 'Field', 'ImportBinding']);
export function defs({ cases }) {
  return { results: cases.map(c => {
    let want;
    try { want = inventory(c); } catch (e) { return { error: String(e) }; }
    if (!want) return { rejected: true };
    const count = l => { const m = new Map(); for (const [k, n] of l) { if (!KINDS.has(k)) continue; const key = k + ' ' + n; m.set(key, (m.get(key) || 0) + 1); } return m; };
    const a = count(want), b = count(c.defs.map(([k, n]) => [k, NOTEXT.test(n) ? '~' : n]));
    const d = [];
    for (const [k, n] of a) if ((b.get(k) || 0) !== n) d.push(`${k}: source ${n}, HIR ${b.get(k) || 0}`);
    for (const [k, n] of b) if (!a.has(k)) d.push(`${k}: source 0, HIR ${n}`);
    if (!d.length) {
      // HIR leaves modifiers (and a method's name in an object literal) out of the span; the end is exact
      const at = byteMap(c.src), of = new Map();
      for (const [k, n, p, e] of c.defs) if (KINDS.has(k)) { const key = k + ' ' + (NOTEXT.test(n) ? '~' : n) + ' ' + e; of.set(key, (of.get(key) || []).concat([p])); }
      for (const [k, n, p, e, f, any] of want) if (!any && !(of.get(k + ' ' + n + ' ' + at[e]) || []).some(x => at[p] <= x && x <= at[f])) d.push(`${k} ${n} ${at[p]}..${at[e]}, HIR ` + c.defs.filter(x => x[0] === k).map(x => x.join(' ')).join(', '));
      if (d.length) return { diff: 'definition span differs', detail: d.join('; ') };
    }
    return d.length ? { diff: 'definitions differ from the source', detail: d.join('; ') } : { n: want.length };
  }) };
}
