// Reference syntax: acorn's tree in the canonical form of hjs/src/estree.rs, and acceptance by acorn and V8.
import vm from 'node:vm';
import { createRequire } from 'node:module';
const req = createRequire('/opt/veriftools/node/node_modules/x.js');
const acorn = req('acorn');

const dv = new DataView(new ArrayBuffer(8));
export const numBits = v => { if (Number.isNaN(v)) return 'NaN'; dv.setFloat64(0, v); return dv.getBigUint64(0).toString(16).padStart(16, '0'); };
export const units = s => s.isWellFormed() ? s : Array.from({ length: s.length }, (_, i) => s.charCodeAt(i));

// UTF-16 index -> UTF-8 byte offset
export function byteMap(src) {
  const m = new Int32Array(src.length + 1);
  let b = 0;
  for (let i = 0; i < src.length; i++) {
    m[i] = b;
    const c = src.charCodeAt(i);
    if (c < 0x80) b += 1; else if (c < 0x800) b += 2;
    else if (c >= 0xd800 && c < 0xdc00 && i + 1 < src.length && (src.charCodeAt(i + 1) & 0xfc00) === 0xdc00) { m[i + 1] = b; i++; b += 4; }
    else b += 3;
  }
  m[src.length] = b;
  return m;
}

// V8's value of a numeric literal: acorn rounds long hexadecimal, octal and binary ones twice
const num = n => typeof n.value === 'number' ? (0, eval)(n.raw) : n.value;

export function canon(src, ast) {
  const bm = byteMap(src);
  const N = (n, f, t) => ({ t: t || n.type, l: [bm[n.start], bm[n.end]], ...f });
  const list = a => a.map(x => x && go(x));
  const o = x => x ? go(x) : null;
  const key = n => n.computed ? go(n.key) : n.key.type === 'Identifier' ? n.key.name : n.key.type === 'PrivateIdentifier' ? '#' + n.key.name
    : typeof n.key.value === 'string' ? units(n.key.value) : String(num(n.key));
  const name = n => n.type === 'Literal' ? n.value : n.name;
  const fn = n => ({ async: n.async, generator: n.generator, params: list(n.params), body: n.body.type === 'BlockStatement' ? list(n.body.body) : go(n.body), ...(n.type === 'ArrowFunctionExpression' ? {} : { id: n.id ? n.id.name : null }) });
  const cls = n => ({ id: n.id ? n.id.name : null, superClass: o(n.superClass), body: list(n.body.body) });
  const attrs = n => (n.attributes || []).map(a => [name(a.key), a.value.value]);
  const body = b => b.type === 'BlockStatement' ? list(b.body) : [go(b)];
  const tpl = q => q.quasis.map(e => [units(e.value.raw), e.value.cooked == null ? null : units(e.value.cooked)]);
  const chain = n => n.type === 'ChainExpression' ? n.expression : n;
  function go(n) {
    switch (n.type) {
      case 'Program': return N(n, { body: list(n.body) });
      case 'BlockStatement': return N(n, { body: list(n.body) });
      case 'StaticBlock': return N(n, { body: list(n.body) });
      case 'BreakStatement': case 'ContinueStatement': return N(n, { label: n.label ? n.label.name : null });
      case 'DebuggerStatement': case 'EmptyStatement': case 'ThisExpression': case 'Super': return N(n, {});
      case 'DoWhileStatement': return N(n, { body: go(n.body), test: go(n.test) });
      case 'WhileStatement': return N(n, { test: go(n.test), body: go(n.body) });
      case 'WithStatement': return N(n, { object: go(n.object), body: go(n.body) });
      case 'ExportDefaultDeclaration': return N(n, { declaration: go(n.declaration) });
      case 'ExportAllDeclaration': return N(n, { exported: n.exported ? name(n.exported) : null, source: n.source.value, attributes: attrs(n) });
      case 'ExportNamedDeclaration': return N(n, { declaration: o(n.declaration), specifiers: n.specifiers.map(s => [name(s.local), name(s.exported)]), source: n.source ? n.source.value : null, attributes: attrs(n) });
      case 'ImportDeclaration': return N(n, { specifiers: n.specifiers.map(s => [s.type === 'ImportDefaultSpecifier' ? 'default' : s.type === 'ImportNamespaceSpecifier' ? '*' : name(s.imported), s.local.name]), source: n.source.value, attributes: attrs(n) });
      case 'ExpressionStatement': return N(n, { expression: go(n.expression) });
      case 'ForInStatement': return N(n, { left: go(n.left), right: go(n.right), body: body(n.body) });
      case 'ForOfStatement': return N(n, { await: n.await, left: go(n.left), right: go(n.right), body: body(n.body) });
      case 'ForStatement': return N(n, { init: o(n.init), test: o(n.test), update: o(n.update), body: body(n.body) });
      case 'IfStatement': return N(n, { test: go(n.test), consequent: go(n.consequent), alternate: o(n.alternate) });
      case 'LabeledStatement': return N(n, { label: n.label.name, body: go(n.body) });
      case 'ReturnStatement': case 'ThrowStatement': return N(n, { argument: o(n.argument) });
      case 'SwitchStatement': return N(n, { discriminant: go(n.discriminant), cases: n.cases.map(c => N(c, { test: o(c.test), consequent: list(c.consequent) })) });
      case 'TryStatement': return N(n, { block: go(n.block), handler: n.handler ? N(n.handler, { param: o(n.handler.param), body: list(n.handler.body.body) }) : null, finalizer: o(n.finalizer) });
      case 'ClassDeclaration': case 'ClassExpression': return N(n, cls(n));
      case 'FunctionDeclaration': case 'FunctionExpression': return N(n, fn(n));
      case 'ArrowFunctionExpression': return N(n, { ...fn(n), expression: n.body.type !== 'BlockStatement' });
      case 'VariableDeclaration': return N(n, { kind: n.kind, declarations: n.declarations.map(d => ({ t: 'VariableDeclarator', id: go(d.id), init: o(d.init) })) });
      case 'PropertyDefinition': return N(n, { static: n.static, computed: n.computed, key: key(n), value: o(n.value) });
      case 'MethodDefinition': return N(n, { static: n.static, kind: n.kind === 'constructor' ? 'method' : n.kind, computed: n.computed, key: key(n), value: go(n.value) });
      case 'Property': return { t: 'Property', l: [bm[n.start], bm[n.end]], computed: n.computed, shorthand: n.shorthand, kind: n.kind, method: n.method, key: key(n), value: go(n.value) };
      case 'Identifier': return N(n, { name: n.name });
      case 'PrivateIdentifier': return N(n, { name: '#' + n.name }, 'Identifier');
      case 'ArrayPattern': return N(n, { elements: list(n.elements) });
      case 'ObjectPattern': return N(n, { properties: list(n.properties) });
      case 'AssignmentPattern': return { t: 'AssignmentPattern', left: go(n.left), right: go(n.right) };
      case 'RestElement': case 'SpreadElement': return { t: n.type, argument: go(n.argument) };
      case 'ChainExpression': return N(n, { expression: go(n.expression) });
      case 'SequenceExpression': return N(n, { expressions: list(n.expressions) });
      case 'BinaryExpression': case 'LogicalExpression': case 'AssignmentExpression': return N(n, { operator: n.operator, left: go(n.left), right: go(n.right) });
      case 'CallExpression': return N(n, { optional: n.optional, callee: go(n.callee), arguments: list(n.arguments) });
      case 'NewExpression': return N(n, { callee: go(n.callee), arguments: list(n.arguments) });
      case 'MemberExpression': return N(n, { computed: n.computed, optional: n.optional, object: go(n.object), property: n.computed ? go(n.property) : n.property.type === 'PrivateIdentifier' ? '#' + n.property.name : n.property.name });
      case 'ConditionalExpression': return N(n, { test: go(n.test), consequent: go(n.consequent), alternate: go(n.alternate) });
      case 'ImportExpression': return N(n, { source: go(n.source), options: o(n.options) });
      case 'MetaProperty': return N(n, { name: n.meta.name + '.' + n.property.name });
      case 'TaggedTemplateExpression': return N(n, { tag: go(n.tag), quasis: tpl(n.quasi), expressions: list(n.quasi.expressions) });
      case 'TemplateLiteral': return N(n, { quasis: tpl(n), expressions: list(n.expressions) });
      case 'AwaitExpression': return N(n, { argument: go(n.argument) });
      case 'YieldExpression': { const a = o(n.argument); return N(n, { delegate: n.delegate, argument: a }); }
      case 'UpdateExpression': return N(n, { operator: n.operator, prefix: n.prefix, argument: go(n.argument) });
      case 'UnaryExpression': return N(n, { operator: n.operator, argument: go(n.argument) });
      case 'ArrayExpression': return N(n, { elements: list(n.elements) });
      case 'ObjectExpression': return N(n, { properties: list(n.properties) });
      case 'ParenthesizedExpression': return go(n.expression);
      case 'Literal':
        if (n.regex) return N(n, { value: '/' + n.regex.pattern + '/' + n.regex.flags }, 'RegExp');
        if (n.bigint != null) return N(n, { value: BigInt(n.bigint).toString() }, 'BigInt');
        if (n.value === null) return N(n, {}, 'Null');
        if (typeof n.value === 'number') return N(n, { value: numBits(num(n)) }, 'Number');
        if (typeof n.value === 'boolean') return N(n, { value: n.value }, 'Boolean');
        return N(n, { value: units(n.value) }, 'String');
    }
    throw new Error('canon: ' + n.type);
  }
  return go(ast);
}

export function acornParse(src, module, extra) {
  return acorn.parse(src, { ecmaVersion: 'latest', sourceType: module ? 'module' : 'script', allowHashBang: true, ...extra });
}

const hideUndefined = n => n && n.t === 'Identifier' && n.name === 'undefined' ? null : n;
// First difference between two canonical trees, or null. `spans` also compares node ranges.
export function diff(a, b, spans, path = '$') {
  if (a === b) return null;
  if (Array.isArray(a) && Array.isArray(b)) {
    if (a.length !== b.length) return `${path}: ${a.length} vs ${b.length} items`;
    for (let i = 0; i < a.length; i++) { const d = diff(a[i], b[i], spans, `${path}[${i}]`); if (d) return d; }
    return null;
  }
  if (a && b && typeof a === 'object' && typeof b === 'object' && !Array.isArray(a) && !Array.isArray(b)) {
    if (a.t !== b.t) return `${path}: ${a.t} vs ${b.t}`;
    const ks = new Set([...Object.keys(a), ...Object.keys(b)]);
    for (const k of ks) {
      if (k === 'l') {
        // The declaration of `export let a` may start at `export`.
        if (spans && a.l && b.l && spans(a) && (!path.endsWith('.declaration') && a.l[0] !== b.l[0] || a.l[1] !== b.l[1])) return `${path}<${a.t}>: span ${a.l} vs ${b.l}`;
        continue;
      }
      let x = a[k], y = b[k];
      if (a.t === 'YieldExpression' && k === 'argument') { x = hideUndefined(x); y = hideUndefined(y); }
      if (x === undefined || y === undefined) return `${path}.${k}: missing`;
      const d = diff(x, y, spans, `${path}.${k}`);
      if (d) return d;
    }
    return null;
  }
  return `${path}: ${JSON.stringify(a)?.slice(0, 80)} vs ${JSON.stringify(b)?.slice(0, 80)}`;
}

export function v8Accepts(src, module) {
  try { if (module) new vm.SourceTextModule(src, { context: vmctx ??= vm.createContext({}) }); else new vm.Script(src); return true; }
  catch (e) { if (e instanceof SyntaxError || e?.name === 'SyntaxError') return false; throw e; }
}
let vmctx;

// V8 checks early errors of modules when linking and its module compiler crashes on some inputs: babel instead.
const babel = req('@babel/parser');
function moduleAccepts(c) {
  let a, b, why = '';
  try { acornParse(c.src, true); a = true; } catch (e) { a = false; why = e.message; }
  try { babel.parse(c.src, { sourceType: 'module', errorRecovery: false }); b = true; } catch (e) { b = false; why = e.message + ' / ' + why; }
  return { accepts: a === b ? a : null, why };
}
// {src, module} -> does the language accept it? null when the references disagree
export function accepts(c) {
  if (c.module) return moduleAccepts(c);
  let a, why = '';
  try { acornParse(c.src, c.module); a = true; } catch (e) { a = false; why = e.message; }
  let v;
  try { v = v8Accepts(c.src, c.module); } catch (e) { return { accepts: null, why: String(e) }; }
  return { accepts: a === v ? a : null, why, acorn: a, v8: v };
}

const NOSPAN = new Set(['Program', 'FunctionExpression']);
// {src, module, tree, spans}: compares a canonical tree against acorn's
export function tree(c) {
  let ref;
  try { ref = canon(c.src, acornParse(c.src, c.module)); } catch (e) { return { rejected: e.message }; }
  const d = diff(c.tree, ref);
  const sp = d || !c.spans ? null : diff(c.tree, ref, n => !NOSPAN.has(n.t));
  return { diff: d, span: sp };
}
export async function syntax(req) {
  return { results: req.cases.map(c => { try { return req.what === 'accepts' || c.accepts ? accepts(c) : tree(c); } catch (e) { return { error: String(e && e.stack || e) }; } }) };
}
