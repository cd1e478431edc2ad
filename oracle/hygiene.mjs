// Judges a minified text against its source by independent scope analysis.
import { resolveScopes } from './scope.mjs';
import { v8Accepts } from './syntax.mjs';

function facts(src, module) {
  const r = resolveScopes(src, module);
  const types = [], props = new Set(), strings = new Set(), exportsOut = new Set(), labels = new Set();
  let evalish = false;
  // names that a direct eval or the body of a `with` can see
  const visible = new Set();
  const see = s => { for (; s; s = s.upper) for (const v of s.variables) if (v.defs.length) visible.add(v.name); };
  const evalCalls = new Set();
  const key = n => n.type === 'Identifier' ? n.name : n.type === 'Literal' ? String(n.value) : n.type === 'PrivateIdentifier' ? '#' + n.name : null;
  const walk = n => {
    if (n.type !== 'EmptyStatement') types.push(n.type);
    switch (n.type) {
      case 'MemberExpression': if (!n.computed) props.add(key(n.property)); break;
      case 'Property': case 'MethodDefinition': case 'PropertyDefinition': if (!n.computed) props.add(key(n.key)); break;
      case 'Literal': strings.add(String(n.value)); break;
      case 'TemplateElement': strings.add(String(n.value.cooked)); break;
      case 'WithStatement': evalish = true; break;
      case 'CallExpression': if (n.callee.type === 'Identifier' && n.callee.name === 'eval') { evalish = true; evalCalls.add(n.callee); } break;
      case 'ExportNamedDeclaration':
        for (const s of n.specifiers) exportsOut.add(key(s.exported) + (n.source ? ' from ' + n.source.value + ' ' + key(s.local) : ''));
        if (n.declaration) {
          const pat = p => { if (!p) return; if (p.type === 'Identifier') exportsOut.add(p.name); else if (p.type === 'ObjectPattern') p.properties.forEach(q => pat(q.value || q.argument)); else if (p.type === 'ArrayPattern') p.elements.forEach(pat); else if (p.type === 'AssignmentPattern') pat(p.left); else if (p.type === 'RestElement') pat(p.argument); };
          if (n.declaration.declarations) n.declaration.declarations.forEach(d => pat(d.id)); else pat(n.declaration.id);
        }
        break;
      case 'ExportDefaultDeclaration': exportsOut.add('default'); break;
      case 'ExportAllDeclaration': exportsOut.add('*' + (n.exported ? key(n.exported) : '') + ' from ' + n.source.value); break;
      case 'ImportDeclaration': for (const s of n.specifiers) if (s.type === 'ImportSpecifier') props.add('import ' + key(s.imported)); break;
    }
    for (const k in n) {
      if (k === 'range') continue;
      const x = n[k];
      if (Array.isArray(x)) { for (const y of x) if (y && typeof y.type === 'string') walk(y); } else if (x && typeof x.type === 'string') walk(x);
    }
  };
  walk(r.ast);
  for (const s of r.man.scopes) for (const x of s.references) if (x.identifier.name === 'eval' && evalCalls.has(x.identifier)) see(s);
  // references that pass through a `with`
  for (const s of r.man.scopes) for (const x of s.references) for (let t = s; t && t !== (x.resolved && x.resolved.scope); t = t.upper) if (t.type === 'with') visible.add(x.identifier.name);
  const ids = [...r.pos.entries()].sort((a, b) => a[0] - b[0]).map(x => x[1]);
  const loose = new Set(ids.filter(x => x.skip).map(x => x.name));
  const free = new Set(ids.filter(x => x.v === null && !x.skip).map(x => x.name));
  const g = r.man.scopes[0];
  const declared = new Set();
  for (const s of r.man.scopes) for (const v of s.variables) if (v.defs.length) declared.add(v.name);
  const top = new Set(g.variables.filter(v => v.defs.length && !r.dyn.has(v.name)).map(v => v.name));
  return { visible, types, props, strings, exportsOut, evalish, ids, free, loose, declared, top, dyn: r.dyn };
}
const minus = (a, b) => [...a].filter(x => !b.has(x));
export function hygiene({ cases }) {
  return { results: cases.map(c => {
    let a, b;
    try { a = facts(c.src, c.module); } catch (e) { return { rejected: String(e.message) }; }
    try { b = facts(c.out, c.module); } catch (e) { if (v8Accepts(c.out, c.module)) return { rejected: 'acorn rejects the output, V8 does not' }; return { diff: 'output is not valid ECMAScript', detail: String(e.message) }; }
    let d;
    if ((d = minus(b.free, new Set([...a.free, ...a.dyn, ...a.loose, ...['NaN', 'Infinity'].filter(x => !a.declared.has(x))]))).length) return { diff: 'output uses a free name the input does not', detail: d.join() };
    const ex = [...minus(a.exportsOut, b.exportsOut).map(x => '-' + x), ...minus(b.exportsOut, a.exportsOut).map(x => '+' + x)];
    if (c.module && ex.length) return { diff: 'exports differ', detail: ex.join() };
    if (!c.module) {
      const t = [...minus(a.top, b.top).map(x => '-' + x), ...minus(b.top, new Set([...a.top, ...a.dyn])).map(x => '+' + x)];
      if (t.length) return { diff: 'global declarations differ', detail: t.join() };
    }
    if (!a.types.includes('BinaryExpression') && !a.types.includes('TemplateLiteral') && (d = minus(b.props, a.props).filter(x => !a.strings.has(x) && !a.declared.has(x) && !a.free.has(x))).length) return { diff: 'output has a property name the input does not', detail: d.join() };
    if (a.evalish && (d = minus(b.visible, a.visible)).length) return { diff: 'a name visible to eval or with was renamed', detail: d.join() };
    // same tree: the renaming must be a bijection of bindings
    let alpha = false;
    if (a.types.length === b.types.length && a.ids.length === b.ids.length && a.types.every((t, i) => t === b.types[i])) {
      alpha = true;
      const f = new Map(), g = new Map();
      for (let i = 0; i < a.ids.length; i++) {
        const x = a.ids[i], y = b.ids[i];
        if (x.skip || y.skip || a.dyn.has(x.name) || b.dyn.has(y.name)) continue;
        if ((x.v === null) !== (y.v === null)) return { diff: 'a reference changed between bound and free', detail: `${x.name} -> ${y.name} (identifier ${i})` };
        if (x.v === null) { if (x.name !== y.name) return { diff: 'a free name was renamed', detail: `${x.name} -> ${y.name}` }; continue; }
        if (f.has(x.v) && f.get(x.v) !== y.v || g.has(y.v) && g.get(y.v) !== x.v) return { diff: 'renaming captures', detail: `${x.name} -> ${y.name} (identifier ${i})` };
        f.set(x.v, y.v); g.set(y.v, x.v);
      }
    }
    return { n: a.ids.length, alpha, evalish: a.evalish, renamed: b.declared.size && minus(b.declared, a.declared).length };
  }) };
}
