// Reference scope analysis: eslint-scope over acorn's tree. Decides which identifiers denote the same binding.
import { createRequire } from 'node:module';
import { byteMap } from './syntax.mjs';
const req = createRequire('/opt/veriftools/node/node_modules/x.js');
const acorn = req('acorn');
const es = await import(req.resolve('eslint-scope'));
const analyze = es.analyze || es.default.analyze;

export function resolveScopes(src, module, tdz) {
  const ast = acorn.parse(src, { ecmaVersion: 'latest', sourceType: module ? 'module' : 'script', ranges: true, allowHashBang: true });
  const man = analyze(ast, { ecmaVersion: 2022, sourceType: module ? 'module' : 'script', ignoreEval: true });
  const id = new Map(); // variable -> number
  const num = v => { if (!id.has(v)) id.set(v, id.size); return id.get(v); };
  // the inner binding of a declared class stands for the outer one
  const outer = v => {
    const d = v.defs[0];
    if (v.scope.type === 'class' && d && d.node.type === 'ClassDeclaration') {
      const o = v.scope.upper.set.get(v.name);
      if (o && o.defs.some(x => x.node === d.node)) return o;
    }
    return v;
  };
  const pos = new Map(); // start -> { name, v: variable number or null, skip }
  const put = (n, v, skip) => {
    const k = n.range[0];
    const val = v && v.defs.length ? num(outer(v)) : null;
    const old = pos.get(k);
    if (old && old.v !== val) { old.skip = true; return; }
    pos.set(k, { name: n.name, v: val, skip: !!skip, global: !!v && outer(v).scope.type === 'global' });
  };
  const dyn = new Set(); // names of sloppy block functions (Annex B gives them two bindings)
  const strict = s => s.isStrict;
  // `if (x) function f() {}` is as if in a block
  const walk = n => {
    if (!n || typeof n.type !== 'string') return;
    if (n.type === 'IfStatement') for (const b of [n.consequent, n.alternate]) if (b && b.type === 'FunctionDeclaration') dyn.add(b.id.name);
    for (const k in n) { const x = n[k]; if (Array.isArray(x)) x.forEach(walk); else if (x && typeof x === 'object') walk(x); }
  };
  walk(ast);
  for (const s of man.scopes) {
    for (const v of s.variables) for (const d of v.defs) {
      if (d.type === 'FunctionName' && d.node.type === 'FunctionDeclaration' && ['block', 'switch'].includes(s.type) && !strict(s)) dyn.add(v.name);
      if (d.name && d.name.range && d.name.type === 'Identifier') put(d.name, v);
    }
    for (const r of s.references) {
      if (r.identifier.type !== 'Identifier') continue;
      let v = r.resolved, through = false;
      for (let t = r.from; t && t !== (v && v.scope); t = t.upper) if (t.type === 'with') through = true;
      if (!v) { const g = man.scopes[0].set.get(r.identifier.name); if (g && g.defs.length) v = g; }
      // semantic-js resolves the right side of for-in/of outside the loop's scope (its tests require it); `tdz` asks for the standard's rule
      if (!tdz && v && v.scope.type === 'for' && v.scope.block.right && r.identifier.range[0] >= v.scope.block.right.range[0] && r.identifier.range[1] <= v.scope.block.right.range[1]) through = true;
      put(r.identifier, v, through);
    }
  }
  return { pos, dyn, man, ast };
}
// Compares a partition of identifiers: ids = [[byte start, name, symbol or null]].
export function scope({ cases }) {
  return { results: cases.map(c => {
    let r;
    try { r = resolveScopes(c.src, c.module, c.tdz); } catch (e) { return { rejected: String(e.message) }; }
    const bm = byteMap(c.src);
    const want = new Map();
    for (const [k, x] of r.pos) want.set(bm[k], x);
    const a2b = new Map(), b2a = new Map();
    let n = 0, bound = 0;
    const seen = new Set();
    for (const [p, name, sym] of c.ids) {
      const w = want.get(p);
      seen.add(p);
      if (!w) { if (c.strictIds) return { diff: `${name} at ${p} is not an identifier reference or binding`, n }; continue; }
      if (w.skip || r.dyn.has(w.name)) continue;
      const v = c.mode === 'global' && w.global ? null : w.v;
      n++;
      if ((v === null) !== (sym === null)) return { diff: `${name} at ${p} is ${sym === null ? 'unresolved' : 'resolved'} but ECMAScript ${v === null ? 'leaves it free' : 'binds it'}`, n };
      if (v === null) continue;
      bound++;
      if (a2b.has(sym) && a2b.get(sym).v !== v) return { diff: `${name} at ${p} and ${a2b.get(sym).name} at ${a2b.get(sym).p} share a symbol but denote different bindings`, n };
      if (b2a.has(v) && b2a.get(v).sym !== sym) return { diff: `${name} at ${p} and at ${b2a.get(v).p} denote one binding but have different symbols`, n };
      a2b.set(sym, { v, p, name }); b2a.set(v, { sym, p });
    }
    for (const [p, w] of want) if (!seen.has(p) && !w.skip && w.name !== 'arguments') {
      if (c.exports && c.exports.some(([a, b]) => p >= a && p < b)) continue;
      return { diff: `${w.name} at ${p} has no resolution`, n };
    }
    return { n, bound, symbols: a2b.size };
  }) };
}
