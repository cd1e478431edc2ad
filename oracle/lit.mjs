// Values of single literals as V8 computes them.
import vm from 'node:vm';
const ctx = vm.createContext({});
vm.runInContext('var t=(s)=>({tag:1,cooked:[...s],raw:[...s.raw]})', ctx);
const units = s => { const o = []; for (let i = 0; i < s.length; i++) o.push(s.charCodeAt(i)); return o; };
const bits = n => { const d = new DataView(new ArrayBuffer(8)); d.setFloat64(0, n); return d.getBigUint64(0).toString(16).padStart(16, '0'); };
function show(v) {
  switch (typeof v) {
    case 'number': return { n: bits(v) };
    case 'bigint': return { i: v.toString() };
    case 'string': return { s: units(v) };
    case 'object':
      if (v === null) return { o: 1 };
      if (v.tag === 1) return { cooked: v.cooked.map(x => x === undefined ? null : units(x)), raw: v.raw.map(units) };
      if (Object.prototype.toString.call(v) === '[object RegExp]') return { r: units(v.source), f: v.flags };
      { const k = Object.keys(v); return { k: k.map(units) }; }
    default: return { u: typeof v };
  }
}
function one(c) {
  const src = (c.strict ? '"use strict";' : '') + c.src;
  let s;
  try { s = new vm.Script(src); } catch (e) { return { rejected: String(e && e.message) }; }
  try { return show(s.runInContext(ctx, { timeout: 2000 })); } catch (e) { return { thrown: String(e && e.message) }; }
}
export const lit = async req => ({ results: req.cases.map(one) });
