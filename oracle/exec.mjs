// Executes programs in V8 and records what they do: the trace monitor of C08, C09, C11, C27.
import vm from 'node:vm';

const objProto = Object.prototype;
function ser(v, st) {
  switch (typeof v) {
    case 'undefined': return 'undefined';
    case 'boolean': return String(v);
    case 'number': return Object.is(v, -0) ? '-0' : String(v);
    case 'bigint': return v + 'n';
    case 'string': return JSON.stringify(v);
    case 'symbol': return 'symbol';
    case 'function': {
      let s = 'fn';
      try {
        const ks = Object.getOwnPropertyNames(v).filter(k => !['length', 'name', 'prototype', 'arguments', 'caller'].includes(k));
        if (ks.length && st.depth < 3) { st.depth++; s += '{' + ks.map(k => k + ':' + serProp(v, k, st)).join(',') + '}'; st.depth--; }
      } catch { s += '!'; }
      return s;
    }
  }
  if (v === null) return 'null';
  if (st.seen.includes(v)) return '<cycle' + st.seen.indexOf(v) + '>';
  if (st.depth > 4) return '<deep>';
  st.seen.push(v); st.depth++;
  let s;
  try {
    const tag = objProto.toString.call(v);
    if (tag === '[object Error]') {
      let n; try { n = v.name; } catch { n = '?'; }
      s = 'Error:' + String(n);
    } else if (Array.isArray(v)) {
      const out = [];
      const len = Math.min(v.length, 50);
      for (let i = 0; i < len; i++) out.push(i in v ? serProp(v, String(i), st) : '<hole>');
      const extra = Reflect.ownKeys(v).filter(k => typeof k === 'string' && !/^\d+$/.test(k) && k !== 'length');
      s = '[' + out.join(',') + (extra.length ? ';' + extra.map(k => k + ':' + serProp(v, k, st)).join(',') : '') + ']' + (v.length > 50 ? '#' + v.length : '');
    } else if (tag === '[object Promise]') s = 'Promise';
    else if (tag === '[object RegExp]') s = String(Object.getOwnPropertyDescriptor(v, 'lastIndex')?.value) + RegExp.prototype.toString.call(v);
    else {
      const ks = Reflect.ownKeys(v).slice(0, 40);
      // V8 reorders literal accessors and computed keys, so their order proves nothing
      if (ks.some(k => { const d = Object.getOwnPropertyDescriptor(v, k); return d && !('value' in d); })) ks.sort((a, b) => (String(a) < String(b) ? -1 : 1));
      let proto = '';
      try { const p = Object.getPrototypeOf(v); if (p === null) proto = '<null>'; else if (Object.getPrototypeOf(p) !== null) proto = '<p>'; } catch {}
      s = tag.slice(8, -1) + proto + '{' + ks.map(k => (typeof k === 'symbol' ? k.toString() : JSON.stringify(k)) + ':' + serProp(v, k, st)).join(',') + '}';
    }
  } catch (e) { s = '<ser error>'; }
  st.depth--;
  return s;
}
function serProp(o, k, st) {
  const d = Object.getOwnPropertyDescriptor(o, k);
  if (!d) return '<none>';
  if ('value' in d) return (d.enumerable && d.writable && d.configurable ? '' : `(${d.enumerable ? 'e' : ''}${d.writable ? 'w' : ''}${d.configurable ? 'c' : ''})`) + ser(d.value, st);
  return '(acc' + (d.get ? 'g' : '') + (d.set ? 's' : '') + (d.enumerable ? 'e' : '') + ')';
}
export const show = v => ser(v, { seen: [], depth: 0 });

class Trace {
  constructor(max = 4000) { this.log = []; this.max = max; this.size = 0; }
  push(s) {
    if (this.log.length >= this.max || this.size > 2e6) throw new TraceFull();
    this.size += s.length; this.log.push(s);
  }
}
class TraceFull extends Error {}

const drain = async () => { for (let i = 0; i < 3; i++) await new Promise(r => setImmediate(r)); };

let rejections = null;
process.on('unhandledRejection', e => { if (rejections) rejections.push(e); });

export async function execOne(c, timeout = 1000) {
  const t = new Trace();
  const sandbox = {};
  const ctx = vm.createContext(sandbox, c.mode === 'module' ? {} : { microtaskMode: 'afterEvaluate' });
  const g = vm.runInContext('globalThis', ctx);
  // function source text is not part of the behaviour under test
  vm.runInContext('Object.defineProperty(Function.prototype,"toString",{value:{toString(){return "function"}}.toString,writable:true,configurable:true})', ctx);
  const dollar = (...a) => { t.push(a.map(show).join(' ')); return a.length ? a[a.length - 1] : undefined; };
  Object.defineProperty(g, '$', { value: dollar, enumerable: false });
  // identifiers of the embedder never leak into the program's own view
  const res = { log: t.log, end: '' };
  try {
    if (c.mode === 'module') {
      let m;
      try { m = new vm.SourceTextModule(c.src, { context: ctx, identifier: 'main' }); }
      catch (e) { res.end = 'syntax:' + e.message; return res; }
      const dep = new vm.SyntheticModule(['default', 'x', 'y', 'f'], function () {
        this.setExport('default', 42); this.setExport('x', 5); this.setExport('y', 'why'); this.setExport('f', a => a);
      }, { context: ctx, identifier: 'm' });
      try { await m.link(async spec => { t.push('import ' + spec); return dep; }); }
      catch (e) { res.end = 'link:' + e.name + ':' + e.message; return res; }
      rejections = [];
      try { await Promise.race([m.evaluate({ timeout }), new Promise(r => setTimeout(() => r('late'), timeout).unref?.())]); res.end = 'ok'; }
      catch (e) { res.end = e instanceof TraceFull ? 'full' : e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT' ? 'timeout' : 'throw:' + show(e); }
      await drain();
      for (const r of rejections) t.push('unhandled ' + show(r));
      rejections = [];
      if (m.status === 'evaluated') {
        const ns = m.namespace;
        for (const k of Reflect.ownKeys(ns)) if (typeof k === 'string') { let v; try { v = show(ns[k]); } catch (e) { v = 'throws ' + show(e); } t.push('export ' + JSON.stringify(k) + '=' + v); }
      }
    } else {
      let s;
      try { s = new vm.Script(c.src, { filename: 'main' }); } catch (e) { res.end = 'syntax:' + e.message; return res; }
      rejections = [];
      try { const v = s.runInContext(ctx, { timeout }); res.end = 'ok' + (c.completion ? ':' + show(v) : ''); }
      catch (e) { res.end = e instanceof TraceFull ? 'full' : e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT' ? 'timeout' : 'throw:' + show(e); }
      // a script that throws leaves its jobs queued: run them now
      if (res.end.startsWith('throw:')) try { vm.runInContext('0', ctx, { timeout }); } catch { res.end = 'timeout'; }
      await drain();
      for (const r of rejections) t.push('unhandled ' + show(r));
      rejections = [];
      if (c.globals) {
        const keys = Reflect.ownKeys(g).filter(k => typeof k === 'string' && Object.getOwnPropertyDescriptor(g, k)?.enumerable).sort();
        for (const k of keys) t.push('global ' + JSON.stringify(k) + '=' + serProp(g, k, { seen: [], depth: 0 }));
        for (const n of c.observe || []) {
          let v;
          try { v = show(vm.runInContext(n, ctx)); } catch (e) { v = 'throws ' + show(e); }
          t.push('name ' + n + '=' + v);
        }
      }
    }
  } catch (e) {
    await drain();
    if (e instanceof TraceFull) res.end = 'full'; else res.end = 'host:' + (e && e.stack);
  }
  await drain();
  rejections = null;
  return res;
}

export async function exec(req) {
  const out = [];
  for (const c of req.cases) out.push(await execOne(c, req.timeout || 1000));
  return { results: out };
}
