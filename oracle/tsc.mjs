// TypeScript compiler oracle.
import { createRequire } from 'node:module';
const require = createRequire('/opt/veriftools/node/node_modules/');
export const ts = require('typescript');
export const LIB = `
interface Array<T> { length: number; push(...items: T[]): number; [n: number]: T; }
interface ReadonlyArray<T> { readonly length: number; readonly [n: number]: T; }
interface Boolean {} interface Number {} interface String { readonly length: number; } interface BigInt {} interface Symbol {}
interface Function {} interface CallableFunction extends Function {} interface NewableFunction extends Function {}
interface IArguments {} interface Object {} interface RegExp {}
`;
const cache = new Map();
// A program over the given files (name -> text); `lib` text is the only library.
export function program(files, options, lib = LIB) {
  const host = {
    getSourceFile(name, target) {
      const text = name === '/lib.d.ts' ? lib : files[name];
      if (text === undefined) return undefined;
      if (name === '/lib.d.ts') {
        const key = lib.length + ':' + target;
        if (!cache.has(key)) cache.set(key, ts.createSourceFile(name, text, target));
        return cache.get(key);
      }
      return ts.createSourceFile(name, text, target);
    },
    getDefaultLibFileName: () => '/lib.d.ts', writeFile() {}, getCurrentDirectory: () => '/', getCanonicalFileName: f => f, useCaseSensitiveFileNames: () => true,
    getNewLine: () => '\n', fileExists: f => f === '/lib.d.ts' || f in files, readFile: f => files[f],
    directoryExists: d => Object.keys(files).some(f => f.startsWith(d.endsWith('/') ? d : d + '/')), getDirectories: () => [],
  };
  return ts.createProgram(Object.keys(files), { target: ts.ScriptTarget.ESNext, types: [], ...options }, host);
}
export async function relate(req) {
  const p = program({ '/a.ts': req.src }, { strict: true, strictNullChecks: req.strictNullChecks, strictFunctionTypes: req.strictFunctionTypes });
  const sf = p.getSourceFile('/a.ts');
  const syn = p.getSyntacticDiagnostics(sf);
  if (syn.length) return { error: 'syntax: ' + ts.flattenDiagnosticMessageText(syn[0].messageText, '\n') };
  const c = p.getTypeChecker();
  const sem = p.getSemanticDiagnostics(sf).map(d => ts.flattenDiagnosticMessageText(d.messageText, '\n'));
  if (sem.length) return { error: 'semantic: ' + sem[0] };
  const types = [];
  for (const st of sf.statements) if (ts.isTypeAliasDeclaration(st) && st.name.text[0] === 'A') types.push(c.getTypeFromTypeNode(st.type));
  const matrix = [];
  for (const a of types) for (const b of types) matrix.push(c.isTypeAssignableTo(a, b));
  return { matrix };
}
